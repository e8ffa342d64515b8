/*
 * mc.h - a small explicit-state / stateless model checker for C code.
 *
 * Two exploration engines, both exhaustive within the bounds a scenario states:
 *
 *   MC_DFS  stateless: the body draws every nondeterministic decision with
 *           mc_choose(n); the engine enumerates all decision vectors.
 *   MC_BFS  explicit state: a state is a byte string, `apply` runs one
 *           operation of the real code on a freshly rebuilt object; the engine
 *           deduplicates successors and explores breadth first.
 *
 * Work is spread over forked workers that share the claim table, the visited
 * set and the counters. The decision vector (or the state/operation pair) being
 * executed lives in shared memory, so a crash, abort or hang in the code under
 * test is attributed to it and written out as a replayable file.
 */
#ifndef MC_H
#define MC_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MC_MAXC 2048
#define MC_WORKERS 16
#define MC_CLAIMS (1u << 22)
#define MC_HASH_BITS 24
#define MC_SAMPLES 3

enum { MC_DFS, MC_BFS };

typedef struct mc_scenario {
  const char *name;
  int kind;
  void (*body)(void);                                     /* DFS */
  /* BFS: writes initial state number i, returns its length or -1 */
  long (*init)(int i, uint8_t *out);
  /* BFS: applies operation op; 1 = successor in out, 0 = not enabled,
     2 = executed and checked, but outside the state bound */
  int (*apply)(const uint8_t *state, size_t size, int op,
    uint8_t *out, size_t *out_size);
  int ops;
  int depth;                                              /* BFS bound */
  const char *bound;                                      /* prose */
} mc_scenario;

typedef struct mc_slot {
  volatile uint64_t execs, transitions, checks, outside;
  volatile int nchoice;
  int choice[MC_MAXC];
  int arity[MC_MAXC];
  volatile uint32_t bfs_state;
  volatile int bfs_op;
  volatile int failed, hang, busy;
  char why[2048];
  int sample_n[MC_SAMPLES];
  int sample[MC_SAMPLES][MC_MAXC];
} mc_slot;

typedef struct mc_rec {
  uint64_t off;
  uint32_t len, parent;
  int op;
  uint16_t depth;
  uint8_t dead, init;
} mc_rec;

typedef struct mc_shared {
  mc_slot slot[MC_WORKERS];
  uint8_t claim[MC_CLAIMS];
  volatile uint64_t nstates, noutcomes, overflow;
  volatile int stop, capped;
  pthread_barrier_t barrier;
  volatile uint32_t nrec, lo, hi, next, depth_done;
  volatile uint64_t arena_used;
} mc_shared;

static mc_shared *mc_sh;
static mc_slot *mc_me;
static volatile uint64_t *mc_states_tab, *mc_outcomes_tab;
static volatile uint32_t *mc_bfs_tab;
static mc_rec *mc_recs;
static uint8_t *mc_arena;
#define MC_ARENA (2ull << 30)
#define MC_MAXREC (1u << 22)

static int mc_id, mc_nworkers = 8, mc_tracing, mc_replaying, mc_thorough;
static int mc_plen, mc_prefix[MC_MAXC], mc_parity[MC_MAXC];
static uint64_t mc_seen_prefix;
static const mc_scenario *mc_cur;
static const char *mc_outdir = ".";
static double mc_deadline = 0;
static char *mc_tracebuf; static size_t mc_tracelen, mc_tracecap;

static double mc_now(void) {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}

/* -- trace and failure ---------------------------------------------------- */

__attribute__((format(printf, 1, 2), unused))
static void mc_trace(const char *fmt, ...) {
  if (!mc_tracing)
    return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
  putchar('\n'); fflush(stdout);
}

__attribute__((unused))
static const char *mc_hex(const void *data, size_t n) {
  static char ring[8][4200]; static int r;
  char *b = ring[r++ & 7]; size_t o = 0; const uint8_t *d = data;
  if (!n) return "(empty)";
  for (size_t i = 0; i < n; i++) {
    if (i == 1000) { o += sprintf(b + o, "...(%zu bytes)", n); break; }
    o += sprintf(b + o, "%s%02x", i && i % 4 == 0 ? " " : "", d[i]);
  }
  b[o] = 0;
  return b;
}

__attribute__((noreturn, format(printf, 1, 2)))
static void mc_fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (mc_me) vsnprintf(mc_me->why, sizeof mc_me->why, fmt, ap);
  va_end(ap);
  if (mc_replaying) {
    printf("FAILED: %s\n", mc_me->why); fflush(stdout);
    _exit(1);
  }
  mc_me->failed = 1;
  mc_sh->stop = 1;
  _exit(1);
}

#define mc_check(cond, ...) \
  do { mc_me->checks++; if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

/* -- counters ------------------------------------------------------------- */

static inline uint64_t mc_mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
__attribute__((unused))
static uint64_t mc_hash(const void *data, size_t n, uint64_t h) {
  const uint8_t *d = data; h ^= 0x9e3779b97f4a7c15ULL + n;
  while (n >= 8) { uint64_t w; memcpy(&w, d, 8); h = mc_mix(h ^ w) + 0x9e3779b97f4a7c15ULL; d += 8; n -= 8; }
  uint64_t w = 0; if (n) memcpy(&w, d, n);
  return mc_mix(h ^ w ^ ((uint64_t)n << 56));
}
static int mc_set_insert(volatile uint64_t *tab, uint64_t h) {
  if (!h) h = 1;
  uint64_t m = (1ull << MC_HASH_BITS) - 1;
  for (uint64_t i = h & m, probes = 0; probes < 64; i = (i + 1) & m, probes++) {
    uint64_t v = tab[i];
    if (v == h) return 0;
    if (!v) {
      if (__sync_bool_compare_and_swap(&tab[i], 0, h)) return 1;
      if (tab[i] == h) return 0;
    }
  }
  return -1;
}
/* Count a distinct state (saturates when the table is full) */
__attribute__((unused)) static void mc_state(uint64_t h) {
  int r = mc_set_insert(mc_states_tab, mc_mix(h));
  if (r == 1) __sync_fetch_and_add(&mc_sh->nstates, 1);
  else if (r < 0) mc_sh->overflow = 1;
}
/* Count a distinct observed outcome */
__attribute__((unused)) static void mc_outcome(uint64_t h) {
  int r = mc_set_insert(mc_outcomes_tab, mc_mix(h));
  if (r == 1) __sync_fetch_and_add(&mc_sh->noutcomes, 1);
}
__attribute__((unused)) static void mc_step(void) { mc_me->transitions++; }

/* -- DFS ------------------------------------------------------------------ */

__attribute__((unused)) static int mc_choose(int n) {
  if (n <= 0) { fprintf(stderr, "mc: empty choice\n"); _exit(3); }
  int i = mc_me->nchoice;
  if (i >= MC_MAXC) { fprintf(stderr, "mc: too many choices\n"); _exit(3); }
  int c = 0;
  if (i < mc_plen) {
    c = mc_prefix[i];
    if (c >= n || (mc_parity[i] && mc_parity[i] != n)) {
      fprintf(stderr, "mc: divergence at choice %d: %d of %d (recorded arity %d)\n",
        i, c, n, mc_parity[i]);
      _exit(3);
    }
  }
  mc_me->choice[i] = c; mc_me->arity[i] = n;
  mc_me->nchoice = i + 1;
  return c;
}

/* Claim the subtree below the current decision prefix. Call exactly once per
   execution, before anything is allocated; on 0 the body must return. */
static int mc_sharded;
__attribute__((unused)) static int mc_shard(void) {
  mc_sharded = 1;
  if (mc_replaying) return 1;
  /* a new prefix starts whenever the odometer moved a digit at or before here */
  static int last[MC_MAXC], lastn = -1, mine;
  int n = mc_me->nchoice;
  if (n == lastn && !memcmp(last, mc_me->choice, n * sizeof(int)))
    return mine;
  memcpy(last, mc_me->choice, n * sizeof(int)); lastn = n;
  uint64_t id = mc_seen_prefix++;
  if (id >= MC_CLAIMS) mine = (int)(id % mc_nworkers) == mc_id;
  else mine = __sync_bool_compare_and_swap(&mc_sh->claim[id], 0, 1);
  return mine;
}

static void mc_hang(int sig) {
  (void)sig;
  static uint64_t last; static int same;
  if (!mc_me->busy) { same = 0; return; }
  uint64_t now = mc_me->execs * 1000003 + mc_me->transitions * 31 + mc_me->checks + mc_me->nchoice;
  if (now == last) {
    if (++same >= 4) {
      mc_me->hang = 1; mc_sh->stop = 1;
      static const char m[] = "mc: no progress, reporting a hang\n";
      if (write(2, m, sizeof m - 1)) {}
      _exit(4);
    }
  } else same = 0;
  last = now;
}

static void mc_dfs_run_one(void) {
  mc_me->nchoice = 0; mc_sharded = 0;
  mc_cur->body();
}

static void mc_dfs_worker(void) {
  mc_plen = 0; mc_seen_prefix = 0;
  uint64_t mine = 0, want = 1; int s = 0;
  for (;;) {
    if (mc_sh->stop) break;
    if (mc_deadline && mc_now() > mc_deadline) { mc_sh->capped = 1; break; }
    uint64_t before = mc_me->checks;
    mc_dfs_run_one();
    if (mc_me->checks != before) {
      mc_me->execs++; mine++;
      if (s < MC_SAMPLES && mine >= want) {
        mc_me->sample_n[s] = mc_me->nchoice;
        memcpy(mc_me->sample[s], mc_me->choice, sizeof(int) * mc_me->nchoice);
        s++; want = want * 97;
      }
    }
    int i = mc_me->nchoice - 1;
    while (i >= 0 && mc_me->choice[i] + 1 >= mc_me->arity[i]) i--;
    if (i < 0) break;
    memcpy(mc_prefix, mc_me->choice, sizeof(int) * (i + 1));
    memcpy(mc_parity, mc_me->arity, sizeof(int) * (i + 1));
    mc_prefix[i]++;
    mc_plen = i + 1;
  }
}

/* -- BFS ------------------------------------------------------------------ */

static int mc_bfs_same(uint32_t r, const uint8_t *d, size_t n) {
  return mc_recs[r].len == n && !memcmp(mc_arena + mc_recs[r].off, d, n);
}
static void mc_bfs_add(const uint8_t *d, size_t n, uint32_t parent, int op,
    int depth, int init) {
  uint64_t h = mc_hash(d, n, 7), m = (1ull << MC_HASH_BITS) - 1;
  uint32_t mine = UINT32_MAX;
  for (uint64_t i = h & m;; i = (i + 1) & m) {
    uint32_t v = mc_bfs_tab[i];
    if (v && mc_bfs_same(v - 1, d, n)) {
      if (mine != UINT32_MAX) mc_recs[mine].dead = 1;
      return;
    }
    if (v) continue;
    if (mine == UINT32_MAX) {
      mine = __sync_fetch_and_add(&mc_sh->nrec, 1);
      if (mine >= MC_MAXREC) { fprintf(stderr, "mc: state table full\n"); _exit(3); }
      uint64_t off = __sync_fetch_and_add(&mc_sh->arena_used, (n + 15) & ~15ull);
      if (off + n + 16 > MC_ARENA) { fprintf(stderr, "mc: arena full\n"); _exit(3); }
      memcpy(mc_arena + off, d, n);
      mc_recs[mine] = (mc_rec){ .off = off, .len = n, .parent = parent,
        .op = op, .depth = depth, .init = init };
      __sync_synchronize();
    }
    if (__sync_bool_compare_and_swap(&mc_bfs_tab[i], 0, mine + 1)) {
      __sync_fetch_and_add(&mc_sh->nstates, 1);
      return;
    }
    i = (i - 1) & m;                         /* slot was taken: look again */
  }
}

static void mc_bfs_worker(void) {
  static uint8_t out[1 << 17];
  for (int depth = 0; depth < mc_cur->depth; depth++) {
    uint32_t hi = mc_sh->hi;
    for (;;) {
      if (mc_sh->stop) _exit(5);
      if (mc_deadline && mc_now() > mc_deadline) { mc_sh->capped = 1; break; }
      uint32_t i = __sync_fetch_and_add(&mc_sh->next, 1);
      if (i >= hi) break;
      mc_rec r = mc_recs[i];
      if (r.dead) continue;
      uint8_t *copy = malloc(r.len ? r.len : 1);
      memcpy(copy, mc_arena + r.off, r.len);
      for (int op = 0; op < mc_cur->ops; op++) {
        size_t n = 0;
        mc_me->bfs_state = i; mc_me->bfs_op = op; mc_me->nchoice = 0;
        int e = mc_cur->apply(copy, r.len, op, out, &n);
        if (e) { mc_me->execs++; }
        if (e == 1) mc_bfs_add(out, n, i, op, depth + 1, 0);
        if (e == 2) mc_me->outside++;
      }
      free(copy);
    }
    mc_me->busy = 0;
    if (pthread_barrier_wait(&mc_sh->barrier) == PTHREAD_BARRIER_SERIAL_THREAD) {
      if (!mc_sh->capped) mc_sh->depth_done = depth + 1;
      mc_sh->lo = hi; mc_sh->next = hi; mc_sh->hi = mc_sh->nrec;
    }
    pthread_barrier_wait(&mc_sh->barrier);
    mc_me->busy = 1;
    if (mc_sh->capped || mc_sh->lo >= mc_sh->hi) break;
  }
}

/* -- files ---------------------------------------------------------------- */

static void mc_write_case(const char *path, const mc_scenario *s,
    const int *choice, const int *arity, int n, uint32_t state, int op) {
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); _exit(3); }
  fprintf(f, "%s\n", s->name);
  if (s->kind == MC_DFS) {
    for (int i = 0; i < n; i++)
      fprintf(f, "%d/%d ", choice[i], arity ? arity[i] : 0);
    fprintf(f, "\n");
  } else {
    int path_ops[4096], k = 0;
    if (op >= 0) path_ops[k++] = op;
    while (!mc_recs[state].init && k < 4096) {
      path_ops[k++] = mc_recs[state].op;
      state = mc_recs[state].parent;
    }
    fprintf(f, "%d:", mc_recs[state].op);
    while (k--) fprintf(f, " %d", path_ops[k]);
    fprintf(f, "\n");
  }
  fclose(f);
}

static int mc_replay(const char *path, const mc_scenario *list) {
  FILE *f = fopen(path, "r"); char name[256];
  if (!f) { perror(path); return 3; }
  if (fscanf(f, "%255s", name) != 1) return 3;
  for (mc_cur = list; mc_cur->name; mc_cur++)
    if (!strcmp(mc_cur->name, name)) break;
  if (!mc_cur->name) { fprintf(stderr, "no scenario %s\n", name); return 3; }
  mc_replaying = 1; mc_tracing = 1; mc_me = &mc_sh->slot[0];
  mc_trace("scenario %s (%s)", mc_cur->name, mc_cur->bound ? mc_cur->bound : "");
  if (mc_cur->kind == MC_DFS) {
    int c, a;
    while (fscanf(f, "%d/%d", &c, &a) == 2) {
      mc_prefix[mc_plen] = c; mc_parity[mc_plen++] = a;
    }
    mc_dfs_run_one();
  } else {
    int init, op; static uint8_t cur[1 << 17], out[1 << 17];
    if (fscanf(f, "%d:", &init) != 1) return 3;
    long n = mc_cur->init(init, cur);
    mc_trace("initial state %d: %s", init, mc_hex(cur, n));
    while (fscanf(f, "%d", &op) == 1) {
      uint8_t *copy = malloc(n ? n : 1); size_t m = 0;
      memcpy(copy, cur, n);
      int e = mc_cur->apply(copy, n, op, out, &m);
      free(copy);
      if (e != 1) { mc_trace("(operation %d: %s)", op, e ? "leaves the bound" : "not enabled"); continue; }
      memcpy(cur, out, m); n = m;
      mc_trace("state: %s", mc_hex(cur, n));
    }
  }
  printf("PASSED\n");
  return 0;
}

static void *mc_map(size_t n) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

static int mc_run_scenario(const mc_scenario *s, FILE *json, int first) {
  mc_cur = s;
  double t0 = mc_now();
  mc_sh = mc_map(sizeof *mc_sh);
  mc_states_tab = mc_map(8ull << MC_HASH_BITS);
  mc_outcomes_tab = mc_map(8ull << MC_HASH_BITS);
  pthread_barrierattr_t ba; pthread_barrierattr_init(&ba);
  pthread_barrierattr_setpshared(&ba, PTHREAD_PROCESS_SHARED);
  pthread_barrier_init(&mc_sh->barrier, &ba, mc_nworkers);
  if (s->kind == MC_BFS) {
    mc_bfs_tab = mc_map(4ull << MC_HASH_BITS);
    mc_recs = mc_map(sizeof(mc_rec) * (uint64_t)MC_MAXREC);
    mc_arena = mc_map(MC_ARENA);
    static uint8_t buf[1 << 17];
    for (int i = 0;; i++) {
      long n = s->init(i, buf);
      if (n < 0) break;
      mc_bfs_add(buf, n, 0, i, 0, 1);
    }
    mc_sh->hi = mc_sh->nrec;
  }
  fflush(NULL);
  pid_t pid[MC_WORKERS]; int alive = mc_nworkers, bad = -1, badst = 0;
  for (int w = 0; w < mc_nworkers; w++) {
    if (!(pid[w] = fork())) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      mc_id = w; mc_me = &mc_sh->slot[w];
      char log[512]; snprintf(log, sizeof log, "%s/worker%d.log", mc_outdir, w);
      int fd = open(log, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
      signal(SIGALRM, mc_hang);
      struct itimerval it = { { 5, 0 }, { 5, 0 } };
      setitimer(ITIMER_REAL, &it, NULL);
      mc_me->busy = 1;
      if (s->kind == MC_DFS) mc_dfs_worker(); else mc_bfs_worker();
      mc_me->busy = 0;
      _exit(0);
    }
  }
  while (alive) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    int w; for (w = 0; w < mc_nworkers && pid[w] != p; w++);
    if (w == mc_nworkers) continue;
    alive--; pid[w] = 0;
    if (st && bad < 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 5)) {
      bad = w; badst = st; mc_sh->stop = 1;
      usleep(200000);
      for (int v = 0; v < mc_nworkers; v++) if (pid[v]) kill(pid[v], SIGKILL);
    }
  }
  /* if several workers stopped, prefer one that names a failed check */
  int rc = 0;
  if (bad >= 0) {
    for (int w = 0; w < mc_nworkers; w++)
      if (mc_sh->slot[w].failed && !mc_sh->slot[bad].failed) { bad = w; }
    mc_slot *m = &mc_sh->slot[bad];
    char path[600]; snprintf(path, sizeof path, "%s/violation.case", mc_outdir);
    mc_write_case(path, s, m->choice, m->arity, m->nchoice, m->bfs_state, m->bfs_op);
    printf("STOP scenario=%s worker=%d status=%d %s: %s\n", s->name, bad, badst,
      m->failed ? "check failed" : m->hang ? "hang" : "crash", m->failed ? m->why : "");
    rc = WIFEXITED(badst) && WEXITSTATUS(badst) == 3 && !m->failed ? 3 : 1;
  }
  uint64_t ex = 0, tr = 0, ck = 0, outside = 0;
  for (int w = 0; w < mc_nworkers; w++) {
    ex += mc_sh->slot[w].execs; tr += mc_sh->slot[w].transitions;
    ck += mc_sh->slot[w].checks; outside += mc_sh->slot[w].outside;
  }
  int nsample = 0;
  if (!rc) {
    char path[600];
    if (s->kind == MC_DFS) {
      for (int w = 0; w < mc_nworkers && nsample < MC_SAMPLES; w++) {
        mc_slot *m = &mc_sh->slot[w];
        int k = -1; for (int i = 0; i < MC_SAMPLES; i++) if (m->sample_n[i]) k = i;
        if (k < 0) continue;
        snprintf(path, sizeof path, "%s/sample.%s.%d", mc_outdir, s->name, nsample++);
        mc_write_case(path, s, m->sample[k], NULL, m->sample_n[k], 0, 0);
      }
    } else if (mc_sh->nrec) {
      for (int i = 0; i < MC_SAMPLES; i++) {
        uint32_t r = mc_sh->nrec - 1 - (mc_sh->nrec / 3) * i;
        while (r && mc_recs[r].dead) r--;
        snprintf(path, sizeof path, "%s/sample.%s.%d", mc_outdir, s->name, nsample++);
        mc_write_case(path, s, NULL, NULL, 0, r, -1);
      }
    }
  }
  fprintf(json, "%s{\"name\":\"%s\",\"kind\":\"%s\",\"bound\":\"%s\",\"executions\":%llu,"
    "\"transitions\":%llu,\"checks\":%llu,\"states\":%llu,\"outcomes\":%llu,"
    "\"outside_bound\":%llu,\"depth\":%d,\"capped\":%d,\"table_full\":%d,\"samples\":%d,\"wall_s\":%.2f}",
    first ? "" : ",", s->name, s->kind == MC_DFS ? "stateless" : "explicit-state",
    s->bound ? s->bound : "", (unsigned long long)ex, (unsigned long long)tr,
    (unsigned long long)ck, (unsigned long long)mc_sh->nstates,
    (unsigned long long)mc_sh->noutcomes, (unsigned long long)outside,
    s->kind == MC_BFS ? (int)mc_sh->depth_done : 0,
    mc_sh->capped, (int)mc_sh->overflow, nsample, mc_now() - t0);
  munmap((void *)mc_states_tab, 8ull << MC_HASH_BITS);
  munmap((void *)mc_outcomes_tab, 8ull << MC_HASH_BITS);
  if (s->kind == MC_BFS) {
    munmap((void *)mc_bfs_tab, 4ull << MC_HASH_BITS);
    munmap(mc_recs, sizeof(mc_rec) * (uint64_t)MC_MAXREC);
    munmap(mc_arena, MC_ARENA);
  }
  return rc;
}

/* usage: driver --out DIR [--workers N] [--deadline S] [--thorough]
          [--only NAME] | --replay FILE */
__attribute__((unused))
static int mc_main(int argc, char **argv, void (*setup)(int thorough),
    mc_scenario *list) {
  const char *replay = NULL, *only = NULL; double dl = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--out")) mc_outdir = argv[++i];
    else if (!strcmp(argv[i], "--workers")) mc_nworkers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--deadline")) dl = atof(argv[++i]);
    else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
    else if (!strcmp(argv[i], "--only")) only = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
  }
  if (mc_nworkers < 1 || mc_nworkers > MC_WORKERS) mc_nworkers = 8;
  mc_sh = mc_map(sizeof *mc_sh);
  mc_states_tab = mc_map(8ull << MC_HASH_BITS);
  mc_outcomes_tab = mc_map(8ull << MC_HASH_BITS);
  mc_me = &mc_sh->slot[0];
  if (setup) setup(mc_thorough);
  if (replay) return mc_replay(replay, list);
  if (dl) mc_deadline = mc_now() + dl;
  char path[600]; snprintf(path, sizeof path, "%s/result.json", mc_outdir);
  FILE *json = fopen(path, "w");
  if (!json) { perror(path); return 3; }
  fprintf(json, "{\"scenarios\":[");
  int rc = 0, first = 1;
  for (mc_scenario *s = list; s->name && !rc; s++) {
    if (only) {                             /* comma separated names */
      size_t k = strlen(s->name); int found = 0;
      for (const char *o = only; *o; o = strchr(o, ',') ? strchr(o, ',') + 1 : o + strlen(o))
        if (!strncmp(o, s->name, k) && (!o[k] || o[k] == ',')) found = 1;
      if (!found) continue;
    }
    rc = mc_run_scenario(s, json, first); first = 0;
  }
  fprintf(json, "],\"rc\":%d}\n", rc);
  fclose(json);
  return rc;
}

/* -- helpers -------------------------------------------------------------- */

/* Reports a listed finding; an unlisted one makes the check fail (run.py) */
__attribute__((unused)) static void mc_known(const char *id) {
  static const char *said[8];                            /* once per process */
  for (int i = 0; i < 8; i++) {
    if (said[i] && !strcmp(said[i], id)) return;
    if (!said[i]) { said[i] = id; break; }
  }
  if (!mc_replaying) dprintf(1, "KNOWN %s\n", id);
}

/* An exactly sized heap copy, so that any access beyond it is caught */
__attribute__((unused)) static void *mc_exact(const void *data, size_t n) {
  void *p = malloc(n ? n : 1);
  if (n) memcpy(p, data, n);
  return p;
}

#endif
