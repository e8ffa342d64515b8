/*
 * The chunk allocator (P20): every sequence of allocate, resize and free up to
 * the bound, with every request to the system allocator failing, then the
 * library working on top of it. Compiled with malloc & co. renamed in the
 * library, so every block taken from the system is known.
 */
#include "mc.h"
#include "schema.h"
#include <protobluff/util/chunk_allocator.h>

#define SYS 1024
static size_t sys_limit = (size_t)-1;                /* what the system can give at most */
static struct { void *p; size_t n; } sys[SYS]; static int live, requests, fail_at = -1, fail_n, failed;
static int sys_due(void) {
  int k = requests++;
  if (fail_at >= 0 && k >= fail_at && k < fail_at + fail_n) { failed++; return 1; }
  return 0;
}
static int sys_find(void *p) { for (int i = 0; i < SYS; i++) if (sys[i].p == p) return i; return -1; }
void *mc_malloc(size_t n) {
  if (sys_due()) return NULL;
  if (n > sys_limit) { failed++; return NULL; }
  int i = sys_find(NULL);
  if (i < 0) { fprintf(stderr, "too many blocks\n"); _exit(3); }
  sys[i].p = malloc(n ? n : 1); sys[i].n = n; live++;
  memset(sys[i].p, 0xA5, n);
  return sys[i].p;
}
void mc_free(void *p) {
  if (!p) return;
  int i = sys_find(p);
  mc_check(i >= 0, "free() of something malloc() did not return, or twice");
  free(p); sys[i].p = NULL; live--;
}
void *mc_realloc(void *p, size_t n) {
  if (!p) return mc_malloc(n);
  int i = sys_find(p);
  mc_check(i >= 0, "realloc() of something malloc() did not return, or freed");
  if (sys_due()) return NULL;
  if (n > sys_limit) { failed++; return NULL; }
  void *q = malloc(n ? n : 1); memset(q, 0xA5, n);
  memcpy(q, p, n < sys[i].n ? n : sys[i].n);
  free(p); sys[i].p = q; sys[i].n = n;
  return q;
}
void *mc_calloc(size_t a, size_t b) { void *p = mc_malloc(a * b); if (p) memset(p, 0, a * b); return p; }

static void reset(void) { memset(sys, 0, sizeof sys); live = requests = failed = 0; fail_at = -1; }

static int depth = 5, nblk = 3;
typedef struct { uint8_t *p; size_t n, min; uint8_t seed; } blk;

static void fillb(blk *b) { for (size_t i = 0; i < b->n; i++) b->p[i] = b->seed + i * 7; }
static void intact(blk *b, size_t n, const char *when) {
  for (size_t i = 0; i < n; i++)
    mc_check(b->p[i] == (uint8_t)(b->seed + i * 7), "%s: byte %zu of a block of %zu bytes has changed", when, i, b->n);
}
static void ops(void) {
  static const size_t caps[] = { 1, 2, 8, 13 };
  size_t cap = caps[mc_choose(4)];
  int fault = mc_choose(8) - 1;
  /* the first two operations are drawn before claiming */
  if (!mc_shard()) return;
  reset();
  if (fault >= 0) { fail_at = fault; fail_n = 1; }
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap); mc_step();
  mc_check(a.proc.allocate && a.proc.resize && a.proc.free, "no callbacks");
  mc_trace("capacity %zu, request %d fails", cap, fault);
  int dead = failed;                                  /* without its base */
  blk b[4]; memset(b, 0, sizeof b); uint8_t seed = 1;
  for (int d = 0; d < depth; d++) {
    static const int rel[] = { 1, 0, 1, 2, 3 };
    int k = mc_choose(1 + nblk * 6);
    if (!k) break;
    int i = (k - 1) / 6, what = (k - 1) % 6;
    size_t n = what == 1 ? 1 : what == 2 ? cap : what == 3 ? cap + 1 : what == 4 ? 2 * cap : 3 * cap + 2; (void)rel;
    int before = requests, bf = failed;
    if (!what) {
      if (!b[i].p) { mc_me->checks++; break; }
      mc_trace("free block %d", i);
      int lb = live;
      pb_allocator_free(&a, b[i].p); mc_step();
      mc_check(requests == before, "freeing a block allocates");
      mc_check(live < lb, "freeing a block gives no memory back");
      b[i].p = NULL; b[i].n = 0;
    } else if (!b[i].p) {
      if (i && !b[i - 1].p && !b[i - 1].seed) { mc_me->checks++; break; }  /* symmetric */
      int alloc = what & 1;
      mc_trace("%s block %d with %zu bytes", alloc ? "allocate" : "resize null to", i, n);
      uint8_t *p = alloc ? pb_allocator_allocate(&a, n) : pb_allocator_resize(&a, NULL, n); mc_step();
      mc_check(!!p == (failed == bf && !dead), "allocation returns %p, system allocator %s", (void *)p, failed == bf ? "worked" : "failed");
      if (p) {
        mc_check(!((uintptr_t)p & 7), "block is not aligned");
        b[i] = (blk){ p, n, n > cap ? n : cap, seed += 37 }; fillb(&b[i]);
      }
    } else {
      mc_trace("resize block %d from %zu to %zu bytes", i, b[i].n, n);
      uint8_t *p = pb_allocator_resize(&a, b[i].p, n); mc_step();
      mc_check(!!p == (failed == bf), "resize from %zu to %zu returns %p, system allocator %s", b[i].n, n, (void *)p, failed == bf ? "worked" : "failed");
      if (n <= b[i].min) mc_check(p == b[i].p && requests == before, "a block moves although %zu bytes fit its chunk of at least %zu", n, b[i].min);
      if (p) {
        b[i].p = p;
        intact(&b[i], n < b[i].n ? n : b[i].n, "after resize");
        b[i].n = n; if (n > b[i].min) b[i].min = n;
        fillb(&b[i]);
      }
    }
    for (int x = 0; x < nblk; x++) if (b[x].p) intact(&b[x], b[x].n, "later");
  }
  mc_state(mc_hash(b, sizeof b[0].n, requests) + live * 131 + failed);
  mc_outcome(live * 64 + failed * 8 + (requests > 3));
  pb_chunk_allocator_destroy(&a); mc_step();
  mc_check(!live, "%d blocks are left after destroying the allocator", live);
}

/* encoders, buffers and messages sharing one chunk allocator */
static void shared(void) {
  static const size_t caps[] = { 1, 3, 16, 4096 };
  size_t cap = caps[mc_choose(4)];
  int op[4]; for (int i = 0; i < 4; i++) op[i] = mc_choose(9);
  int order = mc_choose(3);
  if (!mc_shard()) return;
  reset(); dom_reset();
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap);
  pb_journal_t j[2] = { pb_journal_create_empty_with_allocator(&a), pb_journal_create_with_allocator(&a, (uint8_t *)"\x08\x05", 2) };
  pb_journal_t r[2] = { pb_journal_create_empty(), pb_journal_create((uint8_t *)"\x08\x05", 2) };
  pb_message_t m[2], s[2];
  for (int i = 0; i < 2; i++) { m[i] = pb_message_create(&sc_desc, &j[i]); s[i] = pb_message_create(&sc_desc, &r[i]); }
  pb_encoder_t e = pb_encoder_create_with_allocator(&a, &sc_desc), f = pb_encoder_create(&sc_desc);
  static const uint32_t v[20] = { 1, 200, 70000 };
  pb_string_t str = { (uint8_t *)"a string of some length", 23 };
  for (int i = 0; i < 4; i++) {
    mc_trace("operation %d", op[i]);
    int x = op[i] & 1; pb_error_t p = 0, q = 0;
    switch (op[i] >> 1) {
      case 0: p = pb_message_put(&m[x], T_STR, &str); q = pb_message_put(&s[x], T_STR, &str); break;
      case 1: p = pb_message_put(&m[x], T_PACK, &v[1]); q = pb_message_put(&s[x], T_PACK, &v[1]); break;
      case 2: p = pb_message_erase(&m[x], T_STR); q = pb_message_erase(&s[x], T_STR); break;
      case 3: p = pb_encoder_encode(&e, x ? T_STR : T_PACK, x ? (void *)&str : v, x ? 1 : 20);
              q = pb_encoder_encode(&f, x ? T_STR : T_PACK, x ? (void *)&str : v, x ? 1 : 20); break;
      case 4: p = pb_message_put(&m[1], T_SUB, &m[0]); q = pb_message_put(&s[1], T_SUB, &s[0]); break;
    }
    mc_step();
    mc_check(p == q, "error %d with the chunk allocator, %d without", p, q);
    for (int k = 0; k < 2; k++)
      mc_check(sc_size(&j[k]) == sc_size(&r[k]) && (!sc_size(&r[k]) || !memcmp(sc_data(&j[k]), sc_data(&r[k]), sc_size(&r[k]))),
        "message %d is %s with the chunk allocator, %s without", k, mc_hex(sc_data(&j[k]), sc_size(&j[k])), mc_hex(sc_data(&r[k]), sc_size(&r[k])));
    const pb_buffer_t *y = pb_encoder_buffer(&e), *z = pb_encoder_buffer(&f);
    mc_check(pb_buffer_size(y) == pb_buffer_size(z) && (!pb_buffer_size(z) || !memcmp(pb_buffer_data(y), pb_buffer_data(z), pb_buffer_size(z))), "encoders differ");
    mc_state(mc_hash(sc_data(&r[1]), sc_size(&r[1]), 5 + i));
  }
  for (int i = 0; i < 2; i++) { pb_message_destroy(&s[i]); pb_journal_destroy(&r[i]); }
  pb_encoder_destroy(&f);
  if (order != 0) { pb_message_destroy(&m[0]); pb_journal_destroy(&j[0]); }
  if (order == 2) { pb_encoder_destroy(&e); pb_message_destroy(&m[1]); pb_journal_destroy(&j[1]); }
  pb_chunk_allocator_destroy(&a);                     /* frees what is left */
  mc_check(!live, "%d blocks are left after destroying the allocator", live);
}

/* sizes from one byte to more than there is: what is handed out can be used in full */
static void patt(uint8_t *p, size_t n, uint8_t s) {
  for (size_t i = 0; i < n; i++) p[i] = s + i * 7 + (i >> 8) * 3;
}
static int pattok(uint8_t *p, size_t n, uint8_t s) {
  for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)(s + i * 7 + (i >> 8) * 3)) return 0;
  return 1;
}
static int nsz; static size_t szs[128];
static const size_t scaps[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536 };
static void sizes_of(size_t cap) {
  nsz = 0;
  size_t c = cap ? cap : 4096;
  for (int k = 1; k <= 9; k += k == 4 ? 4 : 1) for (int d = -1; d <= 1; d++) if (c * k + d) szs[nsz++] = c * k + d;
  for (size_t b = 1; b <= 65536; b *= 4) szs[nsz++] = b, szs[nsz++] = b + 1;
  /* too much for any system: the sum with the header, or the rounding up, does not fit */
  for (size_t d = 0; d < 5; d++) szs[nsz++] = (size_t)-1 - d * c, szs[nsz++] = (size_t)-1 - d * 8;
  szs[nsz++] = (size_t)-1 / c * c; szs[nsz++] = (size_t)-1 / c * c - 1; szs[nsz++] = (size_t)-16 / c * c - 1;
  szs[nsz++] = (size_t)-1 / 2; szs[nsz++] = (size_t)-1 / 2 + 2; szs[nsz++] = (size_t)1 << 40;
}
static void sizes(void) {
  size_t cap = scaps[mc_choose(sizeof scaps / sizeof *scaps)];
  sizes_of(cap);
  size_t n = szs[mc_choose(nsz)];
  if (!mc_shard()) return;
  for (int k = 0; k < nsz; k++) {
    size_t m = szs[k];
    reset(); sys_limit = 1 << 24;
    pb_allocator_t a = cap ? pb_chunk_allocator_create_with_capacity(cap) : pb_chunk_allocator_create(); mc_step();
    uint8_t *x = pb_allocator_allocate(&a, 5), *p, *q, *y;
    mc_check(x, "no first block"); patt(x, 5, 3);
    mc_trace("capacity %zu: allocate %zu, resize to %zu", cap, n, m);
    p = pb_allocator_allocate(&a, n); mc_step();
    mc_check(!!p == (n < 1 << 22), "allocating %zu bytes returns %p", n, (void *)p);
    y = pb_allocator_allocate(&a, 3); mc_step(); mc_check(y, "no last block"); patt(y, 3, 9);
    if (p) {
      mc_check(!((uintptr_t)p & 7), "block is not aligned");
      patt(p, n, 1);
      q = pb_allocator_resize(&a, p, m); mc_step();
      mc_check(!!q == (m < 1 << 22), "resizing %zu to %zu bytes returns %p", n, m, (void *)q);
      mc_check(pattok(q ? q : p, q && m < n ? m : n, 1), "resizing %zu to %zu bytes changes the block", n, m);
      if (q) patt(p = q, m, 77);
      mc_check(pattok(x, 5, 3) && pattok(y, 3, 9), "resizing %zu to %zu bytes changes another block", n, m);
    }
    if (p && (k & 1)) { int l = live; pb_allocator_free(&a, p); mc_step(); mc_check(live < l && pattok(x, 5, 3) && pattok(y, 3, 9), "freeing a block of %zu bytes", m); }
    mc_state(live * 31 + k + n * 977 + cap * 7919);
    pb_chunk_allocator_destroy(&a); mc_step();
    mc_check(!live, "%d blocks are left after destroying the allocator", live);
  }
  sys_limit = (size_t)-1;
  mc_outcome(cap);
}

/* up to 300 blocks at a time, given back in every of several orders */
static void many(void) {
  static const int ns[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
  int n = ns[mc_choose(sizeof ns / sizeof *ns)], order = mc_choose(6), grow = mc_choose(4), cap = 1 << mc_choose(3) * 4;
  if (!mc_shard()) return;
  reset();
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap);
  uint8_t *p[300]; size_t z[300]; char in[300];
  for (int i = 0; i < n; i++) {
    p[i] = pb_allocator_allocate(&a, z[i] = 1 + i % 40); mc_step(); in[i] = 1;
    mc_check(p[i], "block %d of %d", i, n); patt(p[i], z[i], i);
  }
  for (int g = 0; g < n && grow; g++) {               /* every block, the first, or the last grows */
    int i = grow == 1 ? (g * 7 % n) : grow == 2 ? 0 : n - 1;
    size_t m = z[i] + (grow == 1 ? 300 : 13);
    uint8_t *q = pb_allocator_resize(&a, p[i], m); mc_step();
    mc_check(q && pattok(q, z[i], i), "growing block %d of %d from %zu to %zu bytes", i, n, z[i], m);
    patt(p[i] = q, z[i] = m, i);
  }
  for (int i = 0; i < n; i++) for (int k = 0; k < i; k++)
    mc_check(p[k] + z[k] <= p[i] || p[i] + z[i] <= p[k], "blocks %d and %d of %d overlap", k, i, n);
  int left = n;
  for (int k = 0; k < n; k++) {
    int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 2 < n ? k * 2 : (k - (n + 1) / 2) * 2 + 1) : order == 3 ? (k & 1 ? n / 2 + (k + 1) / 2 : n / 2 - k / 2) : order == 4 ? k : 0;
    if (order == 5 || i < 0 || i >= n || !in[i]) continue;
    if (order == 4 && k % 3 == 0) continue;           /* some stay */
    int l = live;
    pb_allocator_free(&a, p[i]); mc_step(); in[i] = 0; left--;
    mc_check(live < l, "%d blocks of %d left, none given back", left, n);
    if (k % 16 == 3 || left < 4) for (int x = 0; x < n; x++) if (in[x]) mc_check(pattok(p[x], z[x], x), "block %d changes as block %d of %d is freed", x, i, n);
  }
  uint8_t *w = pb_allocator_allocate(&a, 50); mc_step(); mc_check(w, "no block after freeing"); patt(w, 50, 1);
  for (int x = 0; x < n; x++) if (in[x]) mc_check(pattok(p[x], z[x], x), "block %d changes", x);
  mc_state(n * 131 + order * 17 + grow + cap * 7); mc_outcome(left);
  pb_chunk_allocator_destroy(&a); mc_step();
  mc_check(!live, "%d blocks are left after destroying the allocator", live);
}

static void setup(int thorough) { sc_setup(); if (thorough) { depth = 6; } }
int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "ops", MC_DFS, ops, .bound = "4 capacities, every sequence of up to 5 (thorough: 6) allocations, resizes and frees on 3 blocks, each of the first 7 system allocations failing" },
    { "shared", MC_DFS, shared, .bound = "two messages and an encoder on one allocator, 4 capacities, every sequence of 4 of 9 operations, 3 ways to tear down" },
    { "sizes", MC_DFS, sizes, .bound = "31 capacities (one the default), every pair of 47 sizes (around multiples of the capacity and powers of four up to 64 KiB, and beyond what fits an address space): allocate one, resize to the other, between two other blocks" },
    { "many", MC_DFS, many, .bound = "24 numbers of blocks up to 300, 3 capacities, 4 ways to grow them, 6 orders to give them back" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
