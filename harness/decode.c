/*
 * Decoder and validator on bytes: arbitrary (P02, P05), well-formed (P04) and
 * trees with required fields (P07). Built with -DORACLE to compare what is
 * delivered with the reference reading; without it only memory safety,
 * termination and determinism are judged (by the address sanitizer, the engine
 * and a second run).
 */
#include <sys/resource.h>
#include "wire.h"

#ifndef ORACLE
#define ORACLE 1
#endif

static pb_descriptor_t *all, *allx;
static pb_descriptor_t req, leaf, reqx;
static wi_list exp_;

static void setup(int thorough) {
  (void)thorough;
  static ref_fd fd[64]; int n = 0;
  all = calloc(1, sizeof *all); allx = calloc(1, sizeof *allx);
  for (int t = 1; t <= NTYPES; t++)
    fd[n++] = (ref_fd){ .tag = t, .type = t, .label = PB_LABEL_OPTIONAL,
      .refer = t == PB_TYPE_MESSAGE ? (void *)all : t == PB_TYPE_ENUM ? (void *)&ref_enum : NULL };
  for (int t = 1; t <= NTYPES; t++)
    fd[n++] = (ref_fd){ .tag = 20 + t, .type = t, .label = PB_LABEL_REPEATED, .packed = t <= 14 && t % 2,
      .refer = t == PB_TYPE_MESSAGE ? (void *)all : t == PB_TYPE_ENUM ? (void *)&ref_enum : NULL };
  fd[n++] = (ref_fd){ .tag = (1 << 29) - 1, .type = PB_TYPE_UINT32, .label = PB_LABEL_OPTIONAL };
  pb_field_descriptor_t *f = calloc(n, sizeof *f), *x = calloc(1, sizeof *x);
  for (int i = 0; i < n; i++) ref_field_init(&f[i], fd[i]);
  ref_field_init(x, (ref_fd){ .tag = 1000, .type = PB_TYPE_SINT32, .label = PB_LABEL_OPTIONAL });
  ref_descriptor_init(allx, x, 1, NULL);
  ref_descriptor_init(all, f, n, allx);

  static ref_fd r[] = {
    { 1, PB_TYPE_UINT32, PB_LABEL_REQUIRED },
    { 2, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &req },
    { 3, PB_TYPE_MESSAGE, PB_LABEL_REPEATED, 0, &req },
    { 4, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &leaf },
    { 5, PB_TYPE_STRING, PB_LABEL_REQUIRED },
    { 6, PB_TYPE_UINT32, PB_LABEL_REPEATED, 1 } };
  static pb_field_descriptor_t rf[6], lf[1], xf[2];
  for (int i = 0; i < 6; i++) ref_field_init(&rf[i], r[i]);
  ref_field_init(&lf[0], (ref_fd){ 1, PB_TYPE_UINT32, PB_LABEL_OPTIONAL });
  ref_field_init(&xf[0], (ref_fd){ 10, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &req });
  ref_field_init(&xf[1], (ref_fd){ 11, PB_TYPE_UINT32, PB_LABEL_OPTIONAL });
  ref_descriptor_init(&reqx, xf, 2, NULL);
  ref_descriptor_init(&req, rf, 6, &reqx);
  ref_descriptor_init(&leaf, lf, 1, NULL);
}

/* -- one input ------------------------------------------------------------- */

enum { V_ERR = -1, V_ANY = 0, V_OK = 1 };
static void input(const pb_descriptor_t *desc, const uint8_t *in, size_t n) {
  uint8_t *d = mc_exact(in, n);
  mc_trace("input %s", mc_hex(in, n));
  int end = wi_expect(desc, d, n, &exp_);
  pb_buffer_t b = pb_buffer_create_zero_copy(d, n);
  pb_error_t e = PB_ERROR_NONE, v = PB_ERROR_NONE;
  wi_obs o = { .l = &exp_, .stop_at = -1, .lo = d, .hi = d + n };
  if (n) {
    pb_decoder_t dec = pb_decoder_create(desc, &b);
    e = pb_decoder_decode(&dec, wi_handler, &o); mc_step();
    pb_decoder_destroy(&dec);
    pb_validator_t val = pb_validator_create(desc);
    v = pb_validator_check(&val, &b); mc_step();
    pb_validator_destroy(&val);
  }
  mc_me->checks++;
  uint64_t obs[3] = { e, v, o.n };
  mc_outcome(mc_hash(obs, sizeof obs, 3));
  mc_check(!n || !memcmp(d, in, n), "decoding changed the input");
#if ORACLE
  mc_check(!o.bad, "%s: %s", mc_hex(in, n), o.why);
  if (end == W_GOOD) {
    mc_check(!e && o.n == exp_.n, "%s: decoding ends with error %d after %d of %d values", mc_hex(in, n), e, o.n, exp_.n);
    if (n) {
      int full = wi_complete(desc, d, n);
      mc_check(full ? !v : v == PB_ERROR_ABSENT, "%s: validator returns %d, the message is %s", mc_hex(in, n), v,
        full ? "complete" : "well-formed, but lacks a required field");
    }
  } else if (end == W_BAD) {
    mc_check(e, "%s: malformed, but decoding reports no error (%d values)", mc_hex(in, n), o.n);
    mc_check(v, "%s: malformed, but the validator accepts it", mc_hex(in, n));
  } else if (end == W_LOOSE) {
    mc_check(e || o.n == exp_.n, "%s: decoding ends without error after %d of %d values", mc_hex(in, n), o.n, exp_.n);
  }
#else
  if (o.bad && strstr(o.why, "outside")) mc_fail("%s: %s", mc_hex(in, n), o.why);
#endif
  if (n < 40) mc_state(mc_hash(in, n, 11));
  pb_buffer_destroy(&b);
  free(d);
}

/* every byte string of up to three bytes; the last position loops inside */
static void bytes3(void) {
  int a = mc_choose(257), c = a ? mc_choose(257) : 0;
  if (!mc_shard()) return;
  uint8_t d[8] = { 0 };
  if (!a) { input(all, d, 0); return; }
  d[0] = a - 1;
  if (!c) { input(all, d, 1); return; }
  d[1] = c - 1; input(all, d, 2);
  for (int x = 0; x < 256; x++) { d[2] = x; input(all, d, 3); mc_me->execs++; }
}
/* every byte string up to the bound over an alphabet with one byte per branch */
static void alpha(void) {
  static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x04, 0x08, 0x0d, 0x10, 0x11, 0x7f, 0x80, 0xff, 0x82, 0x8a, 0xaa, 0x0a, 0xa0 };
  enum { K = sizeof al };
  int len = 4 + mc_choose(mc_thorough ? 4 : 3); uint8_t d[16];
  for (int i = 0; i < len - 2; i++) {
    d[i] = al[mc_choose(K)];
    if (i == 3 || i == len - 3) if (!(i == 3 && len - 3 > 3) && !mc_shard()) return;
  }
  for (int x = 0; x < K; x++) for (int y = 0; y < K; y++) {
    d[len - 2] = al[x]; d[len - 1] = al[y];
    input(all, d, len); mc_me->execs++;
  }
}

/* -- structured inputs ------------------------------------------------------ */

typedef struct { int n; uint8_t d[80]; } part;
static part parts[160]; static int npart, nbase;
static void add(const uint8_t *d, int n) { parts[npart].n = n; memcpy(parts[npart++].d, d, n); }
static void mkparts(void) {
  if (npart) return;
  uint8_t b[80]; int n;
  static const uint64_t vals[] = { 0, 1, 127, 128, 0x80000000u, 0xffffffffu, ~0ull };
  for (int rep = 0; rep < 2; rep++)
    for (int t = 1; t <= 14; t++) {
      int wt = ref_wiretype(t);
      uint64_t v = vals[(t * 3 + rep) % 7]; uint8_t m[8]; memcpy(m, &v, 8);
      if (t == PB_TYPE_BOOL) m[0] &= 1;
      n = ref_tag(b, t + 20 * rep, wt); n += ref_scalar(t, m, b + n); add(b, n);
      /* packed: none, two values */
      if (rep) {
        n = ref_tag(b, t + 20, 2); b[n++] = 0; add(b, n);
        uint8_t c[40]; int k = ref_scalar(t, m, c); v = 1; memcpy(m, &v, 8); k += ref_scalar(t, m, c + k);
        n = ref_tag(b, t + 20, 2); b[n++] = k; memcpy(b + n, c, k); add(b, n + k);
      }
    }
  for (int rep = 0; rep < 2; rep++)
    for (int t = 15; t <= 17; t++) {
      n = ref_tag(b, t + 20 * rep, 2); b[n++] = 0; add(b, n);
      n = ref_tag(b, t + 20 * rep, 2); b[n++] = 2; b[n++] = 0x18; b[n++] = 0x05; add(b, n);
    }
  /* nested twice, with a packed field inside */
  static const uint8_t deep[] = { 0x8a, 0x01, 0x0b, 0xaa, 0x02, 0x03, 0xba, 0x01, 0x00, 0xba, 0x01, 0x02, 0x05, 0x07 };
  add(deep, sizeof deep);
  static const uint8_t unk[][12] = { { 3, 0xf0, 0x2e, 0x01 }, { 10, 0xf1, 0x2e, 1, 2, 3, 4, 5, 6, 7, 8 },
    { 5, 0xf2, 0x2e, 2, 0x08, 0x01 }, { 6, 0xf5, 0x2e, 1, 2, 3, 4 }, { 3, 0xf2, 0x2e, 0 },
    { 6, 0xf8, 0xff, 0xff, 0xff, 0x0f, 0x01 }, { 3, 0xc0, 0x3e, 0x03 } };
  for (size_t i = 0; i < sizeof unk / sizeof *unk; i++) add(unk[i] + 1, unk[i][0]);
  nbase = npart;
}
/* all sequences of records: the exact values, in order, once; a handler error
   at any position ends it with that error */
static void events(void) {
  mkparts();
  uint8_t in[400]; size_t n = 0;
  int len = mc_choose(3) + 1;
  if (!mc_thorough && len == 3) {               /* third record from a quarter */
    for (int i = 0; i < 2; i++) { part *p = &parts[mc_choose(npart)]; memcpy(in + n, p->d, p->n); n += p->n; }
    if (!mc_shard()) return;
    part *p = &parts[mc_choose((npart + 3) / 4) * 4]; memcpy(in + n, p->d, p->n); n += p->n;
  } else for (int i = 0; i < len; i++) {
    part *p = &parts[mc_choose(npart)]; memcpy(in + n, p->d, p->n); n += p->n;
    if (i == (len > 1)) { if (!mc_shard()) return; }
  }
  uint8_t *d = mc_exact(in, n);
  mc_trace("message %s", mc_hex(d, n));
  int end = wi_expect(all, d, n, &exp_);
  if (end != W_GOOD) { fprintf(stderr, "not well-formed: %s\n", mc_hex(d, n)); _exit(3); }
  for (int stop = -1; stop < exp_.n; stop++) {
    if (stop >= 0 && len > 2 && !mc_thorough) break;
    wi_obs o = { .l = &exp_, .stop_at = stop, .lo = d, .hi = d + n };
    pb_buffer_t b = stop & 1 ? pb_buffer_create(d, n) : pb_buffer_create_zero_copy(d, n);
    if (stop & 1) { o.lo = pb_buffer_data(&b); o.hi = o.lo + n; }
    pb_decoder_t dec = pb_decoder_create(all, &b);
    pb_error_t e = pb_decoder_decode(&dec, wi_handler, &o); mc_step();
    mc_check(!o.bad, "%s: %s", mc_hex(in, n), o.why);
    if (stop < 0) mc_check(!e && o.n == exp_.n, "%s: decoding ends with error %d after %d of %d values", mc_hex(in, n), e, o.n, exp_.n);
    else mc_check(e == PB_ERROR_EOM && o.n == stop + 1, "%s: handler error at value %d: decoding returns %d after %d values", mc_hex(in, n), stop, e, o.n);
    pb_decoder_destroy(&dec); pb_buffer_destroy(&b);
  }
  mc_trace("%d values delivered", exp_.n);
  uint64_t h = 5; for (int i = 0; i < exp_.n; i++) h = mc_mix(h ^ exp_.e[i].tag ^ exp_.e[i].val << 9 ^ (uint64_t)exp_.e[i].depth << 40);
  mc_outcome(h); mc_state(mc_hash(in, n, 11));
  free(d);
}
/* each well-formed sequence, cut off at every position or with one byte changed
   to every other value */
static void mutate(void) {
  mkparts();
  uint8_t in[400]; size_t n = 0;
  int len = 1 + mc_choose(2);
  for (int i = 0; i < len; i++) { part *p = &parts[mc_choose(npart)]; memcpy(in + n, p->d, p->n); n += p->n; }
  if (!mc_shard()) return;
  for (size_t cut = 0; cut < n; cut++) { input(all, in, cut); mc_me->execs++; }
  if (len == 1 || mc_thorough) {
    for (size_t at = 0; at < n; at++) {
      uint8_t old = in[at];
      for (int x = 0; x < 256; x++) { in[at] = x; input(all, in, n); mc_me->execs++; }
      in[at] = old;
    }
    for (size_t at = 0; at < n; at++) for (size_t at2 = at + 1; len == 1 && at2 < n; at2++) {
      static const uint8_t odd[] = { 0, 1, 0x7f, 0x80, 0xff, 2 };
      uint8_t o1 = in[at], o2 = in[at2];
      for (int x = 0; x < 36; x++) { in[at] = odd[x % 6]; in[at2] = odd[x / 6]; input(all, in, n); mc_me->execs++; }
      in[at] = o1; in[at2] = o2;
    }
  } else
    for (size_t at = 0; at < n; at++) {
      static const uint8_t odd[] = { 0, 1, 0x7f, 0x80, 0xff, 2, 0x8a, 0xba };
      uint8_t old = in[at];
      for (int x = 0; x < 8; x++) { in[at] = odd[x]; input(all, in, n); mc_me->execs++; }
      in[at] = old;
    }
}
/* integers of every length and fill, per type: what fits is read, the rest is
   reported */
static void ints(void) {
  static const uint8_t first[] = { 0x80, 0x81, 0xff, 0xfe }, mid[] = { 0x80, 0xff, 0x81, 0xf8, 0x8f, 0x90 }, last[] = { 0, 1, 2, 0x07, 0x08, 0x0f, 0x10, 0x7f, 0x7e };
  static const uint8_t lens[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18 };
  int t = 1 + mc_choose(14), form = mc_choose(t == 3 ? 8 : 3), len = lens[mc_choose(sizeof lens)];
  if (ref_wiretype(t) || (form < 3 && len > 12)) { mc_shard(); return; }
  uint8_t in[60]; int n;
  switch (form) {
    case 0: n = ref_tag(in, t, 0); break;
    case 1: n = ref_tag(in, 20 + t, 0); break;
    case 2: n = ref_tag(in, 20 + t, 2); in[n++] = len; break;
    case 3: n = ref_tag(in, 999, 0); break;                  /* an unknown field */
    case 4: n = 0; break;                                    /* a tag */
    case 5: n = ref_tag(in, 15, 2); break;                   /* the length of a string */
    case 6: n = ref_tag(in, 999, 2); break;                  /* the length of an unknown field */
    default: n = ref_tag(in, 23, 2);                         /* the length of packed values */
  }
  if (len > 1) { in[n++] = first[mc_choose(4)]; }
  int m1 = mc_choose(6), m2 = mc_choose(6), split = len > 2 ? mc_choose(len - 1) : 0;
  if (!mc_shard()) return;
  for (int i = 1; i < len - 1; i++) in[n++] = mid[i - 1 < split ? m1 : m2];
  n++;
  for (int x = 0; x < 9; x++) { in[n - 1] = last[x]; input(all, in, n); mc_me->execs++;
    /* followed by another field */
    int k = ref_tag(in + n, 2, 0); in[n + k] = 3; input(all, in, n + k + 1); mc_me->execs++; }
}

/* -- required fields (P07) --------------------------------------------------- */

static int budget;
static int tree(uint8_t *out, int depth, int in_leaf) {
  int n = 0;
  for (;;) {
    int kinds = in_leaf ? 2 : depth < 4 ? 9 : 5;
    int k = budget ? mc_choose(kinds + 1) : 0;
    if (!k) return n;
    budget--;
    uint8_t sub[200]; int s;
    static const uint8_t leafrec[2][3] = { { 0x08, 0x01 }, { 0x78, 0x02 } };
    if (in_leaf) { memcpy(out + n, leafrec[k - 1], 2); n += 2; continue; }
    switch (k) {
      case 1: out[n++] = 0x08; out[n++] = 5; break;                      /* required */
      case 2: out[n++] = 0x2a; out[n++] = 0; break;                      /* required */
      case 3: out[n++] = 0x78; out[n++] = 9; break;                      /* unknown */
      case 4: out[n++] = 0x58; out[n++] = 9; break;                      /* extension */
      case 5: out[n++] = 0x32; out[n++] = 2; out[n++] = 1; out[n++] = 1; break;
      default:
        s = tree(sub, depth + 1, k == 8);
        out[n++] = (k == 6 ? 0x12 : k == 7 ? 0x1a : k == 8 ? 0x22 : 0x52); out[n++] = s;
        memcpy(out + n, sub, s); n += s;
    }
  }
}
static void required_body(void) {
  uint8_t in[400];
  int top = mc_choose(9) , nrec = mc_choose(mc_thorough ? 5 : 4);
  if (!mc_shard()) return;
  /* `top` complete prefixes: which required fields are already there */
  int n = 0;
  if (top % 3 > 0) { in[n++] = 0x08; in[n++] = 1; }
  if (top % 3 > 1) { in[n++] = 0x2a; in[n++] = 1; in[n++] = 'x'; }
  budget = nrec + 1;
  n += tree(in + n, 0, 0);
  if (top / 3 == 1) { memcpy(in + n, "\x2a\x00", 2); n += 2; }
  if (top / 3 == 2) { memcpy(in + n, "\x08\x01", 2); n += 2; }
  if (budget) { mc_me->checks++; return; }        /* counted with a smaller bound */
  input(&req, in, n);
  if (nrec <= 2) for (int cut = 1; cut < n; cut++) { input(&req, in, cut); mc_me->execs++; }
}

/* -- depth and length -------------------------------------------------------- */

static void deep(void) {
  static const int depths[] = { 1, 2, 3, 16, 63, 64, 65, 100, 300, 1000 };
  int levels = depths[mc_choose(10)], rep = mc_choose(2), cut = mc_choose(3);
  if (!mc_shard()) return;
  size_t cap = levels * 6 + 64; uint8_t *a = malloc(cap), *p = a + cap;
  size_t n = 0;
  for (int i = 0; i < levels; i++) {
    uint8_t h[12]; int k = ref_tag(h, rep ? 37 : 17, 2); k += ref_varint(h + k, n);
    p -= k; memcpy(p, h, k); n += k;
  }
  input(all, p, n - (n > (size_t)cut ? cut : 0));
  mc_trace("%d levels", levels);
  free(a);
}
/* 200000 levels: the validator recurses, the decoder must not */
static void nesting(void) {
  int what = mc_choose(2);
  if (!mc_shard()) return;
  size_t cap = 200000 * 6 + 64, n = 0; uint8_t *a = malloc(cap), *p = a + cap;
  for (int i = 0; i < 200000; i++) {
    uint8_t h[12]; int k = ref_tag(h, 17, 2); k += ref_varint(h + k, n);
    p -= k; memcpy(p, h, k); n += k;
  }
  pid_t pid = fork();
  if (!pid) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
    setrlimit(RLIMIT_CORE, &(struct rlimit){ 0, 0 });
    pb_buffer_t b = pb_buffer_create_zero_copy(p, n); pb_error_t e;
    if (what) {
      pb_validator_t v = pb_validator_create(all);
      e = pb_validator_check(&v, &b);
    } else {
      wi_list *l = &exp_; l->end = W_OPEN; l->n = 0;
      pb_decoder_t d = pb_decoder_create(all, &b);
      wi_obs o = { .l = l, .stop_at = -1, .lo = p, .hi = p + n };
      e = pb_decoder_decode(&d, wi_handler, &o);
    }
    _exit(e ? 9 : 0);
  }
  int st = 0; waitpid(pid, &st, 0); mc_step();
  mc_state(what);
  mc_trace("%s: status %x", what ? "validate" : "decode", st);
  if (what) {
    mc_check(!WIFEXITED(st) || !WEXITSTATUS(st) || WEXITSTATUS(st) != 9, "200000 levels do not validate");
    if (st) mc_known("deep-validate");
  } else mc_check(WIFEXITED(st) && WEXITSTATUS(st) != 1, "decoding 200000 levels crashes");
  free(a);
}
/* many fields: work must stay linear and the stack flat */
static void many(void) {
  static const int counts[] = { 1000, 4000, 400000 };
  int c = mc_choose(3), kind = mc_choose(4);
  if (!mc_shard()) return;
  static const uint8_t r[4][6] = { { 2, 0x18, 1 }, { 3, 0xf0, 0x2e, 1 }, { 3, 0x8a, 0x01, 0 }, { 4, 0xba, 0x01, 1, 7 } };
  size_t k = r[kind][0], n = counts[c] * k; uint8_t *d = malloc(n);
  for (int i = 0; i < counts[c]; i++) memcpy(d + i * k, r[kind] + 1, k);
  mc_trace("%d records of kind %d", counts[c], kind);
  pb_buffer_t b = pb_buffer_create_zero_copy(d, n);
  wi_obs o = { .l = &exp_, .stop_at = -1, .lo = d, .hi = d + n };
  wi_expect(all, d, 0, &exp_); exp_.end = W_OPEN;
  pb_decoder_t dec = pb_decoder_create(all, &b);
  pb_error_t e = pb_decoder_decode(&dec, wi_handler, &o); mc_step();
  mc_check(!e && !o.bad && o.n == (kind == 1 ? 0 : counts[c]), "%d records: error %d after %d values", counts[c], e, o.n);
  pb_validator_t val = pb_validator_create(all);
  e = pb_validator_check(&val, &b); mc_step();
  mc_check(!e, "%d records: validator returns %d", counts[c], e);
  mc_state(n * 4 + kind);
  pb_decoder_destroy(&dec); pb_buffer_destroy(&b); free(d);
}

int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "bytes3", MC_DFS, bytes3, .bound = "every byte string of up to 3 bytes" },
    { "alpha", MC_DFS, alpha, .bound = "every string of 4..6 (thorough: 7) bytes over 16 byte values covering tags, wire types, lengths and continuation" },
    { "events", MC_DFS, events, .bound = "every sequence of up to 3 records over all types, packed, nested, unknown; a handler error at every position of sequences <= 2 (thorough: 3)" },
    { "mutate", MC_DFS, mutate, .bound = "every sequence of up to 2 records cut at every position, every byte replaced by every value (pairs: 8 values, thorough: every value)" },
    { "ints", MC_DFS, ints, .bound = "integers of 1..12 bytes, boundary fills, every varint type, singular, repeated, packed; of 1..18 bytes as unknown values, tags and lengths" },
    { "required", MC_DFS, required_body, .bound = "every tree of up to 4 (thorough: 5) records, 4 levels, 9 kinds x 9 placements of the required fields; cuts of the small ones" },
    { "deep", MC_DFS, deep, .bound = "1..1000 nested levels, cut at the end" },
    { "nesting", MC_DFS, nesting, .bound = "200000 nested levels, in a child process" },
    { "many", MC_DFS, many, .bound = "up to 400000 records" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
