/* Message operations against the model: explicit-state search over wire images */
#include "schema.h"
#include "falloc.h"

static sc_bytes rec[64]; static int nrec;
static sc_op op[512]; static int nop;
static int maxlen = 40, seqlen = 2;

static void R(const char *hex, const char *name) { rec[nrec++] = sc_rec(hex, name); }
static void P(uint32_t tag, sc_value v, int depth, uint32_t a, uint32_t b) {
  op[nop++] = (sc_op){ .what = OP_PUT, .path = { a, b }, .depth = depth, .tag = tag, .v = v };
}
static void E(uint32_t tag, int depth, uint32_t a, uint32_t b) {
  op[nop++] = (sc_op){ .what = OP_ERASE, .path = { a, b }, .depth = depth, .tag = tag };
}
static void C(uint32_t tag, int depth, uint32_t a, uint32_t b) {
  op[nop++] = (sc_op){ .what = OP_TOUCH, .path = { a, b }, .depth = depth, .tag = tag };
}
static sc_value U(uint64_t x) { return sc_scalar(PB_TYPE_UINT32, x); }
static sc_value S(pb_type_t t, const char *s, int n) { sc_value v; sc_value_str(&v, t, (const uint8_t *)s, n); return v; }
#define STR(s) S(PB_TYPE_STRING, s, sizeof s - 1)
#define MSG(s) S(PB_TYPE_MESSAGE, s, sizeof s - 1)

static long init(int i, uint8_t *out) {
  /* all sequences of up to seqlen records */
  int n = i, len = 0; long size = 0;
  long count = 1, base = 0;
  for (len = 0; len <= seqlen; len++) {
    if (n < base + count) break;
    base += count; count *= nrec;
  }
  if (len > seqlen) return -1;
  n -= base;
  for (int k = 0; k < len; k++) {
    sc_bytes *b = &rec[n % nrec]; n /= nrec;
    memcpy(out + size, b->d, b->n); size += b->n;
  }
  return size;
}

static int apply(const uint8_t *state, size_t size, int which, uint8_t *out, size_t *out_size) {
  dom_reset();
  dn *root = dom_parse(&sc_desc, state, size);
  if (!root || !dom_same(root, state, size)) { fprintf(stderr, "bad state %s\n", mc_hex(state, size)); _exit(3); }
  pb_journal_t j = sc_open(state, size);
  pb_message_t msg = pb_message_create(&sc_desc, &j);
  int result = 2;
  if (!which) {
    uint64_t obs = 0;
    sc_read_all(&msg, root, 2, &obs);
    mc_outcome(obs);
    mc_check(sc_size(&j) == size && (!size || !memcmp(sc_data(&j), state, size)), "reading changed %s into %s",
      mc_hex(state, size), mc_hex(sc_data(&j), sc_size(&j)));
    mc_check(pb_message_valid(&msg), "reading invalidated the message");
  } else {
    sc_step(&j, &msg, root, root, &op[which - 1]);
    uint64_t obs = 0;
    sc_read_all(&msg, root, 1, &obs);
    *out_size = sc_size(&j);
    if (*out_size <= (size_t)maxlen) { if (*out_size) memcpy(out, sc_data(&j), *out_size); result = 1; }
  }
  pb_message_destroy(&msg);
  pb_journal_destroy(&j);
  return result;
}

/* -- one operation with every allocation failing ----------------------------- */

static int image(int most, uint8_t *out) {
  int n = mc_choose(most + 1), size = 0;
  for (int i = 0; i < n; i++) { sc_bytes *b = &rec[mc_choose(nrec)]; memcpy(out + size, b->d, b->n); size += b->n; }
  return size;
}
static pb_journal_t *watched; static uint8_t seen[40][256]; static size_t seen_n[40]; static int nseen, base;
static void watch(fa *f, int k) {
  k -= base;
  if (k < 0 || k >= 40) return;
  seen_n[k] = sc_size(watched); nseen = k + 1;
  if (seen_n[k] > sizeof seen[k]) { fprintf(stderr, "image too large\n"); _exit(3); }
  if (seen_n[k]) memcpy(seen[k], sc_data(watched), seen_n[k]);
}
/* Touches everything without expectations: must merely be safe */
static void poke(pb_message_t *msg) {
  for (size_t i = 0; i < sc_desc.field.size; i++) {
    uint64_t v[2] = { 0, 0 }; uint32_t tag = sc_field[i].tag;
    pb_message_has(msg, tag);
    if (sc_field[i].label != PB_LABEL_REPEATED && sc_field[i].type != PB_TYPE_MESSAGE) { if (pb_message_get(msg, tag, v)) continue; }
    else { pb_cursor_t c = pb_cursor_create(msg, tag); while (pb_cursor_next(&c)); pb_cursor_destroy(&c); }
    mc_step();
  }
}
static int oom_recs = 1;
/* request k fails (persist: all from there on). Returns 0 when there is no request k. */
static int oom_once(const sc_op *o, const uint8_t *img, size_t size, int k, int persist) {
  fa f; fa_init(&f); uint64_t obs = 0; int result = 1;
  dom_reset(); dom_tn = 0;
  dn *root = dom_parse(&sc_desc, img, size);
  if (!root || !dom_same(root, img, size)) { fprintf(stderr, "bad image %s\n", mc_hex(img, size)); _exit(3); }
  pb_journal_t j = size ? pb_journal_create_with_allocator(&f.a, img, size) : pb_journal_create_empty_with_allocator(&f.a);
  pb_message_t msg = pb_message_create(&sc_desc, &j);
  mc_trace("image %s, %s %d fail%s", mc_hex(img, size), persist ? "requests from" : "request", k, persist ? "" : "s");
  mc_trace("%s", sc_name(o));
  if (k < 0) { watched = &j; nseen = 0; base = f.requests; f.watch = watch; }
  else if (persist) f.fail_from = f.requests + k; else fa_arm(&f, k);
  pb_error_t e = sc_run(&msg, o);
  f.fail_at = f.fail_from = -1; f.watch = NULL;
  size_t n = sc_size(&j); const uint8_t *d = sc_data(&j);
  mc_trace("  error %d -> %s", e, mc_hex(d, n));
  mc_check(pb_journal_valid(&j) && pb_message_valid(&msg), "%s leaves the message invalid", sc_name(o));
  if (k >= 0 && !f.failed) result = 0;
  else if (!e) {                                        /* no failure, or one that does not matter */
    dom_op op = { .root = root, .after = d, .after_size = n, .path = o->path, .depth = o->depth,
      .what = o->what, .tag = o->tag, .v = sc_wire(&o->v), .vl = o->v.vl };
    mc_check(dom_apply(&op), "%s turns %s into %s, which is none of the results it may have", sc_name(o), mc_hex(img, size), mc_hex(d, n));
    sc_read_all(&msg, root, 2, &obs);
  } else {
    mc_check(k >= 0, "%s on %s fails with %d", sc_name(o), mc_hex(img, size), e);
    mc_check(e == PB_ERROR_ALLOC || e == PB_ERROR_INVALID, "%s fails with %d when out of memory", sc_name(o), e);
    mc_check(k < nseen, "more requests than before");
    int same = n == size && (!n || !memcmp(d, img, n));
    if (same) {
      sc_read_all(&msg, root, 2, &obs);
      sc_step(&j, &msg, root, root, o);                 /* and now with memory */
      sc_read_all(&msg, root, 2, &obs);
    } else {
      int at = k;
      while (at < nseen && !(n == seen_n[at] && (!n || !memcmp(d, seen[at], n)))) at++;
      mc_check(persist ? at < nseen : at == k, "%s on %s, out of memory at request %d, leaves %s, but stopped at %s",
        sc_name(o), mc_hex(img, size), k, mc_hex(d, n), mc_hex(seen[k], seen_n[k]));
      mc_known("oom-half-done");
      poke(&msg);
    }
  }
  mc_outcome(mc_hash(sc_data(&j), sc_size(&j), e));
  pb_message_destroy(&msg); pb_journal_destroy(&j);
  fa_done(&f);
  mc_state(mc_hash(img, size, o - op) ^ k * 2 ^ persist);
  return result;
}
static void oom(void) {
  uint8_t img[200]; int size = image(oom_recs, img);
  const sc_op *o = &op[mc_choose(nop)];
  if (!mc_shard()) return;
  oom_once(o, img, size, -1, 0);
  int need = nseen;
  for (int k = 0; oom_once(o, img, size, k, 0); k++) mc_check(k < need, "more requests than before");
  for (int k = 0; k < need; k++) oom_once(o, img, size, k, 1);
}

/* -- zero copy: one or two operations over the caller's memory ----------------- */

/* Does o rewrite one value by another of the same wire size, or nothing at all? */
static int keeps(const dn *m, const sc_op *o, int *noop) {
  *noop = 0;
  for (int i = 0; i < o->depth; i++) {
    m = dom_visible(m, o->path[i]);
    if (!m) { *noop = o->what == OP_ERASE; return *noop; }
  }
  const pb_field_descriptor_t *f = ref_lookup(m->desc, o->tag);
  const void *g = dom_group(f); int others = 0;
  for (int i = 0; i < m->nk; i++) {
    dn *x = m->kid[i];
    if (x->dead || !x->f) continue;
    if (x->tag == o->tag) { if (o->what != OP_ERASE) others = 0; }        /* those in front stay */
    else if (g && dom_group(x->f) == g) others++;
  }
  if (o->what == OP_ERASE) {
    dn *occ[1]; int n = dom_occ(m, o->tag, occ, 1, 0);
    return *noop = !others && !n;
  }
  if (f->label == PB_LABEL_REPEATED || others) return 0;
  dn *x = dom_last(m, o->tag);
  if (!x) return 0;
  if (o->what == OP_TOUCH) return *noop = 1;
  return dom_content(x) == (size_t)o->v.vl;
}
static int zc_recs = 2, zc_ops = 1;
static void zc(void) {
  uint8_t img[200]; int size = image(zc_recs, img);
  const sc_op *o[2]; int n = zc_ops;
  for (int i = 0; i < n; i++) o[i] = &op[mc_choose(nop)];
  if (!mc_shard()) return;
  if (!size) return;                                    /* a buffer needs memory */
  dom_reset(); dom_tn = 0;
  dn *root = dom_parse(&sc_desc, img, size); uint64_t obs = 0;
  uint8_t *mem = mc_exact(img, size);
  pb_journal_t j = pb_journal_create_zero_copy(mem, size);
  pb_message_t msg = pb_message_create(&sc_desc, &j);
  mc_trace("image %s", mc_hex(img, size));
  if (n == 1) sc_read_all(&msg, root, 2, &obs);
  for (int i = 0; i < n; i++) {
    int noop; uint8_t before[200]; memcpy(before, mem, size);
    int fits = keeps(root, o[i], &noop);
    pb_error_t e = sc_run(&msg, o[i]);
    mc_trace("%s: error %d -> %s", sc_name(o[i]), e, mc_hex(mem, size));
    mc_check(sc_data(&j) == mem && sc_size(&j) == (size_t)size, "%s moved or resized the caller's memory", sc_name(o[i]));
    if (fits) {
      mc_check(!e, "%s on %s keeps the size, but fails with %d", sc_name(o[i]), mc_hex(before, size), e);
      mc_check(!noop || !memcmp(before, mem, size), "%s has nothing to do, but turned %s into %s", sc_name(o[i]), mc_hex(before, size), mc_hex(mem, size));
      dom_op op = { .root = root, .after = mem, .after_size = size, .path = o[i]->path, .depth = o[i]->depth,
        .what = o[i]->what, .tag = o[i]->tag, .v = sc_wire(&o[i]->v), .vl = o[i]->v.vl };
      mc_check(dom_apply(&op), "%s turns %s into %s", sc_name(o[i]), mc_hex(before, size), mc_hex(mem, size));
    } else {
      mc_check(e == PB_ERROR_ALLOC || e == PB_ERROR_INVALID, "%s on %s changes the size, but returns %d", sc_name(o[i]), mc_hex(before, size), e);
      mc_check(!memcmp(before, mem, size), "%s failed, but turned %s into %s", sc_name(o[i]), mc_hex(before, size), mc_hex(mem, size));
    }
    mc_check(pb_journal_valid(&j) && pb_message_valid(&msg), "%s leaves the message invalid", sc_name(o[i]));
    sc_read_all(&msg, root, 1, &obs);
    mc_outcome(mc_hash(mem, size, e));
    mc_state(mc_hash(before, size, o[i] - op));
  }
  pb_message_destroy(&msg); pb_journal_destroy(&j); free(mem);
}

static int zc2_recs = 1;
static void zc2(void) { int r = zc_recs; zc_recs = zc2_recs; zc_ops = 2; zc(); zc_recs = r; zc_ops = 1; }

static mc_scenario list[] = {
  { "core", MC_BFS, .init = init, .apply = apply, .depth = 2,
    .bound = "all sequences of <= 2 records, then all operation sequences of the depth, images <= 40 bytes" },
  { "oom", MC_DFS, oom, .bound = "images of <= 2 (thorough: 3) records, every operation, every allocation failing alone and with all after it" },
  { "zerocopy", MC_DFS, zc, .bound = "images of <= 2 (thorough: 3) records in the caller's memory, every operation" },
  { "zerocopy2", MC_DFS, zc2, .bound = "images of 1 (thorough: <= 2) records in the caller's memory, every pair of operations" },
  { NULL }
};

static void setup(int thorough) {
  sc_setup();
  R("08 05", "u32"); R("08 ac02", "u32 two bytes"); R("12 02 6162", "string"); R("12 00", "empty string");
  R("18 01", "rep"); R("20 09", "packed-declared, unpacked"); R("22 02 0102", "packed"); R("22 00", "empty packed");
  R("1a 02 0304", "unpacked-declared, packed"); R("2a 02 0801", "sub"); R("2a 00", "empty sub");
  R("2a 04 2a02 0803", "sub.sub"); R("32 02 0802", "repsub"); R("38 04", "oneof a"); R("42 01 7a", "oneof b");
  R("4a 02 0809", "oneof c"); R("59 0102030405060708", "fixed64"); R("62 04 01000000", "packed fixed32");
  R("a006 01", "unknown varint"); R("a206 02 7879", "unknown length"); R("808001 05", "two byte tag"); R("80fa01 07", "extension");
  R("8a01 01 71", "repstr");
  R("08 05 08 06 08 07", "three u32"); R("2a 02 0801 2a 02 0802 2a 02 0803", "three subs");
  R("38 01 42 01 61 38 02", "oneof a, b, a"); R("22 01 01 20 02 22 02 0304", "packed, unpacked, packed");
  P(T_U32, U(0), 0, 0, 0); P(T_U32, U(300), 0, 0, 0); P(T_STR, STR(""), 0, 0, 0); P(T_STR, STR("abc"), 0, 0, 0);
  P(T_REP, U(5), 0, 0, 0); P(T_REP, U(200), 0, 0, 0); P(T_PACK, U(6), 0, 0, 0); P(T_PACK, U(1000), 0, 0, 0);
  P(T_SUB, MSG(""), 0, 0, 0); P(T_SUB, MSG("\x08\x02"), 0, 0, 0); P(T_REPSUB, MSG("\x08\x03"), 0, 0, 0);
  P(T_REPSUB, MSG(""), 0, 0, 0);
  P(T_OA, U(1), 0, 0, 0); P(T_OB, STR("o"), 0, 0, 0); P(T_OC, MSG("\x08\x01"), 0, 0, 0);
  P(T_F64, sc_scalar(PB_TYPE_FIXED64, 12), 0, 0, 0); P(T_PF32, sc_scalar(PB_TYPE_FIXED32, 12), 0, 0, 0);
  P(T_SI, sc_scalar(PB_TYPE_SINT32, -2), 0, 0, 0); P(T_ENUM, sc_scalar(PB_TYPE_ENUM, 300), 0, 0, 0);
  P(T_BOOL, sc_scalar(PB_TYPE_BOOL, 1), 0, 0, 0); P(T_F32, sc_scalar(PB_TYPE_FIXED32, 0x01020304), 0, 0, 0);
  P(T_REPSTR, STR("r"), 0, 0, 0); P(T_REPSTR, STR(""), 0, 0, 0); P(T_RI64, sc_scalar(PB_TYPE_INT64, -1), 0, 0, 0);
  P(T_XX, sc_scalar(PB_TYPE_UINT64, 1), 0, 0, 0); P(T_EXT, U(3), 0, 0, 0); P(T_BYTES, S(PB_TYPE_BYTES, "\0\1", 2), 0, 0, 0);
  uint32_t all[] = { T_U32, T_STR, T_REP, T_PACK, T_SUB, T_REPSUB, T_OA, T_OB, T_OC, T_F64, T_PF32, T_REPSTR, T_XX, T_EXT };
  for (size_t i = 0; i < sizeof all / sizeof *all; i++) E(all[i], 0, 0, 0);
  C(T_SUB, 0, 0, 0); C(T_REPSUB, 0, 0, 0); C(T_OC, 0, 0, 0); C(T_SUB, 1, T_SUB, 0); C(T_OC, 1, T_SUB, 0);
  uint32_t pa[3][3] = { { 1, T_SUB, 0 }, { 2, T_SUB, T_SUB }, { 1, T_OC, 0 } };
  for (int i = 0; i < 3; i++) {
    P(T_U32, U(1), pa[i][0], pa[i][1], pa[i][2]); P(T_STR, STR("nested"), pa[i][0], pa[i][1], pa[i][2]);
    P(T_PACK, U(130), pa[i][0], pa[i][1], pa[i][2]); P(T_REP, U(2), pa[i][0], pa[i][1], pa[i][2]);
    P(T_OA, U(2), pa[i][0], pa[i][1], pa[i][2]);
    E(T_U32, pa[i][0], pa[i][1], pa[i][2]); E(T_PACK, pa[i][0], pa[i][1], pa[i][2]); E(T_SUB, pa[i][0], pa[i][1], pa[i][2]);
  }
  list[0].ops = nop + 1;
  if (thorough) { list[0].depth = 3; }
  oom_recs = zc_recs = thorough ? 3 : 2; zc2_recs = thorough ? 2 : 1;
}

int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
