/* Length prefixes: messages nested 1 to 5 levels deep whose sizes sit at the
   borders of one, two, three and four byte prefixes, while the innermost value
   is written, replaced, created or erased by every route. Every level carries a
   marker that handles opened before must still read. */
#define DOM_BUF (1 << 22)
#include "schema.h"

static pb_journal_t J; static dn *root;
static uint8_t *before, *text; static size_t bn;
static pb_message_t H[6]; static dn *N[6]; static int depth, marks;
static void snapshot(void) { bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn); }

/* -- building --------------------------------------------------------------- */

static size_t grow(uint8_t *d, size_t n, uint32_t tag, int pad) {      /* wraps d as submessage */
  uint8_t h[16]; size_t o = ref_tag(h, tag, 2), l = ref_varint(h + o, n);
  if (pad) { h[o + l - 1] |= 0x80; h[o + l++] = 0; }
  memmove(d + o + l, d, n); memcpy(d, h, o + l);
  return n + o + l;
}
enum { K_STR, K_PACK, K_SUB, K_REPSTR, K_KINDS };
static uint32_t leaf_tag(int kind) { return kind == K_STR ? T_STR : kind == K_PACK ? T_PACK : kind == K_SUB ? T_SUB : T_REPSTR; }
/* wire content of the leaf with n bytes; submessages hold a string */
static size_t content(int kind, size_t n, uint8_t *o) {
  if (kind != K_SUB) { memset(o, kind == K_PACK ? 1 : 't', n); return n; }
  for (int l = 1; l < 5; l++) {                          /* bytes field filling n */
    uint8_t t[10]; if (n < 1u + l || (int)ref_varint(t, n - 1 - l) != l) continue;
    o[0] = T_STR << 3 | 2; memcpy(o + 1, t, l); memset(o + 1 + l, 's', n - 1 - l); return n;
  }
  return 0;
}
static uint32_t level_tag(int mode, int i) {             /* tag of the submessage on level i */
  return mode == 0 ? T_SUB : mode == 1 ? (i & 1 ? T_REPSUB : T_SUB) : i & 1 ? T_OC : T_SUB;
}
static size_t build(uint8_t *d, int kind, long n, int mode, int pad) {
  size_t o = 0;
  for (int i = depth; i >= 0; i--) {                     /* level i: marker, child, marker */
    if (i == depth) {
      if (n >= 0) { size_t k = content(kind, n, d); o = grow(d, k, leaf_tag(kind), pad == i + 1); }
    } else o = grow(d, o, level_tag(mode, i), pad == i + 1);
    uint8_t m[4] = { T_U32 << 3, i + 1 };
    if (marks & 1) { memmove(d + 2, d, o); memcpy(d, m, 2); o += 2; }
    if (marks & 2) { d[o++] = T_BOOL << 3; d[o++] = i & 1; }
  }
  return o;
}

/* -- checking ---------------------------------------------------------------- */

static void check(const char *what) {
  const uint8_t *d = sc_data(&J); size_t n = sc_size(&J);
  for (int i = 0; i <= depth; i++) {
    mc_step();
    if (i && !dom_alive(N[i])) { mc_check(!pb_message_valid(&H[i]) || pb_message_has(&H[i], T_U32) == 0, "%s: a message handle survives", what); continue; }
    uint32_t v = 0; uint8_t b = 9;
    pb_error_t e = pb_message_get(&H[i], T_U32, &v), f = pb_message_get(&H[i], T_BOOL, &b);
    mc_check(marks & 1 ? !e && v == (uint32_t)i + 1 : e == PB_ERROR_ABSENT, "%s: level %d reads %u (error %d)", what, i, v, e);
    mc_check(marks & 2 ? !f && b == (i & 1) : f == PB_ERROR_ABSENT, "%s: level %d reads %u (error %d) behind", what, i, b, f);
  }
  mc_check(ref_wellformed(&sc_desc, d, n), "%s: the message is not well formed any more", what);
}
/* the value at the leaf, read from the outermost message and the innermost handle */
static void reads(const char *what, int mode) {
  uint32_t tags[6]; for (int i = 0; i < depth; i++) tags[i] = level_tag(mode, i);
  tags[depth] = T_STR; uint64_t a[2], g[2];
  dn *x = dom_visible(N[depth], T_STR); mc_step();
  if (mode != 1 || !depth) {
    pb_error_t e = depth ? pb_message_nested_get(&H[0], tags, depth + 1, g) : pb_message_get(&H[0], T_STR, g);
    mc_check(x ? sc_decode(x, a) && !e && sc_equal(PB_TYPE_STRING, a, g) : e == PB_ERROR_ABSENT, "%s: read through the path differs (error %d)", what, e);
  }
  pb_error_t e = pb_message_get(&H[depth], T_STR, g);
  mc_check(x ? sc_decode(x, a) && !e && sc_equal(PB_TYPE_STRING, a, g) : e == PB_ERROR_ABSENT, "%s: read through the handle differs (error %d)", what, e);
}

/* -- operations --------------------------------------------------------------- */

enum { R_MSG, R_PATH, R_FIELD, R_CURSOR, R_ERASE, R_OTHER, R_CLEAR, ROUTES };
static const char *rname[] = { "put", "nested put", "put through field", "put through cursor", "erase", "put of another field", "clear through field" };
static int step(int kind, int mode, int route, size_t n, const char **what) {
  static char name[120];
  static uint8_t *val; if (!val) val = malloc(1 << 22);
  uint32_t tag = leaf_tag(kind), tags[6]; for (int i = 0; i < depth; i++) tags[i] = level_tag(mode, i);
  sprintf(name, "%s to %zu bytes at depth %d", rname[route], n, depth); *what = name;
  if (route == R_PATH && mode == 1 && depth) return 0;
  dn *m = N[depth], *occ[2], *x = NULL; pb_message_t *h = &H[depth]; pb_error_t e;
  int cnt = kind == K_PACK || kind == K_REPSTR ? dom_occ(m, tag, occ, 2, 0) : 0;
  if (kind != K_PACK && kind != K_REPSTR) x = dom_visible(m, tag); else if (cnt) x = occ[0];
  if ((route == R_CURSOR || route == R_FIELD) && !x) return 0;
  if (route == R_FIELD && kind == K_SUB) return 0;
  if (route == R_CLEAR && (!x || kind == K_PACK)) return 0;
  if (route == R_ERASE && !x) return 0;
  tags[depth] = route == R_OTHER ? T_BYTES : tag;
  sc_value v; size_t vl;
  if (kind == K_PACK && route != R_OTHER) { v = sc_scalar(PB_TYPE_UINT32, n & 1 ? 3 : n & 2 ? 300 : 1u << 31); vl = v.vl; memcpy(val, v.v, vl); }
  else { vl = content(route == R_OTHER ? K_STR : kind, n, val); sc_value_str(&v, route == R_OTHER ? PB_TYPE_BYTES : kind == K_SUB ? PB_TYPE_MESSAGE : PB_TYPE_STRING, val, vl); }
  mc_trace("%s", name);
  snapshot(); mc_step();
  const void *arg = &v.m; pb_journal_t sj; pb_message_t sm; int sub = kind == K_SUB && route <= R_CURSOR;
  if (sub) { sj = sc_open(val, vl); sm = pb_message_create(&sc_desc, &sj); arg = &sm; }
  if (route == R_MSG || route == R_PATH || route == R_OTHER) {
    e = route == R_PATH && depth ? pb_message_nested_put(&H[0], tags, depth + 1, arg) : pb_message_put(h, tags[depth], arg);
  } else if (route == R_ERASE) e = pb_message_erase(h, tag);
  else {
    pb_cursor_t c = pb_cursor_create(h, tag);
    if (route == R_CURSOR) e = pb_cursor_put(&c, arg);
    else if (route == R_CLEAR && kind == K_SUB) { pb_message_t s = pb_message_create_from_cursor(&c); e = pb_message_clear(&s); pb_message_destroy(&s); }
    else { pb_field_t f = pb_field_create_from_cursor(&c); e = route == R_CLEAR ? pb_field_clear(&f) : pb_field_put(&f, arg); pb_field_destroy(&f); }
    pb_cursor_destroy(&c);
  }
  if (sub) { pb_message_destroy(&sm); pb_journal_destroy(&sj); }
  mc_check(!e, "%s fails with %d", name, e);
  if (route == R_FIELD || route == R_CURSOR) {
    dom_replace(x, val, vl);
    mc_check(dom_same(root, sc_data(&J), sc_size(&J)), "%s: %s became %s", name, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
  } else if (route == R_CLEAR) {
    mc_check(dom_erase_one(root, x, sc_data(&J), sc_size(&J)), "%s: %s became %s", name, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
  } else {
    int d = depth; static const uint32_t none[1];
    dom_op o = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = d ? tags : none, .depth = d,
      .what = route == R_ERASE ? OP_ERASE : OP_PUT, .tag = tags[d], .v = val, .vl = vl };
    if (mode == 1 && d) { o.depth = 0; mc_check(dom_try(&o, m, 0), "%s: %s became %s", name, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J))); }
    else mc_check(dom_apply(&o), "%s: %s became %s", name, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
  }
  dom_tn = 0;
  return 1;
}
static void run(int kind, int mode, int pad, long n0, int r1, size_t n1, int r2, size_t n2) {
  static uint8_t *d; if (!d) { d = malloc(1 << 22); before = malloc(1 << 22); }
  if (pad > depth + 1) return;
  size_t n = build(d, kind, n0, mode, pad);
  dom_reset(); dom_tn = 0;
  root = dom_parse(&sc_desc, d, n);
  if (!root) { fprintf(stderr, "bad image\n"); _exit(3); }
  J = sc_open(d, n);
  H[0] = pb_message_create(&sc_desc, &J); N[0] = root;
  for (int i = 1; i <= depth; i++) {
    uint32_t t = level_tag(mode, i - 1);
    pb_cursor_t c = pb_cursor_create(&H[i - 1], t); H[i] = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c);
    N[i] = dom_last(N[i - 1], t);
    mc_check(pb_message_valid(&H[i]), "cannot open level %d", i);
  }
  mc_trace("depth %d, markers %d, leaf %d of %ld bytes, tags %d, padded prefix %d: %zu bytes", depth, marks, kind, n0, mode, pad, n);
  const char *what;
  if (step(kind, mode, r1, n1, &what)) {
    check(what); reads(what, mode);
    mc_state(mc_hash(&n1, sizeof n1, mc_hash(d, n, r1)));
    if (r2 >= 0 && step(kind, mode, r2, n2, &what)) {
      check(what); reads(what, mode);
    }
    mc_outcome(mc_hash(sc_data(&J), sc_size(&J), 0));
  }
  for (int i = depth; i >= 0; i--) pb_message_destroy(&H[i]);
  pb_journal_destroy(&J);
}

static int thorough;
/* sizes which move some enclosing prefix over the border b */
static long near(long b, int span) { int w = thorough ? span + 12 : span; return b - w + mc_choose(w + 3); }
static void small(void) {
  depth = mc_choose(thorough ? 6 : 5); marks = mc_choose(4);
  int kind = mc_choose(K_KINDS), mode = mc_choose(depth ? 3 : 1), pad = mc_choose(thorough ? depth + 2 : 2) * (thorough ? 1 : depth + 1);
  int absent = mc_choose(2); long n0 = absent ? -1 : near(128, 5 * depth + 4);
  if (!mc_shard()) return;
  int r1 = mc_choose(ROUTES); size_t n1 = 0;
  if (r1 != R_ERASE && r1 != R_CLEAR) {
    if (kind == K_PACK && r1 != R_OTHER) n1 = mc_choose(3);
    else { int c = mc_choose(2); n1 = c ? near(128, 5 * depth + 4) : mc_choose(3); }
  }
  int two = marks == 3;
  int r2 = two ? mc_choose(ROUTES + 1) - 1 : -1; size_t n2 = 0;
  if (r2 >= 0 && r2 != R_ERASE && r2 != R_CLEAR) { static const size_t s[] = { 0, 126, 300 }; n2 = s[mc_choose(thorough ? 3 : 2)]; }
  run(kind, mode, pad, n0, r1, n1, r2, n2);
}
static void medium(void) {
  depth = mc_choose(5); marks = mc_choose(2) * 3;
  int kind = mc_choose(K_KINDS), mode = mc_choose(depth ? thorough ? 3 : 2 : 1);
  long n0 = near(16384, 6 * depth + 5);
  if (!mc_shard()) return;
  int r1 = mc_choose(ROUTES); size_t n1 = 0;
  if (r1 != R_ERASE && r1 != R_CLEAR) {
    if (kind == K_PACK && r1 != R_OTHER) n1 = mc_choose(3);
    else { int c = mc_choose(3); static const long b[] = { 0, 128, 16384 }; n1 = !c ? mc_choose(2) : c == 1 ? 127 + mc_choose(2) : near(b[c], 6 * depth + 5); }
  }
  if (kind == K_PACK && n0 > 16000 && r1 == R_ERASE && !thorough) return;
  run(kind, mode, 0, n0, r1, n1, thorough ? mc_choose(3) - 1 : -1, 0);
}
static void large(void) {
  static const long size[] = { 2097152 };
  depth = mc_choose(4); marks = 3;
  long n0 = near(size[0], thorough ? 7 * depth + 5 : 0);
  int mode = mc_choose(2);
  if (!mc_shard()) return;
  int r1 = mc_choose(3) * 2; static const size_t s[] = { 0, 16384, 2097151, 2097152 };
  run(K_STR, mode, 0, n0, r1, r1 == R_ERASE ? 0 : s[mc_choose(4)], -1, 0);
}
static mc_scenario list[] = {
  { "small", MC_DFS, small, .bound = "depths 0-4 (thorough: 0-5), sizes around 128 before and after, 4 kinds of values, 7 routes, padded prefixes; with marks around, then a second operation" },
  { "medium", MC_DFS, medium, .bound = "depths 0-4, sizes around 16384 before and 0, 127, 128 and around 16384 after, 4 kinds of values, 7 routes" },
  { "large", MC_DFS, large, .bound = "depths 0-3, sizes around 2097152" },
  { NULL }
};
static void setup(int th) { sc_setup(); thorough = th; }
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
