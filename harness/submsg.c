/* Putting a message into another copies it: every kind of source into every
   kind of place, then updates of either side, neither of which the other sees.
   Both sides have allocators of their own; the source may be gone first. */
#include "schema.h"
#include "falloc.h"

static fa FT, FS;                                        /* target's, source's memory */
static pb_journal_t J, SJ; static dn *root, *sroot;
static uint8_t before[1 << 14]; static size_t bn;
static uint8_t sbefore[1 << 12]; static size_t sn;
static void snapshot(void) {
  bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn);
  sn = sc_size(&SJ); if (sn) memcpy(sbefore, sc_data(&SJ), sn);
}
static int target_same(void) { return sc_size(&J) == bn && (!bn || !memcmp(sc_data(&J), before, bn)); }
static int source_same(void) { return sc_size(&SJ) == sn && (!sn || !memcmp(sc_data(&SJ), sbefore, sn)); }

/* -- sources ------------------------------------------------------------------ */

enum { S_ROOT, S_ZERO, S_SUB, S_SUBSUB, S_CURSOR, S_MOVED, S_FIELD, S_GROWN, S_INVALID, S_ERASED, SOURCES };
static const char *sname[] = { "a message", "a zero copy message", "a submessage", "a submessage of a submessage", "a submessage at a cursor",
  "a submessage that has moved", "a message over a bytes field", "a message that was grown", "an invalid message", "an erased submessage" };
static sc_bytes content[24]; static int ncontent;
static uint8_t big[400]; static int bign;
static const uint8_t *cd; static int cn;                 /* the content the source has */
static uint8_t zero_copy[512];

static size_t wrap(uint8_t *d, size_t n, uint32_t tag) {
  uint8_t h[12]; size_t o = ref_tag(h, tag, 2); o += ref_varint(h + o, n);
  memmove(d + o, d, n); memcpy(d, h, o); return n + o;
}
static dn *snode;                                        /* what the source handle is bound to */
static pb_message_t source(int kind) {
  uint8_t d[1024]; size_t n = cn; memcpy(d, cd, n); pb_message_t m, s; dn *x;
  if (kind == S_SUB || kind == S_MOVED || kind == S_ERASED) n = wrap(d, n, T_SUB);
  if (kind == S_CURSOR) { n = wrap(d, n, T_REPSUB); memmove(d + 4, d, n); memcpy(d, "\x32\x02\x08\x63", 4); n += 4; }
  if (kind == S_SUBSUB) { n = wrap(d, n, T_OC); n = wrap(d, n, T_SUB); }
  if (kind == S_FIELD) n = wrap(d, n, T_BYTES);
  if (kind >= S_SUB && kind <= S_MOVED && kind != S_CURSOR) { memmove(d + 2, d, n); memcpy(d, "\x08\x01", 2); n += 2; memcpy(d + n, "\x78\x01", 2); n += 2; }
  if (kind == S_GROWN || kind == S_INVALID) n = 0;
  if (kind == S_ZERO && n) { memcpy(zero_copy, d, n); SJ = pb_journal_create_zero_copy(zero_copy, n); }
  else SJ = n ? pb_journal_create_with_allocator(&FS.a, d, n) : pb_journal_create_empty_with_allocator(&FS.a);
  m = pb_message_create(&sc_desc, &SJ);
  sroot = dom_parse(&sc_desc, d, n); snode = sroot;
  if (!sroot) { fprintf(stderr, "bad source\n"); _exit(3); }
  switch (kind) {
    case S_SUB: case S_MOVED: case S_ERASED: s = pb_message_create_within(&m, T_SUB); snode = dom_visible(sroot, T_SUB); break;
    case S_SUBSUB: { uint32_t p[] = { T_SUB, T_OC }; s = pb_message_create_nested(&m, p, 2); snode = dom_visible(dom_visible(sroot, T_SUB), T_OC); break; }
    case S_CURSOR: {
      pb_cursor_t c = pb_cursor_create(&m, T_REPSUB); mc_check(pb_cursor_next(&c), "no second element");
      s = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c);
      dn *o[4]; dom_occ(sroot, T_REPSUB, o, 4, 0); snode = o[1]; break; }
    case S_FIELD: { pb_field_t f = pb_field_create(&m, T_BYTES); s = pb_message_create_from_field(&sc_desc, &f); pb_field_destroy(&f); snode = NULL; break; }
    case S_INVALID: { pb_cursor_t c = pb_cursor_create(&m, T_SUB); s = pb_message_create_from_cursor(&c); pb_cursor_destroy(&c); break; }
    case S_GROWN: {                                      /* every record by a put of its own */
      s = pb_message_copy(&m);
      for (const uint8_t *p = cd; p < cd + cn; ) {
        ref_rec r; int len; for (len = 1; ref_parse(p, len, &r, 1) != 1; len++); p += len;
        const pb_field_descriptor_t *f = ref_lookup(&sc_desc, r.tag); uint64_t v[2]; sc_value w;
        if (!f || f->type == PB_TYPE_MESSAGE || r.wt != ref_wiretype(f->type)) continue;
        if (r.wt == 2) { sc_value_str(&w, f->type, p - len + r.val, r.end - r.val); memcpy(v, &w.m.s, sizeof w.m.s); }
        else ref_unscalar(f->type, p - len + r.val, r.end - r.val, v);
        mc_check(!pb_message_put(&s, r.tag, v), "put of %u", r.tag);
      }
      sroot = snode = dom_parse(&sc_desc, sc_data(&SJ), sc_size(&SJ)); break; }
    default: s = pb_message_copy(&m);
  }
  if (kind == S_MOVED || kind == S_ERASED) {             /* the handle is behind now */
    x = dom_visible(sroot, T_SUB); uint32_t v = 70000;
    if (kind == S_ERASED) { mc_check(!pb_message_erase(&m, T_SUB), "erase"); dom_kill(x); }
    else { mc_check(!pb_message_put(&m, T_U32, &v), "put"); sc_value w = sc_scalar(PB_TYPE_UINT32, v); dom_value(dom_visible(sroot, T_U32), w.v, w.vl); }
    dom_tn = 0;
    mc_check(dom_same(sroot, sc_data(&SJ), sc_size(&SJ)), "source setup");
  }
  pb_message_destroy(&m);
  return s;
}
/* bytes the source stands for */
static size_t source_bytes(uint8_t *o) {
  if (!snode) { memcpy(o, cd, cn); return cn; }
  uint8_t *p = o; for (int i = 0; i < snode->nk; i++) p = dom_write(snode->kid[i], p);
  return p - o;
}

/* -- places ------------------------------------------------------------------- */

typedef struct { uint32_t path[2]; int depth; uint32_t tag; int cursor; const char *name; } place;
static const place places[] = { { { 0 }, 0, T_SUB, -1, "5" }, { { 0 }, 0, T_REPSUB, -1, "6" }, { { 0 }, 0, T_OC, -1, "9" }, { { T_SUB }, 1, T_SUB, -1, "5.5" },
  { { T_SUB }, 1, T_REPSUB, -1, "5.6" }, { { T_SUB, T_OC }, 2, T_SUB, -1, "5.9.5" }, { { 0 }, 0, T_SUB, 0, "cursor 5" }, { { 0 }, 0, T_REPSUB, 0, "cursor 6[0]" }, { { 0 }, 0, T_REPSUB, 1, "cursor 6[1]" }, { { 0 }, 0, T_OC, 0, "cursor 9" } };
enum { PLACES = sizeof places / sizeof *places };
static sc_bytes image[24]; static int nimage, recs;

static void check_target(const char *when) {
  dom_tn = 0;
  mc_check(dom_same(root, sc_data(&J), sc_size(&J)), "%s: the target is %s", when, mc_hex(sc_data(&J), sc_size(&J)));
}
static void check_source(const char *when) {
  if (!snode) return;
  dom_tn = 0;
  mc_check(dom_same(sroot, sc_data(&SJ), sc_size(&SJ)), "%s: the source is %s", when, mc_hex(sc_data(&SJ), sc_size(&SJ)));
}
static void submsg(void) {
  int kind = mc_choose(SOURCES), ci = mc_choose(ncontent + 2), pi = mc_choose(PLACES), len = mc_choose(recs + 1), oom = -1;
  uint8_t d[512]; size_t n = 0; char what[200];
  for (int i = 0; i < len; i++) { sc_bytes *b = &image[mc_choose(nimage)]; memcpy(d + n, b->d, b->n); n += b->n; }
  if (!mc_shard()) return;
  int alone = mc_choose(2);                              /* the source goes first */
  oom = mc_choose(4) - 1;
  if (ci < ncontent) { cd = content[ci].d; cn = content[ci].n; }
  else { cd = big; cn = ci == ncontent ? 127 : 300; bign = cn; big[0] = T_STR << 3 | 2; cn == 127 ? (big[1] = 125) : (big[1] = 0x80 | (297 & 127), big[2] = 297 >> 7); }
  dom_reset(); dom_tn = 0; fa_init(&FT); fa_init(&FS);
  root = dom_parse(&sc_desc, d, n);
  J = n ? pb_journal_create_with_allocator(&FT.a, d, n) : pb_journal_create_empty_with_allocator(&FT.a);
  pb_message_t m = pb_message_create(&sc_desc, &J), s = source(kind);
  const place *p = &places[pi]; uint32_t tags[4] = { p->path[0], p->path[1] }; tags[p->depth] = p->tag;
  int ok = kind != S_INVALID && kind != S_ERASED;
  sprintf(what, "putting %s to %s", sname[kind], p->name);
  mc_trace("%s: %s of %s", what, mc_hex(cd, cn), mc_hex(d, n));
  uint8_t want[1024]; size_t wn = source_bytes(want);
  snapshot();
  dn *occ[16], *x = NULL; pb_cursor_t c; pb_error_t e;
  if (p->cursor >= 0) {
    int k = p->tag == T_REPSUB ? dom_occ(root, p->tag, occ, 16, 0) : (occ[0] = dom_visible(root, p->tag), !!occ[0]);
    if (k <= p->cursor) goto out;
    x = occ[p->cursor]; c = pb_cursor_create(&m, p->tag); if (p->cursor) mc_check(pb_cursor_next(&c), "cursor");
  }
  int fs = FS.requests; mc_step();
  fa_arm(&FT, oom);
  e = x ? pb_cursor_put(&c, &s) : p->depth ? pb_message_nested_put(&m, tags, p->depth + 1, &s) : pb_message_put(&m, p->tag, &s);
  int failed = FT.failed; fa_arm(&FT, -1);
  if (x) pb_cursor_destroy(&c);
  mc_trace("  error %d -> %s", e, mc_hex(sc_data(&J), sc_size(&J)));
  mc_check(FS.requests == fs, "%s takes memory from the source's allocator", what);
  mc_check(source_same(), "%s changes the source into %s", what, mc_hex(sc_data(&SJ), sc_size(&SJ)));
  if (!ok) {
    mc_check(e, "%s succeeds", what);
    dn *home = root; for (int i = 0; home && i < p->depth; i++) home = dom_visible(home, p->path[i]);
    /* a path may have created what encloses the place */
    mc_check(failed || !home || target_same(), "%s is refused, but turns %s into %s", what, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
    goto out;
  }
  if (failed && e) goto out;                            /* P18 has more on this */
  mc_check(!e, "%s fails with %d", what, e);
  if (x) { dom_replace(x, want, wn); check_target(what); }
  else {
    dom_op o = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = tags, .depth = p->depth, .what = OP_PUT, .tag = p->tag, .v = want, .vl = wn };
    mc_check(dom_apply(&o), "%s of %s turns %s into %s", what, mc_hex(want, wn), mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
    x = o.hit;
  }
  uint64_t obs = 0; sc_read_all(&m, root, 2, &obs); mc_outcome(obs);
  mc_state(mc_hash(sc_data(&J), sc_size(&J), kind));
  if (alone) {
    pb_message_destroy(&s); pb_journal_destroy(&SJ); fa_done(&FS);
    sc_read_all(&m, root, 2, &obs);
  }
  /* updates of the target leave the source alone */
  uint32_t u = 300; pb_string_t st = { (uint8_t *)"target", 6 };
  sc_op up[3] = { { .what = OP_PUT, .tag = T_U32, .v = sc_scalar(PB_TYPE_UINT32, u) }, { .what = OP_PUT, .path = { p->path[0], p->path[1] }, .depth = p->depth + 1, .tag = T_STR },
    { .what = OP_ERASE, .path = { p->path[0], p->path[1] }, .depth = p->depth, .tag = p->tag } };
  up[1].path[p->depth] = p->tag; sc_value_str(&up[1].v, PB_TYPE_STRING, st.data, st.size);
  for (int i = 0; i < 3; i++) {
    if (i == 1 && p->tag == T_REPSUB) continue;
    if (i == 2 && !alone) break;
    sc_step(&J, &m, root, root, &up[i]);
    sc_read_all(&m, root, 1, &obs);
    if (!alone) check_source("after an update of the target");
  }
  /* and the other way round */
  if (!alone && kind != S_ZERO && snode) {
    snapshot();
    uint32_t none[1]; sc_op so[3] = { { .what = OP_PUT, .tag = T_U32, .v = sc_scalar(PB_TYPE_UINT32, 77777) }, { .what = OP_PUT, .tag = T_STR }, { .what = OP_ERASE, .tag = T_U32 } };
    sc_value_str(&so[1].v, PB_TYPE_STRING, (uint8_t *)"source", 6); (void)none;
    for (int i = 0; i < 3; i++) {
      e = sc_run(&s, &so[i]); mc_check(!e, "source %s fails with %d", sc_name(&so[i]), e);
      dom_op o = { .root = sroot, .after = sc_data(&SJ), .after_size = sc_size(&SJ), .what = so[i].what, .tag = so[i].tag, .v = sc_wire(&so[i].v), .vl = so[i].v.vl };
      mc_check(dom_try(&o, snode, 0), "source %s turns %s into %s", sc_name(&so[i]), mc_hex(sbefore, sn), mc_hex(sc_data(&SJ), sc_size(&SJ)));
      mc_check(target_same(), "%s of the source changes the target", sc_name(&so[i]));
      check_target("after an update of the source");
    }
    sc_read_all(&s, snode, 1, &obs);
  }
  if (alone) { pb_message_destroy(&m); pb_journal_destroy(&J); fa_done(&FT); return; }
out:
  pb_message_destroy(&s); pb_message_destroy(&m);
  pb_journal_destroy(&SJ); pb_journal_destroy(&J);
  fa_done(&FT); fa_done(&FS);
}
static mc_scenario list[] = {
  { "submsg", MC_DFS, submsg, .bound = "10 kinds of sources with 13 contents, 10 places in images of <= 1 (thorough: 2) of 14 records, each of the first 3 allocations failing, updates of either side afterwards" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); recs = th ? 2 : 1; memset(big, 'b', sizeof big);
  static const char *c[] = { "", "08 01", "12 01 61", "22 02 0102", "2a 02 0803", "a006 07", "08 05 12 00 18 01 18 02", "32 00 32 02 0801", "38 01", "42 01 7a 38 02", "808001 05" };
  for (size_t i = 0; i < sizeof c / sizeof *c; i++) content[ncontent++] = sc_rec(c[i], "");
  static const char *r[] = { "08 05", "2a 02 0801", "2a 00", "2a 04 2a02 0803", "2a 04 4a02 0803", "32 02 0802", "32 00 32 02 0801", "4a 02 0809", "42 01 7a", "4a 02 0809 38 01", "a006 01", "12 02 6162", "78 01", "2a 02 0801 2a 02 0802" };
  for (size_t i = 0; i < sizeof r / sizeof *r; i++) image[nimage++] = sc_rec(r[i], "");
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
