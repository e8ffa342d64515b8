/* Cursors: what an iteration visits, in which order and with which values, what
   seek, match and rewind find, and how it goes on when fields are written and
   erased through the cursor or behind its back while it runs. */
#include "schema.h"

typedef struct { uint32_t tag; sc_bytes rec[8]; int n; } family;
static family fam[16]; static int nfam;
static void F(uint32_t tag, const char **hex) {
  family *f = &fam[nfam++]; f->tag = tag;
  for (; *hex; hex++) f->rec[f->n++] = sc_rec(*hex, "");
}
#define FAM(tag, ...) do { static const char *x[] = { __VA_ARGS__, NULL }; F(tag, x); } while (0)

static sc_value S(pb_type_t t, const char *s, int n) { sc_value v; sc_value_str(&v, t, (const uint8_t *)s, n); return v; }
/* Values to write and look for; 0 to 2 occur in some record of the family */
static sc_value value_for(const pb_field_descriptor_t *f, int i) {
  static const char *str[] = { "q", "", "longer-text" }, *sub[] = { "\x08\x02", "", "\x2a\x02\x08\x07" };
  static const int sl[] = { 2, 0, 4 }; static const uint64_t num[] = { 2, 300, 1 };
  if (f->type == PB_TYPE_MESSAGE) return S(f->type, sub[i], sl[i]);
  if (f->type >= PB_TYPE_STRING) return S(f->type, str[i], strlen(str[i]));
  return sc_scalar(f->type, f->type == PB_TYPE_BOOL ? i & 1 : num[i]);
}

static pb_journal_t J; static dn *root, *m; static pb_message_t msg;
static uint8_t before[8192]; static size_t bn;
static uint32_t path[2] = { T_SUB, T_SUB }; static int wrap;

static void snapshot(void) { bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn); }
static int unchanged(void) { return sc_size(&J) == bn && (!bn || !memcmp(sc_data(&J), before, bn)); }

/* image: records of the family, inside `wrap` submessages with the same tags
   around them */
static int build(const family *f, int most, uint8_t *out) {
  int n = mc_choose(most + 1), size = 0; uint8_t in[512], t[512];
  for (int i = 0; i < n; i++) { const sc_bytes *b = &f->rec[mc_choose(f->n)]; memcpy(in + size, b->d, b->n); size += b->n; }
  for (int w = 0; w < wrap; w++) {
    int plain = f->tag == T_SUB ? 2 : 0; int o = 0;                    /* no other T_SUB around */
    const sc_bytes *l = &f->rec[plain], *r = &f->rec[plain ? plain : w ? 0 : f->n > 1];
    memcpy(t, l->d, l->n); o = l->n;
    t[o++] = 0x2a; o += ref_varint(t + o, size);
    memcpy(t + o, in, size); o += size;
    memcpy(t + o, r->d, r->n); o += r->n;
    memcpy(in, t, o); size = o;
  }
  memcpy(out, in, size);
  return size;
}
static int start(const family *f, int most) {
  uint8_t img[1024]; wrap = mc_choose(3);
  int size = build(f, most, img);
  if (!mc_shard()) return 0;
  dom_reset(); dom_tn = 0;
  root = dom_parse(&sc_desc, img, size);
  if (!root || !dom_same(root, img, size)) { fprintf(stderr, "bad image %s\n", mc_hex(img, size)); _exit(3); }
  m = root;
  for (int w = 0; w < wrap; w++) m = dom_visible(m, T_SUB);
  J = sc_open(img, size);
  msg = pb_message_create(&sc_desc, &J);
  mc_trace("image %s, depth %d", mc_hex(img, size), wrap);
  snapshot();
  return 1;
}
static void stop(void) {
  pb_message_destroy(&msg); pb_journal_destroy(&J);
}
static pb_cursor_t open_cursor(uint32_t tag) {
  uint32_t t[3] = { T_SUB, T_SUB, T_SUB };
  t[wrap] = tag; mc_step();
  if (!wrap) return tag ? pb_cursor_create(&msg, tag) : pb_cursor_create_without_tag(&msg);
  if (tag) return pb_cursor_create_nested(&msg, t, wrap + 1);
  t[wrap] = T_SUB;
  pb_message_t s = wrap == 1 ? pb_message_create_within(&msg, T_SUB) : pb_message_create_nested(&msg, t, wrap);
  pb_cursor_t c = pb_cursor_create_without_tag(&s);
  pb_message_destroy(&s);
  return c;
}

/* -- what a cursor points at ------------------------------------------------ */

static void at(pb_cursor_t *c, const dn *x, int pos, const char *when) {
  pb_type_t t = x->f->type; mc_step();
  mc_check(pb_cursor_valid(c), "%s: cursor is invalid (%d), should be at #%d", when, pb_cursor_error(c), x->id);
  mc_check(pb_cursor_tag(c) == x->tag, "%s: cursor reports tag %u, is at tag %u", when, pb_cursor_tag(c), x->tag);
  mc_check(pb_cursor_descriptor(c) == x->f, "%s: cursor reports the wrong field descriptor", when);
  if (pos >= 0) mc_check(c->pos == (size_t)pos, "%s: cursor reports position %zu, is at %d", when, c->pos, pos);
  if (t == PB_TYPE_MESSAGE) {
    pb_message_t s = pb_message_create_from_cursor(c);
    size_t n = dom_content(x);
    mc_check(pb_message_valid(&s), "%s: no submessage at the cursor", when);
    uint8_t *o = dom_buf; for (int i = 0; i < x->nk; i++) o = dom_write(x->kid[i], o);
    mc_check(pb_message_size(&s) == n && (!n || !memcmp(pb_journal_data_from(&J, pb_message_start(&s)), dom_buf, n)),
      "%s: the submessage at the cursor is not #%d", when, x->id);
    pb_message_destroy(&s);
  } else {
    uint64_t a[2], b[2];
    mc_check(sc_decode(x, a), "reference value");
    pb_error_t e = pb_cursor_get(c, b);
    mc_check(!e && sc_equal(t, a, b), "%s: cursor reads %s (error %d), #%d holds %s", when, e ? "-" : sc_show(t, b), e, x->id, sc_show(t, a));
    mc_check(pb_cursor_match(c, a), "%s: cursor does not match the value it reads", when);
    if (ref_wiretype(t) == 2) {
      pb_string_t *p = (pb_string_t *)a; static uint8_t longer[300];
      if (p->size && p->size < 290) {
        memcpy(longer, p->data, p->size); longer[p->size] = 0;
        pb_string_t q = { longer, p->size + 1 }; mc_check(!pb_cursor_match(c, &q), "%s: matches a longer string", when);
        q.size = p->size - 1; mc_check(!pb_cursor_match(c, &q), "%s: matches a shorter string", when);
        q.size = p->size; longer[p->size - 1] ^= 1; mc_check(!pb_cursor_match(c, &q), "%s: matches a different string", when);
      }
    } else { ((uint8_t *)a)[ref_size(t) - 1] ^= 1; mc_check(!pb_cursor_match(c, a), "%s: matches a different value", when); }
  }
}
static void over(pb_cursor_t *c, const char *when) {
  uint64_t a[2] = { 0, 0 }; pb_string_t s = { (uint8_t *)"x", 1 };
  mc_check(!pb_cursor_valid(c) && pb_cursor_error(c) == PB_ERROR_EOM, "%s: error is %d, expected the end", when, pb_cursor_error(c));
  mc_check(pb_cursor_tag(c) == 0, "%s: reports tag %u", when, pb_cursor_tag(c));
  mc_check(!pb_cursor_next(c) && pb_cursor_error(c) == PB_ERROR_EOM, "%s: goes on behind the end", when);
  mc_check(pb_cursor_get(c, a), "%s: reads behind the end", when);
  mc_check(!pb_cursor_match(c, &s), "%s: matches behind the end", when);
  mc_check(pb_cursor_put(c, &s), "%s: writes behind the end", when);
  mc_check(pb_cursor_erase(c), "%s: erases behind the end", when);
  mc_check(unchanged(), "%s: the message changed", when);
}

/* -- iterate: reading only ---------------------------------------------------- */

static int most = 3;
static void iterate(void) {
  const family *f = &fam[mc_choose(nfam)];
  if (!start(f, most)) return;
  dn *occ[64]; int n = dom_occ(m, f->tag, occ, 64, 0), first = 0;
  const pb_field_descriptor_t *fd = f->tag ? ref_lookup(&sc_desc, f->tag) : NULL;
  if (fd && fd->label != PB_LABEL_REPEATED) {
    dn *v = dom_visible(m, f->tag); first = n;
    for (int i = 0; i < n; i++) if (occ[i] == v) first = i;
  }
  pb_cursor_t c = open_cursor(f->tag);
  for (int i = first; i < n; i++) {
    at(&c, occ[i], i, "iterating");
    mc_check(pb_cursor_next(&c) == (i + 1 < n), "next says %s the end at %d of %d", i + 1 < n ? "it is" : "it is not", i, n);
  }
  over(&c, "after iterating");
  int r = pb_cursor_rewind(&c); mc_step();
  mc_check(r == (n > 0) && r == pb_cursor_valid(&c), "rewind returns %d with %d occurrences", r, n);
  for (int i = 0; i < n; i++) {
    at(&c, occ[i], i, "after rewinding");
    /* a copy goes its own way */
    pb_cursor_t d = pb_cursor_copy(&c);
    mc_check(pb_cursor_rewind(&d), "rewinding a copy");
    at(&d, occ[0], 0, "rewound copy"); at(&c, occ[i], i, "cursor whose copy moved");
    pb_cursor_destroy(&d);
    if (fd && fd->type != PB_TYPE_MESSAGE) for (int v = 0; v < n + 3; v++) {
      uint64_t a[2]; int k;
      if (v < n) { if (!sc_decode(occ[v], a)) continue; }
      else { sc_value sv = value_for(fd, v - n); memcpy(a, &sv.m, sizeof a); }
      for (k = i + 1; k < n; k++) { uint64_t b[2]; if (sc_decode(occ[k], b) && sc_equal(fd->type, a, b)) break; }
      pb_cursor_t s = pb_cursor_copy(&c);
      int got = pb_cursor_seek(&s, a); mc_step();
      mc_check(got == (k < n), "seek for %s from %d of %d returns %d", sc_show(fd->type, a), i, n, got);
      if (got) at(&s, occ[k], k, "after seek"); else over(&s, "after a seek in vain");
      pb_cursor_destroy(&s);
    }
    mc_check(pb_cursor_next(&c) == (i + 1 < n), "next says %s the end at %d of %d", i + 1 < n ? "it is" : "it is not", i, n);
  }
  over(&c, "after iterating again");
  mc_outcome(mc_hash(before, bn, f->tag)); mc_state(mc_hash(before, bn, f->tag * 3 + wrap));
  mc_check(unchanged(), "iterating changed the message");
  pb_cursor_destroy(&c);
  mc_check(!pb_cursor_valid(&c), "a destroyed cursor is valid");
  stop();
}

/* -- walk: writing while iterating ------------------------------------------ */

static int steps = 4;
static pb_cursor_t C; static dn *cur; static int pos, ids, ended; static const family *fa;

static void expect(int ok, const char *note) {
  mc_check(ok, "%s turns %s into %s, which is none of the results it may have", note,
    mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
  snapshot();
  mc_trace("  -> %s", mc_hex(before, bn));
}
/* Moves the model to the element the library went to, if it may */
static void moved(int more, const char *when) {
  mc_trace("next returns %d", more);
  dn *occ[64]; int n = dom_occ(m, fa->tag, occ, 64, 1), i = 0, dead = !dom_alive(cur);
  while (i < n && occ[i] != cur) i++;
  if (i == n) { fprintf(stderr, "lost element\n"); _exit(3); }
  for (i++; i < n; i++) {
    if (!dom_alive(occ[i])) continue;
    if (!dead || occ[i]->id < ids) break;
    /* added since the current one was erased: may count as in front or behind */
    if (!more) continue;
    uint64_t a[2], b[2]; pb_type_t t = occ[i]->f->type;
    if (pb_cursor_tag(&C) != occ[i]->tag) continue;
    if (t == PB_TYPE_MESSAGE) {
      pb_message_t s = pb_message_create_from_cursor(&C); size_t sz = dom_content(occ[i]);
      uint8_t *o = dom_buf; for (int q = 0; q < occ[i]->nk; q++) o = dom_write(occ[i]->kid[q], o);
      int same = pb_message_valid(&s) && pb_message_size(&s) == sz && !memcmp(pb_journal_data_from(&J, pb_message_start(&s)), dom_buf, sz);
      pb_message_destroy(&s);
      if (same) break; else continue;
    }
    if (sc_decode(occ[i], a) && !pb_cursor_get(&C, b) && sc_equal(t, a, b)) break;
  }
  mc_check(more == (i < n), "%s: next returns %d, %s", when, more, i < n ? "there is another one" : "there is none");
  if (i < n) { cur = occ[i]; pos++; ids = dom_ids; at(&C, cur, pos, when); }
  else { ended = 1; over(&C, when); }
}
static void now(const char *when) {
  if (ended) return;
  pb_cursor_t c = pb_cursor_copy(&C); uint64_t b[2]; mc_step();
  if (dom_alive(cur)) {
    if (cur->f->type != PB_TYPE_MESSAGE) {
      uint64_t a[2]; sc_decode(cur, a);
      pb_error_t e = pb_cursor_get(&c, b);
      mc_check(!e && sc_equal(cur->f->type, a, b), "%s: cursor reads %s (error %d), #%d holds %s", when, e ? "-" : sc_show(cur->f->type, b), e, cur->id, sc_show(cur->f->type, a));
    } else {
      pb_message_t s = pb_message_create_from_cursor(&c); size_t n = dom_content(cur);
      mc_check(pb_message_valid(&s) && pb_message_size(&s) == n, "%s: the submessage at the cursor is not #%d", when, cur->id);
      pb_message_destroy(&s);
    }
  } else {
    mc_check(pb_cursor_get(&c, b), "%s: erased, but the cursor reads", when);
    sc_value v = value_for(cur->f, 0);
    if (cur->f->type != PB_TYPE_MESSAGE) {
      mc_check(!pb_cursor_match(&c, &v.m), "%s: erased, but the cursor matches", when);
      mc_check(pb_cursor_put(&c, &v.m), "%s: erased, but the cursor writes", when);
    } else {
      pb_message_t s = pb_message_create_from_cursor(&c);
      mc_check(!pb_message_valid(&s), "%s: erased, but there is a submessage", when);
      pb_message_destroy(&s);
    }
    mc_check(unchanged(), "%s: using the erased cursor changes the message", when);
  }
  pb_cursor_destroy(&c);
}
static void put_sub(pb_error_t (*put)(const void *), const sc_value *v, pb_error_t *e) {
  pb_journal_t sj = sc_open(v->m.s.data, v->m.s.size); pb_message_t sm = pb_message_create(&sc_desc, &sj);
  *e = put(v->type == PB_TYPE_MESSAGE ? (const void *)&sm : (const void *)&v->m);
  pb_message_destroy(&sm); pb_journal_destroy(&sj);
}
static uint32_t put_tag;
static pb_error_t by_cursor(const void *v) { return pb_cursor_put(&C, v); }
static pb_error_t by_message(const void *v) {
  uint32_t t[3] = { T_SUB, T_SUB, T_SUB }; t[wrap] = put_tag;
  return wrap ? pb_message_nested_put(&msg, t, wrap + 1, v) : pb_message_put(&msg, put_tag, v);
}
static void message_put(uint32_t tag, int i) {
  const pb_field_descriptor_t *f = ref_lookup(&sc_desc, tag); sc_value v = value_for(f, i); pb_error_t e;
  mc_trace("put %u = %s", tag, mc_hex(sc_wire(&v), v.vl));
  put_tag = tag; put_sub(by_message, &v, &e);
  mc_check(!e, "put of %u fails with %d", tag, e);
  dom_op d = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = path, .depth = wrap,
    .what = OP_PUT, .tag = tag, .v = sc_wire(&v), .vl = v.vl };
  expect(dom_apply(&d), "put");
}
static void message_erase(uint32_t tag) {
  uint32_t t[3] = { T_SUB, T_SUB, T_SUB }; t[wrap] = tag;
  mc_trace("erase %u", tag);
  pb_error_t e = wrap ? pb_message_nested_erase(&msg, t, wrap + 1) : pb_message_erase(&msg, tag);
  mc_check(!e, "erase of %u fails with %d", tag, e);
  dom_op d = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = path, .depth = wrap, .what = OP_ERASE, .tag = tag };
  expect(dom_apply(&d), "erase");
}
static void rewound(int r) {
  dn *occ[64]; int n = dom_occ(m, fa->tag, occ, 64, 0);
  mc_check(r == (n > 0), "rewind returns %d with %d occurrences", r, n);
  ended = !n; pos = 0; ids = dom_ids;
  if (n) { cur = occ[0]; at(&C, cur, 0, "after rewinding"); }
  else over(&C, "after rewinding an empty one");
}
enum { NOPS = 13 };
/* 0: pointless here, ends the script */
static int act(int k) {
  int alive = !ended && dom_alive(cur); pb_error_t e; char note[100];
  mc_step();
  switch (k) {
  case 0: if (ended) return 0; mc_trace("next"); moved(pb_cursor_next(&C), "next"); return 1;
  case 1: mc_trace("rewind"); rewound(pb_cursor_rewind(&C)); return 1;
  case 2: case 3: {
    if (!fa->tag || ended || cur->f->type == PB_TYPE_MESSAGE) return 0;
    sc_value v = value_for(cur->f, k - 2); uint64_t b[2]; int found;
    mc_trace("seek %s", mc_hex(sc_wire(&v), v.vl));
    if (!alive) return 0;
    found = pb_cursor_seek(&C, &v.m);
    dn *occ[64]; int n = dom_occ(m, fa->tag, occ, 64, 0), i = 0;
    while (occ[i] != cur) i++;
    for (i++, pos++; i < n; i++, pos++) if (sc_decode(occ[i], b) && sc_equal(cur->f->type, b, &v.m)) break;
    mc_check(found == (i < n), "seek returns %d", found);
    if (found) { cur = occ[i]; ids = dom_ids; at(&C, cur, pos, "after seek"); } else { ended = 1; over(&C, "after seek"); }
    return 1; }
  case 4: case 5: case 6: {
    if (ended) return 0;
    sc_value v = value_for(cur->f, k - 4);
    sprintf(note, "put %.60s through the cursor", mc_hex(sc_wire(&v), v.vl)); mc_trace("%s", note);
    put_sub(by_cursor, &v, &e);
    if (!alive) { mc_check(e && unchanged(), "%s: erased, but succeeds", note); return 1; }
    mc_check(!e, "%s fails with %d", note, e);
    dom_replace(cur, sc_wire(&v), v.vl); dom_tn = 0;
    expect(dom_same(root, sc_data(&J), sc_size(&J)), note);
    return 1; }
  case 7:
    if (ended) return 0;
    mc_trace("erase through the cursor");
    e = pb_cursor_erase(&C);
    if (!alive) { mc_check(unchanged(), "erasing twice changes the message"); return 1; }
    mc_check(!e, "erasing through the cursor fails with %d", e);
    ids = dom_ids;
    expect(dom_erase_one(root, cur, sc_data(&J), sc_size(&J)), "erasing through the cursor");
    return 1;
  case 8: message_put(fa->tag ? fa->tag : T_REP, 1); return 1;
  case 9: message_erase(fa->tag ? fa->tag : T_REP); return 1;
  case 10: message_put(T_STR, 2); return 1;
  case 11: if (!dom_last(m, T_STR)) return 0; message_erase(T_STR); return 1;
  case 12: {                                             /* through the submessage at the cursor */
    if (!alive || cur->f->type != PB_TYPE_MESSAGE) return 0;
    pb_message_t s = pb_message_create_from_cursor(&C); uint32_t v = 70000; uint8_t w[8]; int vl = ref_varint(w, v);
    mc_trace("put into the submessage at the cursor");
    e = pb_message_put(&s, T_U32, &v);
    mc_check(!e, "put into the submessage at the cursor fails with %d", e);
    pb_message_destroy(&s);
    dom_op d = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .what = OP_PUT, .tag = T_U32, .v = w, .vl = vl };
    int ok = dom_try(&d, cur, 0); dom_tn = 0;
    expect(ok, "put into the submessage");
    return 1; }
  }
  return 0;
}
static int walk_most = 2;
static void walk(void) {
  fa = &fam[mc_choose(nfam)];
  if (!start(fa, walk_most)) return;
  dn *occ[64]; int n = dom_occ(m, fa->tag, occ, 64, 0);
  const pb_field_descriptor_t *fd = fa->tag ? ref_lookup(&sc_desc, fa->tag) : NULL;
  dn *first = fd && fd->label != PB_LABEL_REPEATED ? dom_visible(m, fa->tag) : n ? occ[0] : NULL;
  C = open_cursor(fa->tag); ended = !first; pos = 0; ids = dom_ids; cur = first;
  if (first) { while (occ[pos] != first) pos++; at(&C, first, pos, "at first"); } else over(&C, "at first");
  for (int s = 0; s < steps; s++) {
    if (!act(mc_choose(NOPS))) break;
    now("afterwards");
    mc_state(mc_hash(before, bn, (ended ? 0 : cur->id) * 64 + pos));
  }
  /* whatever happened, the rest is complete */
  for (int i = 0; !ended && i < 64; i++) moved(pb_cursor_next(&C), "going on to the end");
  rewound(pb_cursor_rewind(&C));
  for (int i = 0; !ended && i < 64; i++) moved(pb_cursor_next(&C), "again from the start");
  mc_outcome(mc_hash(before, bn, fa->tag));
  pb_cursor_destroy(&C);
  stop();
}

static mc_scenario list[] = {
  { "iterate", MC_DFS, iterate, .bound = "12 kinds of cursors on messages of <= 4 (thorough: 5) records at 3 depths, every seek from every position" },
  { "walk", MC_DFS, walk, .bound = "12 kinds of cursors on messages of <= 2 (thorough: 3) records at 3 depths, every script of 3 (thorough: 4) of 13 steps" },
  { NULL }
};
static void setup(int th) {
  sc_setup();
  FAM(T_REP, "18 01", "18 ac02", "1a 02 0203", "12 02 6162", "a006 01");
  FAM(T_PACK, "22 02 0102", "20 ac02", "22 00", "22 03 ac0205", "12 00", "08 02");
  FAM(T_REPSUB, "32 02 0802", "32 00", "32 06 0801 32 02 0802", "12 02 6162", "2a 00");
  FAM(T_REPSTR, "8a01 01 71", "8a01 00", "8a01 03 717171", "12 01 71", "18 02");
  FAM(T_PF32, "62 04 02000000", "65 2c010000", "62 08 01000000 2c010000", "12 01 71");
  FAM(T_RI64, "a001 01", "a001 ffffffffffffffffff01", "a201 02 01 02", "12 01 71");
  FAM(T_U32, "08 02", "08 ac02", "12 01 71", "18 02");
  FAM(T_STR, "12 01 71", "12 00", "12 03 717171", "08 02");
  FAM(T_SUB, "2a 00", "2a 02 0802", "08 02", "2a 04 2a02 0803");
  FAM(T_OB, "42 01 71", "38 02", "42 00", "4a 02 0801", "08 01");
  FAM(T_XX, "808001 05", "808001 ac02", "12 01 71");
  FAM(0, "18 01", "22 02 0102", "12 01 71", "a006 01", "32 02 0802", "38 02", "2200");
  most = th ? 5 : 4; steps = th ? 4 : 3; walk_most = th ? 3 : 2;
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
