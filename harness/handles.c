/* Live handles (messages, fields, cursors, oneofs) while others update.
   Every handle that can be opened on the image is open; then every sequence of
   operations through any of them runs, and after each one every handle has to
   behave as the element of the reference tree it was opened on. */
#include "schema.h"
#include "falloc.h"

enum { HM, HF, HC, HO };
typedef struct hnd {
  int kind, ids; dn *x, *m;           /* element, and message it belongs to */
  uint32_t tag;
  pb_message_t msg; pb_field_t f; pb_cursor_t c; pb_oneof_t o;
} hnd;
static hnd H[64]; static int nh;

static struct { uint8_t d[700]; int n; } rec[40]; static int nrec;
static void R(const char *hex) {
  int n = 0;
  while (*hex) {
    if (*hex == ' ') { hex++; continue; }
    if (*hex == '*') {                                   /* *NN: filler text */
      int k = atoi(hex + 1); hex++; while (*hex >= '0' && *hex <= '9') hex++;
      while (k--) rec[nrec].d[n++] = 'p';
      continue;
    }
    unsigned x; sscanf(hex, "%2x", &x); rec[nrec].d[n++] = x; hex += 2;
  }
  rec[nrec++].n = n;
}

/* -- operations ------------------------------------------------------------ */

enum { A_PUT, A_ERASE, A_TOUCH, A_FIELD, A_CLEAR, F_PUT, F_CLEAR, C_PUT, C_ERASE, O_CLEAR };
typedef struct hop { int what, depth; uint32_t path[2], tag; sc_value v; } hop;
static hop mop[64]; static int nmop;
static sc_value fval[16]; static int nfval;
static void M(int what, uint32_t tag, sc_value v) { mop[nmop++] = (hop){ what, 0, { 0 }, tag, v }; }
static void N(int what, uint32_t p, uint32_t q, uint32_t tag, sc_value v) { mop[nmop++] = (hop){ what, q ? 2 : 1, { p, q }, tag, v }; }
static sc_value U(uint64_t x) { return sc_scalar(PB_TYPE_UINT32, x); }
static sc_value S(pb_type_t t, const char *s, int n) { sc_value v; sc_value_str(&v, t, (const uint8_t *)s, n); return v; }
#define STR(s) S(PB_TYPE_STRING, s, sizeof s - 1)
#define MSG(s) S(PB_TYPE_MESSAGE, s, sizeof s - 1)
static char filler[400];

/* With `emb` the library knows field T_SUB as bytes, over which messages are
   created with pb_message_create_from_field */
static int emb; static pb_descriptor_t emb_desc; static pb_field_descriptor_t emb_field[32];
static const pb_descriptor_t *lib(void) { return emb ? &emb_desc : &sc_desc; }
static int is_bytes(const dn *x) { return emb && x->tag == T_SUB; }

static pb_journal_t J; static dn *root;
static uint8_t before[1 << 16]; static size_t before_n;

/* -- opening --------------------------------------------------------------- */

static hnd *add(int kind, dn *x, dn *m, uint32_t tag) {
  if (nh == 64) { fprintf(stderr, "too many handles\n"); _exit(3); }
  hnd *h = &H[nh++]; memset(h, 0, sizeof *h);
  h->kind = kind; h->x = x; h->m = m; h->tag = tag; h->ids = dom_ids;
  return h;
}
static int want;                                        /* bit set of kinds */
static void open_all(dn *m, pb_message_t *msg, int depth) {
  int me = nh;
  hnd *h = add(HM, m, m, 0); h->msg = pb_message_copy(msg);
  if (want >> HO & 1) { h = add(HO, m, m, 0); h->o = pb_oneof_create(sc_oneof, msg); }
  for (size_t i = 0; i < sc_desc.field.size; i++) {
    const pb_field_descriptor_t *f = &sc_field[i];
    dn *occ[16]; int n;
    if (f->label == PB_LABEL_REPEATED) n = dom_occ(m, f->tag, occ, 16, 0);
    else { occ[0] = dom_visible(m, f->tag); n = !!occ[0]; }
    for (int k = 0; k < n; k++) {
      pb_cursor_t c = pb_cursor_create(&H[me].msg, f->tag);
      for (int s = 0; s < k; s++) mc_check(pb_cursor_next(&c), "cursor on %u stops early", f->tag);
      mc_check(pb_cursor_valid(&c), "no cursor on %u", f->tag);
      if (f->type == PB_TYPE_MESSAGE) {
        pb_message_t s;
        if (is_bytes(occ[k])) {
          h = add(HF, occ[k], m, f->tag); h->f = pb_field_create_from_cursor(&c);
          mc_check(pb_field_valid(&h->f), "no field at %u", f->tag);
          s = pb_message_create_from_field(&emb_desc, &h->f);
        } else s = pb_message_create_from_cursor(&c);
        mc_check(pb_message_valid(&s), "no message at %u", f->tag);
        if (want >> HC & 1) { h = add(HC, occ[k], m, f->tag); h->c = c; }
        if (depth) open_all(occ[k], &s, depth - 1);
      } else {
        if (want >> HF & 1) { h = add(HF, occ[k], m, f->tag); h->f = pb_field_create_from_cursor(&c);
          mc_check(pb_field_valid(&h->f), "no field at %u", f->tag); }
        if (want >> HC & 1) { h = add(HC, occ[k], m, f->tag); h->c = c; }
      }
    }
  }
}

/* -- checking -------------------------------------------------------------- */

/* the bytes a field over an embedded message has to hold */
static int want_value(const dn *x, void *mem) {
  static uint8_t buf[4][4096]; static int r;
  if (!is_bytes(x)) return sc_decode(x, mem);
  uint8_t *b = buf[r++ & 3], *o = b;
  for (int i = 0; i < x->nk; i++) o = dom_write(x->kid[i], o);
  pb_string_t s = { b, (size_t)(o - b) };
  memcpy(mem, &s, sizeof s);
  return 1;
}
static pb_type_t type_of(const dn *x) { return is_bytes(x) ? PB_TYPE_BYTES : x->f->type; }
static const char *what_of(const hnd *h) {
  static char b[8][80]; static int r; char *s = b[r++ & 7];
  static const char *k[] = { "message", "field", "cursor", "oneof" };
  sprintf(s, "%s#%d on element #%d (tag %u)", k[h->kind], (int)(h - H), h->x->id, h->x->tag);
  return s;
}
static void light(pb_message_t *msg, dn *m, const char *who) {
  static const uint32_t tags[] = { T_U32, T_STR, T_REP, T_PACK, T_SUB, T_REPSUB, T_OA, T_OB, T_OC, T_REPSTR, T_UD };
  mc_check(pb_message_valid(msg), "%s is invalid, its element lives", who);
  for (size_t i = 0; i < sizeof tags / sizeof *tags; i++) {
    const pb_field_descriptor_t *f = ref_lookup(m->desc, tags[i]);
    dn *occ[16], *x; int n = dom_occ(m, tags[i], occ, 16, 0);
    x = f->label == PB_LABEL_REPEATED ? (n ? occ[0] : NULL) : dom_visible(m, tags[i]);
    pb_cursor_t c = pb_cursor_create(msg, tags[i]); mc_step();
    mc_check(pb_cursor_valid(&c) == !!x, "%s: tag %u is %s, the tree says %s", who, tags[i],
      pb_cursor_valid(&c) ? "present" : "absent", x ? "present" : "absent");
    if (x && type_of(x) != PB_TYPE_MESSAGE) {
      uint64_t a[2], b[2];
      mc_check(want_value(x, a), "reference value");
      pb_error_t e = pb_cursor_get(&c, b);
      mc_check(!e && sc_equal(type_of(x), a, b), "%s: tag %u reads %s (error %d), the tree holds %s", who, tags[i],
        e ? "-" : sc_show(type_of(x), b), e, sc_show(type_of(x), a));
    }
    pb_cursor_destroy(&c);
  }
}
static void dead_message(pb_message_t *msg, const char *who) {
  uint32_t v = 5; pb_message_t s;
  mc_check(!pb_message_has(msg, T_U32) && !pb_message_has(msg, T_STR) && !pb_message_has(msg, T_SUB), "%s: erased, but still has fields", who);
  mc_check(pb_message_get(msg, T_UD, &v), "%s: erased, but reads a value", who);
  s = pb_message_create_within(msg, T_OC);
  mc_check(!pb_message_valid(&s), "%s: erased, but a submessage can be created in it", who);
  pb_message_destroy(&s);
  mc_check(pb_message_put(msg, T_U32, &v), "%s: erased, but a put succeeds", who);
  pb_message_erase(msg, T_U32);
}
static void check(const hnd *h) {
  const char *who = what_of(h); int alive = dom_alive(h->x);
  if (h->kind == HM) {
    pb_message_t c = pb_message_copy(&h->msg);
    if (alive) light(&c, h->x, who); else dead_message(&c, who);
    pb_message_destroy(&c);
  } else if (h->kind == HO) {
    pb_oneof_t o = h->o; pb_tag_t t = pb_oneof_case(&o);
    dn *a = alive ? dom_active(h->x, sc_oneof) : NULL;
    mc_check(t == (a ? a->tag : 0), "%s: case %u, expected %u", who, t, a ? a->tag : 0);
    pb_oneof_destroy(&o);
  } else if (h->kind == HF) {
    pb_field_t f = pb_field_copy(&h->f); uint64_t a[2], b[2];
    pb_error_t e = pb_field_get(&f, b); pb_type_t t = type_of(h->x);
    if (alive) {
      mc_check(want_value(h->x, a), "reference value");
      mc_check(!e && sc_equal(t, a, b), "%s reads %s (error %d), its element holds %s", who, e ? "-" : sc_show(t, b), e, sc_show(t, a));
      mc_check(pb_field_match(&f, a), "%s does not match its value", who);
    } else {
      mc_check(e, "%s: erased, but reads %s", who, sc_show(t, b));
      mc_check(!pb_field_match(&f, ref_wiretype(t) == 2 ? (void *)&sc_def_str : (void *)a), "%s: erased, but matches", who);
    }
    pb_field_destroy(&f);
  } else {
    pb_cursor_t c = pb_cursor_copy(&h->c); uint64_t a[2], b[2]; pb_type_t t = type_of(h->x);
    dn *occ[64]; int n, i;
    if (t == PB_TYPE_MESSAGE) {
      pb_message_t s = pb_message_create_from_cursor(&c);
      if (alive) light(&s, h->x, who);
      else { dead_message(&s, who); }
      pb_message_destroy(&s);
    } else {
      pb_error_t e = pb_cursor_get(&c, b);
      if (alive) {
        mc_check(want_value(h->x, a), "reference value");
        mc_check(!e && sc_equal(t, a, b), "%s reads %s (error %d), its element holds %s", who, e ? "-" : sc_show(t, b), e, sc_show(t, a));
      } else mc_check(e, "%s: erased, but reads %s", who, sc_show(t, b));
    }
    if (h->x->f->label == PB_LABEL_REPEATED && dom_alive(h->m)) {
      n = dom_occ(h->m, h->tag, occ, 64, 1); i = 0;
      while (i < n && occ[i] != h->x) i++;
      if (i == n) { fprintf(stderr, "lost element\n"); _exit(3); }
      i++;
      for (;;) {
        /* skip the dead; when the current element is dead, elements that were
           added since may be in front of or behind the cursor */
        int more = pb_cursor_next(&c); mc_step();
        while (i < n && !dom_alive(occ[i])) i++;
        if (more && !alive && t != PB_TYPE_MESSAGE) {
          pb_error_t e = pb_cursor_get(&c, b);
          mc_check(!e, "%s: element behind cannot be read", who);
          while (i < n && (!dom_alive(occ[i]) || (occ[i]->id >= h->ids && !(want_value(occ[i], a) && sc_equal(t, a, b))))) i++;
        } else if (!alive) while (i < n && (!dom_alive(occ[i]) || (!more && occ[i]->id >= h->ids))) i++;
        if (!more) {
          mc_check(i == n, "%s: iteration ends in front of element #%d", who, i < n ? occ[i]->id : 0);
          mc_check(pb_cursor_error(&c) == PB_ERROR_EOM, "%s: iteration ends with error %d", who, pb_cursor_error(&c));
          break;
        }
        mc_check(i < n, "%s: iteration goes on behind the last element", who);
        if (t == PB_TYPE_MESSAGE) {
          pb_message_t s = pb_message_create_from_cursor(&c);
          light(&s, occ[i], who); pb_message_destroy(&s);
        } else {
          pb_error_t e = pb_cursor_get(&c, b);
          mc_check(want_value(occ[i], a), "reference value");
          mc_check(!e && sc_equal(t, a, b), "%s: next element reads %s (error %d), #%d holds %s", who, e ? "-" : sc_show(t, b), e, occ[i]->id, sc_show(t, a));
        }
        i++;
      }
    }
    pb_cursor_destroy(&c);
  }
  mc_check(sc_size(&J) == before_n && (!before_n || !memcmp(sc_data(&J), before, before_n)), "%s: using it changed %s into %s", who,
    mc_hex(before, before_n), mc_hex(sc_data(&J), sc_size(&J)));
}

/* -- acting ---------------------------------------------------------------- */

static int replaced;
static void expect(int ok, const char *note) {
  mc_check(ok, "%s turns %s into %s, which is none of the results it may have", note,
    mc_hex(before, before_n), mc_hex(sc_data(&J), sc_size(&J)));
}
static int unchanged(void) {
  return sc_size(&J) == before_n && (!before_n || !memcmp(sc_data(&J), before, before_n));
}
static fa F; static int faulty, lost;
/* Did the operation give up because the allocator failed? */
static int fault(pb_error_t e) {
  if (!faulty || !F.failed) return 0;
  F.fail_at = -1;
  if (!e) return 0;
  lost = !unchanged();
  return 1;
}
static void snapshot(void) { before_n = sc_size(&J); if (before_n) memcpy(before, sc_data(&J), before_n); }

/* number of operations handle h offers */
static int offers(const hnd *h) {
  switch (h->kind) {
    case HM: return nmop + (h->x->kind != D_ROOT);
    case HF: return is_bytes(h->x) ? 4 : h->x->f->type == PB_TYPE_STRING ? 5 : 4;
    case HC: return h->x->f->type == PB_TYPE_MESSAGE ? 4 : 3;
  }
  return 1;
}
/* values for a field of type t */
static sc_value value_for(pb_type_t t, int i) {
  static const uint64_t num[] = { 1, 70000, 200 };
  if (t == PB_TYPE_STRING) {
    if (i == 0) return STR("");
    if (i == 1) return STR("longer-text");
    sc_value v; sc_value_str(&v, t, (uint8_t *)filler, i == 2 ? 130 : 8); return v;
  }
  return sc_scalar(t, num[i]);
}
static int act(hnd *h, int k) {                          /* 0: skipped */
  int alive = dom_alive(h->x); pb_error_t e; char note[300];
  mc_step();
  if (h->kind == HM) {
    if (k == nmop) {
      snprintf(note, sizeof note, "clearing %s", what_of(h)); mc_trace("%s", note);
      e = pb_message_clear(&h->msg);
      if (!alive) { mc_check(e && unchanged(), "%s: erased, but clears (error %d)", note, e); return 1; }
      if (fault(e)) return 2;
      mc_check(!e, "%s fails with %d", note, e);
      expect(dom_erase_one(root, h->x, sc_data(&J), sc_size(&J)), note);
      return 1;
    }
    const hop *o = &mop[k]; uint32_t tags[3]; memcpy(tags, o->path, sizeof o->path); tags[o->depth] = o->tag;
    const void *val = &o->v.m; pb_journal_t sj; pb_message_t sm; int sub = o->what == A_PUT && o->v.type == PB_TYPE_MESSAGE;
    if (emb && (o->depth || (o->what == A_TOUCH && o->tag == T_SUB))) return 0;
    if (emb && o->tag == T_SUB) sub = 0;
    snprintf(note, sizeof note, "%s%s %u.%u.%u %s through %s", o->what == A_PUT ? "put" : o->what == A_ERASE ? "erase" :
      o->what == A_FIELD ? "field" : "create", o->depth ? " nested" : "", tags[0], o->depth ? tags[1] : 0, o->depth > 1 ? tags[2] : 0,
      o->what == A_PUT ? mc_hex(sc_wire(&o->v), o->v.vl > 12 ? 12 : o->v.vl) : "", what_of(h));
    if (sub) {
      const pb_field_descriptor_t *fd = ref_lookup(h->x->desc, o->tag);
      int existing = alive && fd->label != PB_LABEL_REPEATED && dom_last(h->x, o->tag);
      if (existing) replaced = 1;
      sj = sc_open(o->v.m.s.data, o->v.m.s.size); sm = pb_message_create(lib(), &sj); val = &sm;
    }
    mc_trace("%s", note);
    if (o->what == A_PUT) e = o->depth ? pb_message_nested_put(&h->msg, tags, o->depth + 1, val) : pb_message_put(&h->msg, o->tag, val);
    else if (o->what == A_ERASE) e = o->depth ? pb_message_nested_erase(&h->msg, tags, o->depth + 1) : pb_message_erase(&h->msg, o->tag);
    else if (o->what == A_FIELD) {
      pb_field_t f = o->depth ? pb_field_create_nested(&h->msg, tags, o->depth + 1) : pb_field_create(&h->msg, o->tag);
      e = pb_field_error(&f); pb_field_destroy(&f);
    } else {
      pb_message_t s = o->depth ? pb_message_create_nested(&h->msg, tags, o->depth + 1) : pb_message_create_within(&h->msg, o->tag);
      e = pb_message_error(&s); pb_message_destroy(&s);
    }
    if (sub) { pb_message_destroy(&sm); pb_journal_destroy(&sj); }
    if (!alive) {
      mc_check(o->what == A_ERASE || e, "%s: erased, but succeeds", note);
      mc_check(unchanged(), "%s: erased, but changes the message", note);
      return 1;
    }
    if (fault(e)) return 2;
    mc_check(!e, "%s fails with %d on %s", note, e, mc_hex(before, before_n));
    dom_op d = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = o->path, .depth = o->depth,
      .what = o->what == A_PUT ? OP_PUT : o->what == A_ERASE ? OP_ERASE : OP_TOUCH, .tag = o->tag, .v = sc_wire(&o->v), .vl = o->v.vl };
    if (o->what == A_FIELD) {                            /* a present field keeps its value */
      dn *x = h->x;
      for (int i = 0; x && i < o->depth; i++) x = dom_visible(x, o->path[i]);
      if (x && (x = dom_last(x, o->tag)) && x->vl) {
        if (!dom_group(x->f)) { expect(unchanged(), note); return 1; }
        d.v = x->v; d.vl = x->vl;
      }
      d.what = OP_PUT;
    }
    int ok = dom_try(&d, h->x, 0); dom_tn = 0;
    expect(ok, note);
    return 1;
  }
  if (h->kind == HO) {
    mc_trace("clearing %s", what_of(h));
    e = pb_oneof_clear(&h->o);
    if (!alive) { mc_check(unchanged(), "%s: erased, but clears", what_of(h)); return 1; }
    if (fault(e)) return 2;
    mc_check(!e, "clearing %s fails with %d", what_of(h), e);
    dom_op d = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .what = OP_ERASE, .tag = T_OA };
    int ok = dom_try(&d, h->x, 0); dom_tn = 0;
    expect(ok, "clearing a oneof");
    return 1;
  }
  pb_type_t t = h->x->f->type; int n = offers(h);
  if (k == n - 1) {
    snprintf(note, sizeof note, "erasing %s", what_of(h)); mc_trace("%s", note);
    e = h->kind == HF ? pb_field_clear(&h->f) : pb_cursor_erase(&h->c);
    if (!alive) { mc_check(unchanged(), "%s: erased before, but changes the message", note); return 1; }
    if (fault(e)) return 2;
    mc_check(!e, "%s fails with %d", note, e);
    expect(dom_erase_one(root, h->x, sc_data(&J), sc_size(&J)), note);
    return 1;
  }
  if (t == PB_TYPE_MESSAGE) {
    static const char *m[] = { "", "\x08\x02", "\x2a\x02\x08\x07" }; static const int ml[] = { 0, 2, 4 };
    if (alive) replaced = 1;
    pb_journal_t sj = sc_open((uint8_t *)m[k], ml[k]); pb_message_t sm = pb_message_create(lib(), &sj);
    pb_string_t str = { (uint8_t *)m[k], ml[k] };
    snprintf(note, sizeof note, "put %s through %s", mc_hex(m[k], ml[k]), what_of(h)); mc_trace("%s", note);
    e = h->kind == HF ? pb_field_put(&h->f, &str) : pb_cursor_put(&h->c, is_bytes(h->x) ? (void *)&str : (void *)&sm);
    pb_message_destroy(&sm); pb_journal_destroy(&sj);
    if (!alive) { mc_check(e && unchanged(), "%s: erased, but succeeds", note); return 1; }
  if (fault(e)) return 2;
    mc_check(!e, "%s fails with %d", note, e);
    dom_replace(h->x, (uint8_t *)m[k], ml[k]); dom_tn = 0;
    expect(dom_same(root, sc_data(&J), sc_size(&J)), note);
    return 1;
  }
  sc_value v = value_for(t, k);
  snprintf(note, sizeof note, "put %s through %s", mc_hex(sc_wire(&v), v.vl > 12 ? 12 : v.vl), what_of(h)); mc_trace("%s", note);
  e = h->kind == HF ? pb_field_put(&h->f, &v.m) : pb_cursor_put(&h->c, &v.m);
  if (!alive) { mc_check(e && unchanged(), "%s: erased, but succeeds", note); return 1; }
  if (fault(e)) return 2;
  mc_check(!e, "%s fails with %d", note, e);
  dom_value(h->x, sc_wire(&v), v.vl); dom_tn = 0;
  expect(dom_same(root, sc_data(&J), sc_size(&J)), note);
  return 1;
}

/* After a half done operation: must merely be safe */
static void use(hnd *h) {
  uint64_t v[2] = { 0, 0 }; mc_step();
  if (h->kind == HM) {
    pb_message_t c = pb_message_copy(&h->msg);
    pb_message_has(&c, T_STR); pb_message_match(&c, T_REP, v); if (pb_message_get(&c, T_UD, v)) return;
    pb_message_destroy(&c);
  } else if (h->kind == HO) { pb_oneof_t o = h->o; pb_oneof_case(&o); pb_oneof_destroy(&o); }
  else if (h->kind == HF) { pb_field_t f = pb_field_copy(&h->f); if (pb_field_get(&f, v)) return; pb_field_destroy(&f); }
  else { pb_cursor_t c = pb_cursor_copy(&h->c); while (pb_cursor_next(&c)) if (pb_cursor_get(&c, v)) break; pb_cursor_destroy(&c); }
}
static int recs_max = 2, ops_max = 2, kinds = 15, rec_lo, rec_hi, by_hi = 99;
static void run(int recs, int ops) {
  uint8_t img[4096]; int size = 0;
  int n = mc_choose(recs) + 1;
  for (int i = 0; i < n; i++) { int r = rec_lo + mc_choose(rec_hi - rec_lo); memcpy(img + size, rec[r].d, rec[r].n); size += rec[r].n; }
  for (int i = 0, seen = 0; i < n; i++) {        /* which of two equal members goes is not observable */
    int r = mc_me->choice[i + 1] + rec_lo;
    if (rec[r].d[0] == 0x38 || rec[r].d[0] == 0x42 || rec[r].d[0] == 0x4a) { if (seen >> r & 1) return; seen |= 1 << r; }
  }
  int first = mc_choose(nmop + 1);
  if (!mc_shard()) return;
  dom_reset(); dom_tn = 0; nh = 0; replaced = 0;
  root = dom_parse(&sc_desc, img, size);
  if (!root || !dom_same(root, img, size)) { fprintf(stderr, "bad image %s\n", mc_hex(img, size)); _exit(3); }
  fa_init(&F);
  J = !faulty ? sc_open(img, size) : pb_journal_create_with_allocator(&F.a, img, size);
  pb_message_t msg = pb_message_create(lib(), &J);
  want = kinds; open_all(root, &msg, 2);
  mc_trace("image %s, %d handles", mc_hex(img, size), nh);
  if (mc_tracing) dom_print(root, 0);
  snapshot();
  for (int s = 0; s < ops; s++) {
    int a = 0, k = first;
    if (s || first == nmop) {
      /* every handle, every operation it offers, other than the first handle's */
      int total = 0, c;
      for (int i = s ? 0 : 1; i < nh; i++) total += offers(&H[i]);
      if (!s && offers(&H[0]) > nmop) total += offers(&H[0]) - nmop;
      if (!total) break;
      c = mc_choose(total);
      for (a = s ? 0 : 1; c >= offers(&H[a]); a++) c -= offers(&H[a]);
      k = c;
    }
    if (!faulty) { if (!act(&H[a], k)) break; }
    else {
      int n; fa_arm(&F, mc_choose(14)); lost = 0;
      mc_trace("request %d fails", F.fail_at);
      n = act(&H[a], k); F.fail_at = -1;
      if (!n || !F.failed) break;                        /* no such request */
      if (lost) { for (int i = 0; i < nh; i++) use(&H[i]); break; }
      if (n == 2) {
        mc_trace("  gave up");
        for (int i = 0; i < nh; i++) check(&H[i]);       /* as if nothing happened */
        F.failed = 0;
        act(&H[a], k);
      }
    }
    mc_trace("  -> %s", mc_hex(sc_data(&J), sc_size(&J)));
    snapshot();
    for (int i = 0; i < nh; i++) check(&H[i]);
    mc_state(mc_hash(sc_data(&J), sc_size(&J), nh));
  }
  mc_outcome(mc_hash(before, before_n, 1));
  for (int i = 0; i < nh; i++)
    if (H[i].kind == HM) pb_message_destroy(&H[i].msg); else if (H[i].kind == HF) pb_field_destroy(&H[i].f);
    else if (H[i].kind == HO) pb_oneof_destroy(&H[i].o); else pb_cursor_destroy(&H[i].c);
  pb_message_destroy(&msg);
  pb_journal_destroy(&J);
  fa_done(&F);
}
static int thorough, nsmall;
static void handles(void) { rec_lo = 0; rec_hi = nsmall; run(2, 2); }
static void chains(void) { rec_lo = 0; rec_hi = nsmall; run(1, thorough ? 3 : 2); }
static void borders(void) { rec_lo = nsmall; rec_hi = nrec; run(2, 2); }
static void triples(void) { rec_lo = 0; rec_hi = nsmall; run(3, thorough ? 2 : 1); }

static void embedded(void) { emb = 1; rec_lo = 0; rec_hi = nsmall; run(2, thorough ? 2 : 1); emb = 0; }

static void oom(void) { faulty = 1; rec_lo = 0; rec_hi = nsmall; run(thorough ? 2 : 1, 1); faulty = 0; }

static mc_scenario list[] = {
  { "handles", MC_DFS, handles, .bound = "images of <= 2 records, every handle open, 2 operations through any handles" },
  { "chains", MC_DFS, chains, .bound = "images of 1 record, every handle open, 2 operations (thorough: 3) through any handles" },
  { "borders", MC_DFS, borders, .bound = "images of <= 2 records at length prefix borders, every handle open, 2 operations" },
  { "triples", MC_DFS, triples, .bound = "images of <= 3 records, every handle open, 1 operation (thorough: 2)" },
  { "embedded", MC_DFS, embedded, .bound = "images of <= 2 records, messages created over bytes fields, every handle open, 1 operation (thorough: 2)" },
  { "oom", MC_DFS, oom, .bound = "images of 1 (thorough: <= 2) records, every handle open, 1 operation with every allocation failing, then again" },
  { NULL }
};

static void setup(int th) {
  thorough = th;
  sc_setup();
  { /* as sc_desc, but field 5 is of type bytes */
    size_t n = sc_desc.field.size;
    for (size_t i = 0; i < n; i++) {
      ref_fd d = { sc_field[i].tag, sc_field[i].type, sc_field[i].label,
        pb_field_descriptor_packed(&sc_field[i]), sc_field[i].refer == &sc_desc ? &emb_desc : sc_field[i].refer, sc_field[i].value };
      if (d.tag == T_SUB) d = (ref_fd){ T_SUB, PB_TYPE_BYTES, PB_LABEL_OPTIONAL };
      ref_field_init(&emb_field[i], d);
    }
    ref_descriptor_init(&emb_desc, emb_field, n, &sc_ext);
  }
  memset(filler, 'f', sizeof filler);
  R("08 05"); R("12 02 6162"); R("18 01"); R("18 ac02"); R("22 03 010203"); R("22 05 ac02 05 9003"); R("2a 02 0801");
  R("2a 04 2a02 0803"); R("2a 06 12 01 61 22 01 05"); R("32 02 0802"); R("32 00"); R("38 04"); R("42 01 7a"); R("4a 02 0809"); R("a006 01");
  R("8a01 01 71"); R("1a 02 0304"); R("2a 08 32 02 08 01 32 02 08 02");
  nsmall = nrec;
  R("2a 7f 12 7d *125"); R("2a 8101 12 7f *127"); R("2a 7e 2a 7c 12 7a *122"); R("12 7f *127"); R("2a 7d 12 79 *121 0805");
  R("32 7f 12 7b *123 0805"); R("18 01"); R("2a 83 01 2a 80 01 12 7e *126");
  M(A_PUT, T_U32, U(300)); M(A_PUT, T_U32, U(1)); M(A_PUT, T_STR, STR("abcdef")); M(A_PUT, T_STR, STR(""));
  M(A_PUT, T_REP, U(5)); M(A_PUT, T_PACK, U(1000)); M(A_PUT, T_REPSUB, MSG("\x08\x03")); M(A_PUT, T_SUB, MSG(""));
  M(A_PUT, T_SUB, MSG("\x08\x02")); M(A_PUT, T_OA, U(1)); M(A_PUT, T_OB, STR("o")); M(A_PUT, T_OC, MSG("\x08\x01")); M(A_PUT, T_XX, sc_scalar(PB_TYPE_UINT64, 1));
  M(A_ERASE, T_U32, U(0)); M(A_ERASE, T_STR, U(0)); M(A_ERASE, T_REP, U(0)); M(A_ERASE, T_PACK, U(0)); M(A_ERASE, T_SUB, U(0)); M(A_ERASE, T_REPSUB, U(0));
  M(A_ERASE, T_OA, U(0)); M(A_TOUCH, T_SUB, U(0)); M(A_TOUCH, T_REPSUB, U(0)); M(A_TOUCH, T_OC, U(0)); M(A_FIELD, T_UD, U(7)); M(A_FIELD, T_U32, U(0));
  N(A_PUT, T_SUB, 0, T_U32, U(300)); N(A_PUT, T_SUB, T_SUB, T_STR, STR("deep")); N(A_ERASE, T_SUB, 0, T_U32, U(0)); N(A_PUT, T_SUB, 0, T_PACK, U(9));
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
