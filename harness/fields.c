/* Everything the API can do to one message, each topic with its own alphabet of
   records and operations: explicit-state search over wire images in which every
   transition runs the real operation on a rebuilt message and is checked against
   the reference tree, then everything is read back through every runtime. */
#include "schema.h"
#include "falloc.h"
#include <protobluff/util.h>

/* -- operations ------------------------------------------------------------- */

enum { X_MSG, X_FIELD, X_CPUT, X_CERASE, X_FPUT, X_FCLEAR, X_MCLEAR, X_OCLEAR };
typedef struct fop { int what, k; sc_op o; int put, clear; } fop;
/* An alphabet: records the images are made of, and operations */
typedef struct { const char *name; sc_bytes rec[40]; int nrec; fop op[200]; int nop, recs, maxlen; } topic;
static topic topics[16]; static int ntopic; static topic *T;

static void R(const char *hex) { T->rec[T->nrec++] = sc_rec(hex, ""); }
static fop *X(int what, int k, uint32_t tag, int depth, uint32_t a, uint32_t b) {
  if (T->nop == 200) { fprintf(stderr, "too many operations\n"); _exit(3); }
  fop *f = &T->op[T->nop++]; memset(f, 0, sizeof *f);
  f->what = what; f->k = k; f->o.tag = tag; f->o.depth = depth; f->o.path[0] = a; f->o.path[1] = b; f->o.path[2] = b;
  return f;
}
static sc_value V(pb_type_t t, uint64_t x) { return sc_scalar(t, x); }
static sc_value U(uint64_t x) { return sc_scalar(PB_TYPE_UINT32, x); }
static sc_value S(pb_type_t t, const char *s, int n) { sc_value v; sc_value_str(&v, t, (const uint8_t *)s, n); return v; }
#define STR(s) S(PB_TYPE_STRING, s, sizeof s - 1)
#define BYT(s) S(PB_TYPE_BYTES, s, sizeof s - 1)
#define MSG(s) S(PB_TYPE_MESSAGE, s, sizeof s - 1)
#define AT0 0, 0, 0
#define AT1 1, T_SUB, 0
#define AT2 2, T_SUB, T_SUB
static void put(uint32_t tag, sc_value v, int d, uint32_t a, uint32_t b) { fop *f = X(X_MSG, 0, tag, d, a, b); f->o.what = OP_PUT; f->o.v = v; }
static void erase(uint32_t tag, int d, uint32_t a, uint32_t b) { X(X_MSG, 0, tag, d, a, b)->o.what = OP_ERASE; }
static void touch(uint32_t tag, int d, uint32_t a, uint32_t b) { X(X_MSG, 0, tag, d, a, b)->o.what = OP_TOUCH; }
static void field(uint32_t tag, int d, uint32_t a, uint32_t b) { X(X_FIELD, 0, tag, d, a, b); }
static void fieldput(uint32_t tag, sc_value v, int d, uint32_t a, uint32_t b) { fop *f = X(X_FIELD, 0, tag, d, a, b); f->o.v = v; f->put = 1; }
static void fieldclear(uint32_t tag, int d, uint32_t a, uint32_t b) { X(X_FIELD, 0, tag, d, a, b)->clear = 1; }
static void cput(uint32_t tag, int k, sc_value v, int d, uint32_t a, uint32_t b) { X(X_CPUT, k, tag, d, a, b)->o.v = v; }
static void fput(uint32_t tag, int k, sc_value v, int d, uint32_t a, uint32_t b) { X(X_FPUT, k, tag, d, a, b)->o.v = v; }
static void cerase(uint32_t tag, int k, int d, uint32_t a, uint32_t b) { X(X_CERASE, k, tag, d, a, b); }
static void fclear(uint32_t tag, int k, int d, uint32_t a, uint32_t b) { X(X_FCLEAR, k, tag, d, a, b); }
static void mclear(uint32_t tag, int k, int d, uint32_t a, uint32_t b) { X(X_MCLEAR, k, tag, d, a, b); }
static void oclear(int which, int d, uint32_t a, uint32_t b) { X(X_OCLEAR, which, 0, d, a, b); }

static const char *name_of(const fop *f) {
  static char b[260]; static const char *n[] = { "", "field", "cursor put", "cursor erase", "put through field of cursor",
    "clear field of cursor", "clear message", "clear oneof" };
  if (f->what == X_MSG) return sc_name(&f->o);
  int l = sprintf(b, "%s ", n[f->what]);
  for (int i = 0; i < f->o.depth; i++) l += sprintf(b + l, "%u.", f->o.path[i]);
  l += sprintf(b + l, "%u[%d]", f->o.tag, f->k);
  if (f->put || f->what == X_CPUT || f->what == X_FPUT) l += snprintf(b + l, 100, " = %.80s", mc_hex(sc_wire(&f->o.v), f->o.v.vl));
  if (f->clear) sprintf(b + l, ", then clear it");
  return b;
}

static pb_journal_t J; static dn *root;
static uint8_t before[1 << 16]; static size_t bn;
static void snapshot(void) { bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn); }
static int unchanged(void) { return sc_size(&J) == bn && (!bn || !memcmp(sc_data(&J), before, bn)); }
static void expect(int ok, const fop *f) {
  dom_tn = 0;
  mc_check(ok, "%s turns %s into %s, which is none of the results it may have", name_of(f), mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
}
static int tree(void) { return dom_same(root, sc_data(&J), sc_size(&J)); }

/* The message at the path of an operation: NULL unless it is there */
static dn *home(const sc_op *o) {
  dn *m = root;
  for (int i = 0; m && i < o->depth; i++)
    m = o->path[i] == T_REPSUB ? NULL : dom_visible(m, o->path[i]);   /* a path appends to those */
  return m;
}
static pb_message_t reach(pb_message_t *msg, const sc_op *o) {
  return !o->depth ? pb_message_copy(msg) : o->depth == 1 ? pb_message_create_within(msg, o->path[0])
                   : pb_message_create_nested(msg, o->path, o->depth);
}
static sc_value default_of(const pb_field_descriptor_t *f) {
  const void *d = f->label == PB_LABEL_ONEOF ? NULL : f->value; sc_value v;
  if (ref_wiretype(f->type) == 2) {
    static pb_string_t none = { (uint8_t *)"", 0 };
    const pb_string_t *s = d ? d : &none;
    sc_value_str(&v, f->type, s->data, s->size);
  } else {
    static const uint64_t zero; memset(&v, 0, sizeof v); v.type = f->type;
    memcpy(v.m.raw, d ? d : &zero, ref_size(f->type));
    v.vl = ref_scalar(f->type, v.m.raw, v.v);
  }
  return v;
}
static void reads_as(pb_field_t *f, const dn *x, const char *when) {
  uint64_t a[2], b[2]; pb_type_t t = x->f->type; mc_step();
  mc_check(pb_field_valid(f) && sc_decode(x, a), "%s: field is invalid", when);
  pb_error_t e = pb_field_get(f, b);
  mc_check(!e && sc_equal(t, a, b), "%s: reads %s (error %d), should hold %s", when, e ? "-" : sc_show(t, b), e, sc_show(t, a));
  mc_check(pb_field_match(f, a), "%s: does not match the value it holds", when);
}
/* Runs f; 0: not applicable here */
static int act(pb_message_t *msg, const fop *f) {
  const sc_op *o = &f->o; pb_error_t e;
  snapshot(); mc_trace("%s", name_of(f));
  if (f->what == X_MSG) { sc_step(&J, msg, root, root, o); return 1; }
  if (f->what == X_FIELD) {
    uint32_t tags[4]; memcpy(tags, o->path, sizeof o->path); tags[o->depth] = o->tag;
    dn *m = home(o), *x = m ? dom_visible(m, o->tag) : NULL;
    const pb_field_descriptor_t *fd = ref_lookup(&sc_desc, o->tag);
    if (fd->label == PB_LABEL_REPEATED) x = NULL;
    sc_value d = default_of(fd); mc_step();
    pb_field_t h = o->depth ? pb_field_create_nested(msg, tags, o->depth + 1) : pb_field_create(msg, o->tag);
    mc_check(pb_field_valid(&h), "%s on %s fails", name_of(f), mc_hex(before, bn));
    mc_check(pb_field_descriptor(&h) == fd, "%s: wrong descriptor", name_of(f));
    if (x) expect(unchanged(), f);
    else {
      dom_op w = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = o->path, .depth = o->depth,
        .what = OP_PUT, .tag = o->tag, .v = sc_wire(&d), .vl = d.vl };
      expect(dom_apply(&w), f); x = w.hit;
    }
    reads_as(&h, x, name_of(f));
    if (f->put) {
      snapshot(); e = pb_field_put(&h, &o->v.m);
      mc_check(!e, "%s fails with %d", name_of(f), e);
      dom_value(x, sc_wire(&o->v), o->v.vl); expect(tree(), f);
      reads_as(&h, x, name_of(f));
    }
    if (f->clear) {
      snapshot(); e = pb_field_clear(&h);
      mc_check(!e, "%s fails with %d", name_of(f), e);
      expect(dom_erase_one(root, x, sc_data(&J), sc_size(&J)), f);
      mc_check(!pb_field_valid(&h), "%s: still valid", name_of(f));
    }
    pb_field_destroy(&h);
    return 1;
  }
  dn *m = home(o);
  if (!m) return 0;
  if (f->what == X_MCLEAR && !o->tag) {                  /* a message as a whole */
    if (f->k && !o->depth) return 0;
    pb_message_t s = reach(msg, o);
    e = pb_message_clear(&s); mc_step();
    mc_check(!e, "%s fails with %d", name_of(f), e);
    mc_check(!pb_message_valid(&s), "%s: still valid", name_of(f));
    uint32_t v = 1;
    mc_check(pb_message_put(&s, T_U32, &v) && !pb_message_has(&s, T_U32), "%s: can still be written", name_of(f));
    pb_message_destroy(&s);
    if (m == root) { for (int i = 0; i < m->nk; i++) dom_kill(m->kid[i]); expect(!sc_size(&J), f); *msg = pb_message_create(&sc_desc, &J); }
    else expect(dom_erase_one(root, m, sc_data(&J), sc_size(&J)), f);
    return 1;
  }
  pb_message_t s = reach(msg, o);
  mc_check(pb_message_valid(&s) && unchanged(), "opening a submessage that is there fails or changes the message");
  if (f->what == X_OCLEAR) {
    pb_oneof_t h = pb_oneof_create(f->k ? sc_oneof2 : sc_oneof, &s);
    e = pb_oneof_clear(&h); mc_step();
    mc_check(!e, "%s fails with %d", name_of(f), e);
    mc_check(pb_oneof_case(&h) == 0, "%s: case is still %u", name_of(f), pb_oneof_case(&h));
    dom_op w = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = o->path, .depth = o->depth,
      .what = OP_ERASE, .tag = f->k ? T_PA : T_OA };
    expect(dom_apply(&w), f);
    pb_oneof_destroy(&h); pb_message_destroy(&s);
    return 1;
  }
  const pb_field_descriptor_t *fd = ref_lookup(&sc_desc, o->tag);
  dn *occ[64], *x; int n = dom_occ(m, o->tag, occ, 64, 0);
  if (fd->label != PB_LABEL_REPEATED) { x = dom_visible(m, o->tag); occ[0] = x; n = !!x; }
  if (f->k >= n) { pb_message_destroy(&s); return 0; }
  x = occ[f->k];
  pb_cursor_t c = pb_cursor_create(&s, o->tag);
  for (int i = 0; i < f->k; i++) mc_check(pb_cursor_next(&c), "cursor on %u ends early", o->tag);
  mc_check(pb_cursor_valid(&c), "no cursor on %u", o->tag); mc_step();
  if (f->what == X_CERASE || f->what == X_FCLEAR || f->what == X_MCLEAR) {
    if (f->what == X_CERASE) e = pb_cursor_erase(&c);
    else if (f->what == X_FCLEAR) { pb_field_t h = pb_field_create_from_cursor(&c); e = pb_field_clear(&h); mc_check(!pb_field_valid(&h), "%s: still valid", name_of(f)); pb_field_destroy(&h); }
    else { pb_message_t h = pb_message_create_from_cursor(&c); e = pb_message_clear(&h); mc_check(!pb_message_valid(&h), "%s: still valid", name_of(f)); pb_message_destroy(&h); }
    mc_check(!e, "%s fails with %d", name_of(f), e);
    expect(dom_erase_one(root, x, sc_data(&J), sc_size(&J)), f);
  } else if (fd->type == PB_TYPE_MESSAGE) {
    pb_journal_t sj = sc_open(o->v.m.s.data, o->v.m.s.size); pb_message_t sm = pb_message_create(&sc_desc, &sj);
    e = pb_cursor_put(&c, &sm);
    mc_check(!e, "%s fails with %d", name_of(f), e);
    dom_replace(x, o->v.m.s.data, o->v.m.s.size); expect(tree(), f);
    pb_message_destroy(&sm); pb_journal_destroy(&sj);
  } else {
    if (f->what == X_CPUT) e = pb_cursor_put(&c, &o->v.m);
    else { pb_field_t h = pb_field_create_from_cursor(&c); e = pb_field_put(&h, &o->v.m); pb_field_destroy(&h); }
    mc_check(!e, "%s fails with %d", name_of(f), e);
    dom_value(x, sc_wire(&o->v), o->v.vl); expect(tree(), f);
    pb_field_t h = pb_field_create_from_cursor(&c); reads_as(&h, x, name_of(f)); pb_field_destroy(&h);
  }
  pb_cursor_destroy(&c); pb_message_destroy(&s);
  return 1;
}

/* -- reading through every runtime ------------------------------------------- */

/* Reads below a path of tags never create what is missing */
static void nested_reads(pb_message_t *msg) {
  static const uint32_t base[][2] = { { T_SUB, 0 }, { T_OC, 0 }, { T_SUB, T_SUB }, { T_SUB, T_OC } };
  for (int b = 0; b < 4; b++) {
    int depth = base[b][1] ? 2 : 1; dn *m = root;
    for (int i = 0; m && i < depth; i++) m = dom_visible(m, base[b][i]);
    static const uint32_t leaf[] = { T_U32, T_STR, T_SUB, T_UD, T_SD, T_OA, T_PB, T_EXT };
    for (size_t i = 0; i < sizeof leaf / sizeof *leaf; i++) {
      uint32_t tags[3] = { base[b][0], base[b][1] }; tags[depth] = leaf[i];
      const pb_field_descriptor_t *fd = ref_lookup(&sc_desc, leaf[i]); pb_type_t t = fd->type;
      dn *x = m ? dom_visible(m, leaf[i]) : NULL; mc_step();
      mc_check(pb_message_nested_has(msg, tags, depth + 1) == !!x, "nested has(%u.%u) is wrong", tags[0], leaf[i]);
      if (t == PB_TYPE_MESSAGE) continue;
      uint64_t a[2], g[2]; const void *def = fd->label == PB_LABEL_ONEOF ? NULL : fd->value;
      pb_error_t e = pb_message_nested_get(msg, tags, depth + 1, g);
      if (x) {
        mc_check(sc_decode(x, a) && !e && sc_equal(t, a, g), "nested get(%u.%u) reads %s (error %d)", tags[0], leaf[i], e ? "-" : sc_show(t, g), e);
        mc_check(pb_message_nested_match(msg, tags, depth + 1, a), "nested match(%u.%u) fails", tags[0], leaf[i]);
        if (ref_wiretype(t) != 2) { ((uint8_t *)a)[0] ^= 9; mc_check(!pb_message_nested_match(msg, tags, depth + 1, a), "nested match(%u.%u) holds for another value", tags[0], leaf[i]); }
      } else if (def && !e) mc_check(sc_equal(t, g, def), "nested get(%u.%u) reads %s instead of the default", tags[0], leaf[i], sc_show(t, g));
      else mc_check((!def || !m) && e == PB_ERROR_ABSENT, "nested get(%u.%u) returns %d when absent", tags[0], leaf[i], e);
    }
  }
}
/* The same bytes seen by the decoder */
typedef struct { dn *occ[512]; int n, i; } seen;
static pb_error_t on_field(const pb_field_descriptor_t *f, const void *value, void *user) {
  seen *s = user; uint64_t a[2]; mc_step();
  mc_check(s->i < s->n, "the decoder finds more than %d values", s->n);
  dn *x = s->occ[s->i++];
  mc_check(x->f == f, "the decoder reports tag %u, the message has %u there", f->tag, x->tag);
  if (f->type == PB_TYPE_MESSAGE) {
    static seen sub[8]; static int level;
    seen *k = &sub[level++]; k->n = dom_occ(x, 0, k->occ, 512, 0); k->i = 0;
    pb_error_t e = pb_decoder_decode(value, on_field, k);
    mc_check(!e && k->i == k->n, "the decoder ends with %d after %d of %d values of a submessage", e, k->i, k->n);
    level--;
  } else {
    mc_check(sc_decode(x, a) && sc_equal(f->type, a, value), "the decoder reads %s at tag %u, the message %s", sc_show(f->type, value), f->tag, sc_show(f->type, a));
  }
  return PB_ERROR_NONE;
}
static int complete(const dn *m) {                       /* required fields at every depth */
  if (!dom_last(m, T_BOOL)) return 0;
  for (int i = 0; i < m->nk; i++)
    if (!m->kid[i]->dead && m->kid[i]->kind == D_MSG && !complete(m->kid[i])) return 0;
  return 1;
}
static void other_runtimes(void) {
  const pb_buffer_t *b = pb_journal_buffer(&J);
  static seen s; s.n = dom_occ(root, 0, s.occ, 512, 0); s.i = 0;
  pb_decoder_t d = pb_decoder_create(&sc_desc, b);
  pb_error_t e = pb_decoder_decode(&d, on_field, &s);
  mc_check(!e && s.i == s.n, "the decoder ends with %d after %d of %d values", e, s.i, s.n);
  pb_decoder_destroy(&d);
  pb_validator_t v = pb_validator_create(&sc_desc);
  e = pb_validator_check(&v, b);
  mc_check(complete(root) ? !e : e == PB_ERROR_ABSENT, "the validator says %d on a message that is %s", e, complete(root) ? "complete" : "well formed, but incomplete");
  pb_validator_destroy(&v);
}

/* -- search ------------------------------------------------------------------- */

static long init_topic(int i, uint8_t *out) {
  int n = i, len = 0; long size = 0, count = 1, base = 0;
  for (len = 0; len <= T->recs; len++) {
    if (n < base + count) break;
    base += count; count *= T->nrec;
  }
  if (len > T->recs) return -1;
  n -= base;
  for (int k = 0; k < len; k++) { sc_bytes *b = &T->rec[n % T->nrec]; n /= T->nrec; memcpy(out + size, b->d, b->n); size += b->n; }
  return size;
}
static int apply_topic(const uint8_t *state, size_t size, int which, uint8_t *out, size_t *out_size) {
  if (which > T->nop) return 0;
  dom_reset(); dom_tn = 0;
  root = dom_parse(&sc_desc, state, size);
  if (!root || !dom_same(root, state, size)) { fprintf(stderr, "bad state %s\n", mc_hex(state, size)); _exit(3); }
  J = sc_open(state, size);
  pb_message_t msg = pb_message_create(&sc_desc, &J);
  int result = 2; uint64_t obs = 0;
  snapshot();
  if (!which) {
    mc_trace("reading %s", mc_hex(state, size));
    sc_read_all(&msg, root, 2, &obs); nested_reads(&msg); other_runtimes();
    mc_outcome(obs);
    mc_check(unchanged(), "reading changed %s into %s", mc_hex(state, size), mc_hex(sc_data(&J), sc_size(&J)));
    mc_check(pb_message_valid(&msg), "reading invalidated the message");
  } else if (act(&msg, &T->op[which - 1])) {
    mc_trace("  -> %s", mc_hex(sc_data(&J), sc_size(&J)));
    sc_read_all(&msg, root, 1, &obs); other_runtimes();
    *out_size = sc_size(&J);
    if (*out_size <= (size_t)T->maxlen) { if (*out_size) memcpy(out, sc_data(&J), *out_size); result = 1; }
  } else result = 0;
  pb_message_destroy(&msg);
  pb_journal_destroy(&J);
  return result;
}
#define TOPIC(i, id) \
  static long init_##id(int n, uint8_t *out) { T = &topics[i]; return init_topic(n, out); } \
  static int apply_##id(const uint8_t *s, size_t n, int w, uint8_t *o, size_t *on) { T = &topics[i]; return apply_topic(s, n, w, o, on); }
TOPIC(0, oneof) TOPIC(1, packed) TOPIC(2, foreign) TOPIC(3, clear) TOPIC(4, create) TOPIC(5, nest) TOPIC(6, unpacked)

static mc_scenario list[] = {
  { "oneof", MC_BFS, .init = init_oneof, .apply = apply_oneof, .depth = 3, .bound = "images of <= 3 of 9 records of two oneofs and neighbours, at two depths, sequences of 3 (thorough: 4) operations" },
  { "packed", MC_BFS, .init = init_packed, .apply = apply_packed, .depth = 2, .bound = "images of <= 3 records mixing packed and unpacked values, sequences of 2 (thorough: 3) operations" },
  { "foreign", MC_BFS, .init = init_foreign, .apply = apply_foreign, .depth = 2, .bound = "images of <= 2 (thorough: 3) records encoded in ways the library does not write, sequences of 2 operations" },
  { "clear", MC_BFS, .init = init_clear, .apply = apply_clear, .depth = 2, .bound = "images of <= 3 records, every clear of a message, submessage, field and oneof, sequences of 2 (thorough: 3)" },
  { "create", MC_BFS, .init = init_create, .apply = apply_create, .depth = 2, .bound = "images of <= 2 records, fields of all kinds with and without defaults created, written and cleared at three depths, sequences of 2" },
  { "nest", MC_BFS, .init = init_nest, .apply = apply_nest, .depth = 2, .bound = "images of <= 2 nested records, operations through paths of up to 3 tags, sequences of 2 (thorough: 3)" },
  { "unpacked", MC_BFS, .init = init_unpacked, .apply = apply_unpacked, .depth = 2, .bound = "as packed, for fields not declared packed" },
  { NULL }
};
static void begin(const char *name, int recs, int maxlen) { T = &topics[ntopic++]; T->name = name; T->recs = recs; T->maxlen = maxlen; }
static void end(int depth) { mc_scenario *s = &list[ntopic - 1]; s->ops = T->nop + 1; s->depth = depth; }

static void setup(int th) {
  sc_setup();

  begin("oneof", 3, 48);
  R("38 04"); R("42 01 7a"); R("4a 02 0809"); R("4a 00"); R("08 05"); R("b001 09"); R("ba01 01 62"); R("2a 02 3801"); R("a006 01");
  struct { int d; uint32_t a; } oat[] = { { 0, 0 }, { 1, T_SUB }, { 1, T_OC } };
  for (int i = 0; i < 3; i++) {
    int d = oat[i].d; uint32_t a = oat[i].a;
    put(T_OA, U(300), d, a, 0); put(T_OB, STR("q"), d, a, 0); put(T_OC, MSG("\x08\x01"), d, a, 0); erase(T_OB, d, a, 0); touch(T_OC, d, a, 0);
    field(T_OA, d, a, 0); oclear(0, d, a, 0);
    if (i) continue;
    put(T_OB, STR(""), AT0); put(T_OC, MSG(""), AT0); erase(T_OA, AT0); erase(T_OC, AT0); field(T_OB, AT0); fieldput(T_OA, U(1), AT0); fieldput(T_OB, STR("w"), AT0); fieldclear(T_OA, AT0);
    put(T_PA, V(PB_TYPE_UINT64, 1), AT0); put(T_PB, BYT("x\0y"), AT0); erase(T_PA, AT0); oclear(1, AT0); field(T_PA, AT0);
    cput(T_OB, 0, STR("cc"), AT0); cerase(T_OC, 0, AT0); fclear(T_OB, 0, AT0); mclear(T_OC, 0, AT0); put(T_U32, U(1), AT0); erase(T_U32, AT0); put(T_U32, U(1), 1, T_OC, 0);
  }
  end(th ? 4 : 2);

  for (int p = 0; p < 2; p++) {
    begin(p ? "unpacked" : "packed", 3, 64);
    if (p) { topics[6] = *T; T = &topics[6]; }
    uint32_t tag = p ? T_REP : T_PACK;
    static const char *recs[2][10] = {
      { "20 09", "20 ac02", "22 02 0102", "22 00", "22 03 ac02 05", "62 04 01000000", "08 05", "28 01", "2a 04 2202 0506", "2a 02 2009" },
      { "18 09", "18 ac02", "1a 02 0102", "1a 00", "1a 03 ac02 05", "12 01 61", "08 05", "28 01", "2a 04 1a02 0506", "2a 02 1809" } };
    for (int i = 0; i < 10; i++) if (i != 7) R(recs[p][i]);
    for (int i = 0; i < 2; i++) {
      int d = i; uint32_t a = i ? T_SUB : 0;
      put(tag, U(6), d, a, 0); put(tag, U(1000), d, a, 0); erase(tag, d, a, 0); field(tag, d, a, 0); fieldput(tag, U(1u << 31), d, a, 0); fieldclear(tag, d, a, 0);
      for (int k = 0; k < (i ? 2 : 4); k++) {
        cput(tag, k, U(7), d, a, 0); cput(tag, k, U(70000), d, a, 0); cerase(tag, k, d, a, 0); fput(tag, k, U(0), d, a, 0); fclear(tag, k, d, a, 0);
      }
    }
    put(T_PF32, V(PB_TYPE_FIXED32, 9), AT0); cput(T_PF32, 0, V(PB_TYPE_FIXED32, 1), AT0); cerase(T_PF32, 0, AT0); erase(T_PF32, AT0);
    put(T_RI64, V(PB_TYPE_INT64, -1), AT0); cput(T_RI64, 0, V(PB_TYPE_INT64, 0), AT0); cerase(T_RI64, 0, AT0);
    put(T_U32, U(300), AT0); erase(T_U32, AT0); erase(T_SUB, AT0);
    if (p) { list[6].ops = T->nop + 1; list[6].depth = th ? 3 : 2; ntopic = 7; }
    else end(th ? 3 : 2);
    if (!p) {
      begin("foreign", th ? 3 : 2, 64);
      R("08 8500"); R("8800 05"); R("92 00 8200 6162"); R("12 8200 6162"); R("2a 8200 0801"); R("2a 8500 2a 8200 0803"); R("a006 8100"); R("a286 00 02 7879");
      R("a106 0102030405060708"); R("a506 01020304"); R("18 8180 00"); R("22 8400 8100 8200"); R("32 8300 08 8200"); R("42 8100 7a"); R("2a 05 a006 01 0801"); R("2a 00");
      R("a2ffff7f 01 61"); R("78 01"); R("08 05 08 06"); R("22 8100 05"); R("a200 01 05"); R("2a 8400 22 8100 05");
      for (int i = 0; i < 3; i++) {
        int d = i; uint32_t a = i ? T_SUB : 0, b = i > 1 ? T_SUB : 0;
        put(T_U32, U(300), d, a, b); put(T_STR, STR("xy"), d, a, b); put(T_STR, STR("longer"), d, a, b); erase(T_STR, d, a, b); erase(T_U32, d, a, b);
        put(T_PACK, U(1), d, a, b); put(T_REPSUB, MSG("\x08\x03"), d, a, b); put(T_OB, STR("p"), d, a, b); touch(T_SUB, d, a, b); put(T_XX, V(PB_TYPE_UINT64, 7), d, a, b);
        put(T_BOOL, V(PB_TYPE_BOOL, 1), d, a, b); cerase(T_PACK, 0, d, a, b); if (i < 2) erase(T_PACK, d, a, b);
      }
      put(T_SUB, MSG("\x08\x02"), AT0); put(T_SUB, MSG(""), AT0); erase(T_SUB, AT0); cput(T_PACK, 0, U(9), AT0); cput(T_PACK, 1, U(900), AT0); cerase(T_PACK, 1, AT0); cerase(T_REPSUB, 0, AT0);
      cput(T_REPSUB, 0, MSG("\x08\x02"), AT0); cput(T_U32, 0, U(1), AT0); cput(T_STR, 0, STR("zz"), AT0); erase(T_REP, AT0); put(T_REP, U(4), AT0); cput(T_REP, 0, U(300), AT0);
      end(2);

      begin("clear", 3, 48);
      R("08 05"); R("12 02 6162"); R("18 01"); R("22 02 0102"); R("2a 02 0801"); R("2a 04 2a02 0803"); R("32 02 0802"); R("32 00"); R("38 04"); R("4a 02 0809"); R("a006 01"); R("8a01 01 71"); R("2a 00");
      mclear(0, 0, AT0); mclear(0, 0, AT1); mclear(0, 0, AT2); mclear(0, 0, 1, T_OC, 0);
      for (int k = 0; k < 3; k++) { mclear(T_REPSUB, k, AT0); fclear(T_REP, k, AT0); fclear(T_PACK, k, AT0); fclear(T_REPSTR, k, AT0); }
      fclear(T_U32, 0, AT0); fclear(T_STR, 0, AT0); fclear(T_OA, 0, AT0); fclear(T_U32, 0, AT1); fclear(T_U32, 0, AT2); fclear(T_U32, 0, 1, T_OC, 0); mclear(T_SUB, 0, AT0); mclear(T_SUB, 0, AT1); mclear(T_OC, 0, AT0);
      oclear(0, AT0); oclear(0, AT1); fieldclear(T_U32, AT0); fieldclear(T_STR, AT1); fieldclear(T_PACK, AT0); fieldclear(T_UD, AT2); fieldclear(T_REPSTR, AT0);
      put(T_U32, U(300), AT0); put(T_STR, STR("n"), AT1); put(T_REPSUB, MSG("\x08\x01"), AT0);
      end(th ? 3 : 2);

      begin("create", 2, 64);
      R("08 05"); R("12 00"); R("12 02 6162"); R("9a01 00"); R("9a01 01 62"); R("9001 03"); R("18 01"); R("22 01 02"); R("2a 02 0801"); R("2a 00"); R("59 0102030405060708"); R("38 04"); R("42 00"); R("2a 03 9a01 00"); R("a006 01"); R("a001 01"); R("aa01 00");
      static const uint32_t all[] = { T_U32, T_STR, T_REP, T_PACK, T_OA, T_OB, T_F64, T_PF32, T_SI, T_ENUM, T_BOOL, T_F32, T_REPSTR, T_UD, T_SD, T_RI64, T_BYTES, T_PA, T_PB, T_XX, T_EXT };
      for (int i = 0; i < 3; i++) for (size_t k = 0; k < sizeof all / sizeof *all; k++) {
        if (i > 1 && k % 3) continue;
        field(all[k], i, i ? T_SUB : 0, i > 1 ? T_SUB : 0);
        if (i == 1) continue;
        fieldclear(all[k], i, i ? T_SUB : 0, i > 1 ? T_SUB : 0);
        const pb_field_descriptor_t *fd = ref_lookup(&sc_desc, all[k]);
        fieldput(all[k], ref_wiretype(fd->type) == 2 ? S(fd->type, "val", 3) : V(fd->type, 1), i, i ? T_SUB : 0, i > 1 ? T_SUB : 0);
      }
      put(T_SD, STR(""), AT0); erase(T_SD, AT0); erase(T_UD, AT0); put(T_STR, STR(""), AT0); touch(T_SUB, AT0); erase(T_SUB, AT0);
      end(2);

      begin("nest", 2, 64);
      R("2a 02 0801"); R("2a 00"); R("2a 04 2a02 0803"); R("2a 06 12 01 61 22 01 05"); R("32 02 0802"); R("4a 02 0809"); R("4a 04 2a 02 0801"); R("4a 04 4a 02 0801"); R("08 05"); R("a006 01"); R("2a 08 32 02 08 01 32 02 08 02"); R("38 01");
      static const uint32_t paths[][3] = { { 1, T_SUB, 0 }, { 2, T_SUB, T_SUB }, { 1, T_OC, 0 }, { 2, T_SUB, T_OC }, { 2, T_OC, T_SUB }, { 2, T_OC, T_OC }, { 3, T_SUB, T_SUB } };
      for (size_t i = 0; i < sizeof paths / sizeof *paths; i++) {
        int d = paths[i][0]; uint32_t a = paths[i][1], b = paths[i][2];
        put(T_U32, U(300), d, a, b); put(T_STR, STR("nested"), d, a, b); put(T_PACK, U(130), d, a, b); put(T_OA, U(2), d, a, b); touch(T_REPSUB, d, a, b); put(T_SUB, MSG("\x08\x02"), d, a, b);
        put(T_REPSTR, STR("r"), d, a, b); field(T_UD, d, a, b); fieldput(T_STR, STR("f"), d, a, b);
        erase(T_U32, d, a, b); erase(T_SUB, d, a, b); erase(T_REPSUB, d, a, b); erase(T_OC, d, a, b); cput(T_REPSUB, 0, MSG("\x08\x07"), d, a, b); cerase(T_PACK, 0, d, a, b); cput(T_U32, 0, U(70000), d, a, b);
      }
      erase(T_SUB, AT0); erase(T_OC, AT0); touch(T_SUB, AT0);
      end(th ? 3 : 2);
    }
  }
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
