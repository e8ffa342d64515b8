/* Encoder, decoder, validator and messages agree: the same fields written by an
   encoder and by message puts, then read by all three, then carried from each
   form into the others through decoder handlers. */
#include "schema.h"
#include <protobluff/util.h>

/* A fact: values of one field, as arrays the encoder takes */
typedef struct fact { uint32_t tag; int n; pb_type_t t; sc_value v[3]; int sub[2]; } fact;
static fact F[64]; static int nf, nsub;                  /* the first nsub have no submessage */
static void A(uint32_t tag, pb_type_t t, int n, uint64_t a, uint64_t b, uint64_t c) {
  fact *f = &F[nf++]; uint64_t x[3] = { a, b, c };
  f->tag = tag; f->t = t; f->n = n;
  for (int i = 0; i < n; i++) f->v[i] = sc_scalar(t, x[i]);
}
static void B(uint32_t tag, pb_type_t t, int n, const char *a, int an, const char *b, int bn) {
  fact *f = &F[nf++]; f->tag = tag; f->t = t; f->n = n;
  sc_value_str(&f->v[0], t, (const uint8_t *)a, an); if (n > 1) sc_value_str(&f->v[1], t, (const uint8_t *)b, bn);
}
static void C(uint32_t tag, int a, int b) { fact *f = &F[nf++]; f->tag = tag; f->t = PB_TYPE_MESSAGE; f->n = 1; f->sub[0] = a; f->sub[1] = b; }

static pb_error_t encode_fact(pb_encoder_t *e, const fact *f) {
  if (f->t == PB_TYPE_MESSAGE) {
    pb_encoder_t s = pb_encoder_create(&sc_desc); pb_error_t r = PB_ERROR_NONE;
    for (int i = 0; i < 2; i++) if (!r && f->sub[i] >= 0) r = encode_fact(&s, &F[f->sub[i]]);
    if (!r) r = pb_encoder_encode(e, f->tag, &s, 1);
    pb_encoder_destroy(&s);
    return r;
  }
  uint8_t mem[3 * 16]; size_t z = ref_wiretype(f->t) == 2 ? sizeof(pb_string_t) : ref_size(f->t);
  for (int i = 0; i < f->n; i++) memcpy(mem + i * z, &f->v[i].m, z);
  mc_step();
  return pb_encoder_encode(e, f->tag, mem, f->n);
}
static pb_error_t put_fact(pb_message_t *m, const fact *f) {
  pb_error_t r = PB_ERROR_NONE;
  if (f->t == PB_TYPE_MESSAGE) {
    pb_message_t s = pb_message_create_within(m, f->tag); r = pb_message_error(&s);
    for (int i = 0; i < 2; i++) if (!r && f->sub[i] >= 0) r = put_fact(&s, &F[f->sub[i]]);
    pb_message_destroy(&s);
    return r;
  }
  for (int i = 0; i < f->n && !r; i++) { r = pb_message_put(m, f->tag, &f->v[i].m); mc_step(); }
  return r;
}

/* -- what a tree says: repeated fields in order, the visible occurrence of others */
static void same(const dn *a, const dn *b, const char *what) {
  for (const pb_descriptor_t *d = a->desc; d; d = d->extension) for (size_t i = 0; i < d->field.size; i++) {
    const pb_field_descriptor_t *f = &d->field.data[i]; dn *x[128], *y[128]; int n, k;
    if (f->label == PB_LABEL_REPEATED) { n = dom_occ(a, f->tag, x, 128, 0); k = dom_occ(b, f->tag, y, 128, 0); }
    else { x[0] = dom_visible(a, f->tag); y[0] = dom_visible(b, f->tag); n = !!x[0]; k = !!y[0]; }
    mc_check(n == k, "%s: field %u has %d values, should have %d", what, f->tag, k, n);
    for (int j = 0; j < n; j++) {
      if (f->type == PB_TYPE_MESSAGE) same(x[j], y[j], what);
      else mc_check(x[j]->vl == y[j]->vl && (!x[j]->vl || !memcmp(x[j]->v, y[j]->v, x[j]->vl)), "%s: value %d of field %u is %s, should be %s",
        what, j, f->tag, mc_hex(y[j]->v, y[j]->vl), mc_hex(x[j]->v, x[j]->vl));
    }
  }
}
static int complete(const dn *m) {
  if (!dom_last(m, T_BOOL)) return 0;
  for (int i = 0; i < m->nk; i++) if (!m->kid[i]->dead && m->kid[i]->kind == D_MSG && !complete(m->kid[i])) return 0;
  return 1;
}

/* -- handlers ------------------------------------------------------------------- */

typedef struct { dn *occ[256]; int n, i; } seen;
static pb_error_t on_compare(const pb_field_descriptor_t *f, const void *value, void *user) {
  seen *s = user; uint64_t a[2]; mc_step();
  mc_check(s->i < s->n, "the decoder finds more than %d values", s->n);
  dn *x = s->occ[s->i++];
  mc_check(x->f == f, "the decoder reports tag %u for %u", f->tag, x->tag);
  if (f->type == PB_TYPE_MESSAGE) {
    static seen sub[8]; static int level; seen *k = &sub[level++];
    k->n = dom_occ(x, 0, k->occ, 256, 0); k->i = 0;
    pb_error_t e = pb_decoder_decode(value, on_compare, k);
    mc_check(!e && k->i == k->n, "a submessage decodes %d of %d values (error %d)", k->i, k->n, e);
    level--;
  } else mc_check(sc_decode(x, a) && sc_equal(f->type, a, value), "the decoder reads %s at tag %u instead of %s", sc_show(f->type, value), f->tag, sc_show(f->type, a));
  return PB_ERROR_NONE;
}
static pb_error_t on_message(const pb_field_descriptor_t *f, const void *value, void *user) {
  pb_message_t *m = user; mc_step();
  if (f->type != PB_TYPE_MESSAGE) return pb_message_put(m, f->tag, value);
  pb_message_t s = pb_message_create_within(m, f->tag);
  pb_error_t e = pb_message_error(&s);
  if (!e) e = pb_decoder_decode(value, on_message, &s);
  pb_message_destroy(&s);
  return e;
}
static pb_error_t on_encoder(const pb_field_descriptor_t *f, const void *value, void *user) {
  pb_encoder_t *o = user; mc_step();
  if (f->type != PB_TYPE_MESSAGE) return pb_encoder_encode(o, f->tag, value, 1);
  pb_encoder_t s = pb_encoder_create(&sc_desc);
  pb_error_t e = pb_decoder_decode(value, on_encoder, &s);
  if (!e) e = pb_encoder_encode(o, f->tag, &s, 1);
  pb_encoder_destroy(&s);
  return e;
}
/* from a message by cursors into an encoder */
static pb_error_t walk(pb_message_t *m, pb_encoder_t *o) {
  pb_cursor_t c = pb_cursor_create_without_tag(m); pb_error_t e = PB_ERROR_NONE;
  if (pb_cursor_valid(&c)) do {
    const pb_field_descriptor_t *f = pb_cursor_descriptor(&c); uint64_t v[2]; mc_step();
    if (f->type != PB_TYPE_MESSAGE) {
      e = pb_cursor_get(&c, v); if (!e) e = pb_encoder_encode(o, f->tag, v, 1);
    } else {
      pb_message_t s = pb_message_create_from_cursor(&c); pb_encoder_t k = pb_encoder_create(&sc_desc);
      e = pb_message_error(&s); if (!e) e = walk(&s, &k); if (!e) e = pb_encoder_encode(o, f->tag, &k, 1);
      pb_encoder_destroy(&k); pb_message_destroy(&s);
    }
  } while (!e && pb_cursor_next(&c));
  pb_cursor_destroy(&c);
  return e;
}

static dn *parse(const pb_buffer_t *b, const char *what) {
  dn *r = dom_parse(&sc_desc, pb_buffer_data(b), pb_buffer_size(b));
  mc_check(r && ref_wellformed(&sc_desc, pb_buffer_data(b), pb_buffer_size(b)), "%s is not well formed: %s", what, mc_hex(pb_buffer_data(b), pb_buffer_size(b)));
  return r;
}
/* everything every reader has to say about a buffer, then into the other forms */
static void readers(const pb_buffer_t *b, const dn *want, const char *what, int again) {
  dn *t = parse(b, what); same(want, t, what);
  uint64_t obs = 0; static seen s;
  pb_journal_t j = sc_open(pb_buffer_data(b), pb_buffer_size(b)); pb_message_t m = pb_message_create(&sc_desc, &j);
  sc_read_all(&m, t, 2, &obs);
  s.n = dom_occ(t, 0, s.occ, 256, 0); s.i = 0;
  pb_decoder_t d = pb_decoder_create(&sc_desc, b); pb_error_t e = pb_decoder_decode(&d, on_compare, &s);
  mc_check(!e && s.i == s.n, "%s decodes %d of %d values (error %d)", what, s.i, s.n, e);
  pb_validator_t v = pb_validator_create(&sc_desc);
  e = pb_validator_check(&v, b);
  mc_check(complete(t) ? !e : e == PB_ERROR_ABSENT, "%s: the validator says %d, the message is %s", what, e, complete(t) ? "complete" : "incomplete");
  pb_validator_destroy(&v);
  if (again) {
    char w[120]; pb_encoder_t o; pb_journal_t k;
    k = pb_journal_create_empty(); pb_message_t km = pb_message_create(&sc_desc, &k);
    e = pb_decoder_decode(&d, on_message, &km); sprintf(w, "%s, decoded into a message", what);
    mc_check(!e, "%s: error %d", w, e);
    readers(pb_journal_buffer(&k), t, w, again - 1); pb_message_destroy(&km); pb_journal_destroy(&k);
    o = pb_encoder_create(&sc_desc);
    e = pb_decoder_decode(&d, on_encoder, &o); sprintf(w, "%s, decoded into an encoder", what);
    mc_check(!e, "%s: error %d", w, e);
    readers(pb_encoder_buffer(&o), t, w, again - 1); pb_encoder_destroy(&o);
    o = pb_encoder_create(&sc_desc);
    e = walk(&m, &o); sprintf(w, "%s, encoded from a message", what);
    mc_check(!e, "%s: error %d", w, e);
    readers(pb_encoder_buffer(&o), t, w, again - 1); pb_encoder_destroy(&o);
  }
  pb_decoder_destroy(&d); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static int deep;
static void agree(void) {
  int len = mc_choose(4), k[5]; uint32_t subs = 0;
  for (int i = 0; i < len; i++) {
    k[i] = mc_choose(nf); const fact *f = &F[k[i]];
    /* a second occurrence of a submessage merges here and replaces there */
    if (f->t == PB_TYPE_MESSAGE && f->tag != T_REPSUB) { if (subs >> f->tag & 1) return; subs |= 1u << f->tag; }
    if (i == 1 && !mc_shard()) return;
  }
  if (len < 2 && !mc_shard()) return;
  dom_reset(); dom_tn = 0;
  pb_encoder_t o = pb_encoder_create(&sc_desc);
  pb_journal_t j = pb_journal_create_empty(); pb_message_t m = pb_message_create(&sc_desc, &j);
  for (int i = 0; i < len; i++) {
    pb_error_t e = encode_fact(&o, &F[k[i]]), g = put_fact(&m, &F[k[i]]);
    mc_check(!e && !g, "writing field %u: encoder error %d, message error %d", F[k[i]].tag, e, g);
  }
  const pb_buffer_t *b = pb_encoder_buffer(&o);
  mc_trace("encoder %s", mc_hex(pb_buffer_data(b), pb_buffer_size(b))); mc_trace("message %s", mc_hex(sc_data(&j), sc_size(&j)));
  dn *t = parse(b, "what the encoder wrote");
  readers(b, t, "what the encoder wrote", len < 3 || deep ? 2 : 1);
  readers(pb_journal_buffer(&j), t, "what message puts wrote", len < 3 || deep ? 2 : 1);
  mc_state(mc_hash(pb_buffer_data(b), pb_buffer_size(b), 0)); mc_outcome(mc_hash(sc_data(&j), sc_size(&j), 1));
  pb_message_destroy(&m); pb_journal_destroy(&j); pb_encoder_destroy(&o);
}
static mc_scenario list[] = {
  { "agree", MC_DFS, agree, .bound = "sequences of <= 3 of 41 facts, each written by encoder and by message, read by every reader, and carried on into every other form once (<= 2 facts and thorough: twice)" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); deep = th;
  A(T_U32, PB_TYPE_UINT32, 1, 5, 0, 0); A(T_U32, PB_TYPE_UINT32, 1, 0xffffffff, 0, 0);
  B(T_STR, PB_TYPE_STRING, 1, "", 0, 0, 0); B(T_STR, PB_TYPE_STRING, 1, "a\0b", 3, 0, 0);
  A(T_REP, PB_TYPE_UINT32, 1, 0, 0, 0); A(T_REP, PB_TYPE_UINT32, 3, 1, 300, 70000);
  A(T_PACK, PB_TYPE_UINT32, 1, 128, 0, 0); A(T_PACK, PB_TYPE_UINT32, 3, 1, 0, 1u << 31); A(T_PACK, PB_TYPE_UINT32, 2, 16384, 3, 0);
  A(T_OA, PB_TYPE_UINT32, 1, 4, 0, 0); B(T_OB, PB_TYPE_STRING, 1, "o", 1, 0, 0);
  A(T_F64, PB_TYPE_FIXED64, 1, 1ull << 63, 0, 0); A(T_PF32, PB_TYPE_FIXED32, 1, 7, 0, 0); A(T_PF32, PB_TYPE_FIXED32, 3, 1, 2, 1u << 31);
  A(T_SI, PB_TYPE_SINT32, 1, 0x80000000u, 0, 0); A(T_ENUM, PB_TYPE_ENUM, 1, 300, 0, 0); A(T_BOOL, PB_TYPE_BOOL, 1, 1, 0, 0); A(T_BOOL, PB_TYPE_BOOL, 1, 0, 0, 0);
  A(T_F32, PB_TYPE_FIXED32, 1, 0x01020304, 0, 0); B(T_REPSTR, PB_TYPE_STRING, 2, "x", 1, "", 0); B(T_REPSTR, PB_TYPE_STRING, 1, "", 0, 0, 0);
  A(T_UD, PB_TYPE_UINT32, 1, 7, 0, 0); B(T_SD, PB_TYPE_STRING, 1, "", 0, 0, 0); A(T_RI64, PB_TYPE_INT64, 2, -1ull, 1, 0);
  B(T_BYTES, PB_TYPE_BYTES, 1, "\xff\x80", 2, 0, 0); A(T_PA, PB_TYPE_UINT64, 1, -1ull, 0, 0); B(T_PB, PB_TYPE_BYTES, 1, "", 0, 0, 0);
  A(T_XX, PB_TYPE_UINT64, 1, 1ull << 35, 0, 0); A(T_EXT, PB_TYPE_UINT32, 1, 9, 0, 0);
  nsub = nf;
  C(T_SUB, -1, -1); C(T_SUB, 16, -1); C(T_SUB, 0, 7); C(T_REPSUB, -1, -1); C(T_REPSUB, 16, 19); C(T_OC, -1, -1); C(T_OC, 3, 16);
  int base = nf; C(T_SUB, 16, 30); C(T_REPSUB, 31, 13); C(T_OC, base, 10); C(T_SUB, 33, 34); C(T_SUB, base, 16);
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
