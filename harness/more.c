/*
 * Near misses: unknown fields whose tag differs from a known one in one bit,
 * new values that differ from the old one in one byte or one bit, and contents
 * around the borders of four and five byte length prefixes.
 */
#include "scale.h"
#include <protobluff/util.h>

static uint8_t big[1 << 18], img[1 << 19], exp_[1 << 19], got[1 << 19];
static pb_string_t bs(const void *d, size_t n) { return pb_string_init((uint8_t *)d, n); }

/* -- aliases ------------------------------------------------------------------- */

static size_t known_rec(uint8_t *o, const pb_field_descriptor_t *f, int z) {
  uint8_t t[32]; size_t k; uint64_t v[2] = { 0x21 + z, 0 };
  switch (ref_wiretype(f->type)) {
    case 2: if (f->type != PB_TYPE_MESSAGE) return put_b(o, f->tag, z ? "known" : "kno", z ? 5 : 3);
      k = put_u(t, T_U32, 90 + z); return put_b(o, f->tag, t, k);
    default:
      if (f->type == PB_TYPE_BOOL || f->type == PB_TYPE_ENUM) v[0] = 1;
      k = ref_tag(o, f->tag, ref_wiretype(f->type));
      if (f->label == PB_LABEL_REPEATED && (f->flags & PB_FLAG_PACKED)) { k = ref_scalar(f->type, v, t); return put_b(o, f->tag, t, k); }
      return k + ref_scalar(f->type, v, o + k);
  }
}
static size_t alias_rec(uint8_t *o, uint32_t tag, int wt) {
  size_t k = ref_tag(o, tag, wt);
  switch (wt) { case 0: o[k++] = 0x81; o[k++] = 1; break; case 1: memset(o + k, 1, 8); k += 8; break; case 2: o[k++] = 2; o[k++] = 8; o[k++] = 77; break; default: memset(o + k, 1, 4); k += 4; }
  return k;
}
static char *tr; static size_t trn;
static pb_error_t on_any(const pb_field_descriptor_t *f, const void *v, void *user) {
  (void)user; trn += sprintf(tr + trn, "%u:", f->tag);
  if (f->type == PB_TYPE_MESSAGE) { trn += sprintf(tr + trn, "{"); pb_error_t e = pb_decoder_decode(v, on_any, NULL); trn += sprintf(tr + trn, "}"); return e; }
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; for (size_t i = 0; i < s->size; i++) trn += sprintf(tr + trn, "%02x", s->data[i]); }
  else for (size_t i = 0; i < ref_size(f->type); i++) trn += sprintf(tr + trn, "%02x", ((const uint8_t *)v)[i]);
  trn += sprintf(tr + trn, " "); return PB_ERROR_NONE;
}
enum { A_READ, A_PUT, A_ERASE, A_FIELD, A_CURPUT, A_CURERASE, A_ONEOF, A_OPS };
/* Runs op on the bytes, says everything that can be seen into out, the bytes left into d */
static size_t alias_run(const uint8_t *in, size_t n, const pb_field_descriptor_t *f, int deep, int op, char *out, uint8_t *d) {
  pb_journal_t j = pb_journal_create(in, n); pb_message_t r = pb_message_create(&sc_desc, &j), m = deep ? pb_message_create_within(&r, T_SUB) : pb_message_copy(&r);
  pb_error_t e = 0; uint64_t v[2] = { 0, 0 }; pb_string_t s = bs("new text", 8); uint32_t tag = f->tag; tr = out; trn = 0;
  pb_journal_t oj = pb_journal_create((const uint8_t *)"\x08\x37", 2); pb_message_t om = pb_message_create(&sc_desc, &oj);
  uint64_t nv[2] = { f->type == PB_TYPE_BOOL || f->type == PB_TYPE_ENUM ? 0 : 0x1234, 0 };
  const void *val = f->type == PB_TYPE_MESSAGE ? (void *)&om : ref_wiretype(f->type) == 2 ? (void *)&s : (void *)nv;
  for (int look = 0; look < 2; look++) {
    trn += sprintf(tr + trn, "has %d ", pb_message_has(&m, tag));
    if (f->type != PB_TYPE_MESSAGE && f->label != PB_LABEL_REPEATED) {
      memset(v, 0, sizeof v); e = pb_message_get(&m, tag, v); trn += sprintf(tr + trn, "get %d ", e);
      if (!e) { if (ref_wiretype(f->type) == 2) { memcpy(&s, v, sizeof s); trn += sprintf(tr + trn, "%.*s ", (int)s.size, s.data); s = bs("new text", 8); } else trn += sprintf(tr + trn, "%lx ", (unsigned long)v[0]); }
      trn += sprintf(tr + trn, "match %d ", pb_message_match(&m, tag, val));
    }
    pb_cursor_t c = pb_cursor_create(&m, tag); int k = 0; while (pb_cursor_valid(&c)) { k++; if (!pb_cursor_next(&c)) break; } trn += sprintf(tr + trn, "n %d err %d ", k, pb_cursor_error(&c)); pb_cursor_destroy(&c);
    pb_oneof_t o = pb_oneof_create(sc_oneof, &m); trn += sprintf(tr + trn, "case %u ", pb_oneof_case(&o)); pb_oneof_destroy(&o);
    pb_decoder_t dec = pb_decoder_create(&sc_desc, &j.buffer); e = pb_decoder_decode(&dec, on_any, NULL); trn += sprintf(tr + trn, "dec %d ", e); pb_decoder_destroy(&dec);
    pb_validator_t va = pb_validator_create(&sc_desc); trn += sprintf(tr + trn, "val %d\n", pb_validator_check(&va, &j.buffer)); pb_validator_destroy(&va);
    mc_step();
    if (look) break;
    e = 0;
    switch (op) {
      case A_READ: look = 2; break;
      case A_PUT: e = pb_message_put(&m, tag, val); break;
      case A_ERASE: e = pb_message_erase(&m, tag); break;
      case A_FIELD: if (f->type == PB_TYPE_MESSAGE) { pb_message_t x = pb_message_create_within(&m, tag); e = pb_message_error(&x); pb_message_destroy(&x); } else { pb_field_t x = pb_field_create(&m, tag); e = pb_field_error(&x); pb_field_destroy(&x); } break;
      case A_CURPUT: case A_CURERASE: { pb_cursor_t x = pb_cursor_create(&m, tag); e = op == A_CURPUT ? pb_cursor_put(&x, val) : pb_cursor_erase(&x); pb_cursor_destroy(&x); break; }
      default: { pb_oneof_t x = pb_oneof_create(tag >= T_PA ? sc_oneof2 : sc_oneof, &m); e = pb_oneof_clear(&x); pb_oneof_destroy(&x); }
    }
    trn += sprintf(tr + trn, "op %d\n", e);
  }
  size_t z = sc_size(&j); if (z) memcpy(d, sc_data(&j), z);
  pb_message_destroy(&om); pb_journal_destroy(&oj); pb_message_destroy(&m); pb_message_destroy(&r); pb_journal_destroy(&j);
  return z;
}
/* takes the records with the tag out of d (of the type in submessage 5, if deep); their number */
static int take_out(const uint8_t *d, size_t n, uint32_t alias, int deep, uint8_t *o, size_t *on) {
  ref_rec r[64]; int k = ref_parse(d, n, r, 64), found = 0; size_t at = 0; *on = 0;
  if (k < 0) return -1;
  for (int i = 0; i < k; i++) {
    size_t end = r[i].end;
    if (r[i].tag == alias && !deep) found++;
    else if (r[i].tag == T_SUB && deep) { uint8_t t[600]; size_t tn2; int q = take_out(d + r[i].val, end - r[i].val, alias, 0, t, &tn2); if (q < 0) return -1; found += q; *on += put_b(o + *on, T_SUB, t, tn2); }
    else { memcpy(o + *on, d + at, end - at); *on += end - at; }
    at = end;
  }
  return found;
}
static void aliases(void) {
  const pb_field_descriptor_t *f = &sc_field[mc_choose(23)]; int bit = mc_choose(29), deep = mc_choose(2), op = mc_choose(A_OPS);
  if (!mc_shard()) return;
  int wt = (int[]){ 0, 1, 2, 5 }[mc_choose(4)], place = mc_choose(3), known = mc_choose(3);
  uint32_t alias = f->tag ^ (1u << bit);
  if (!alias || ref_lookup(&sc_desc, alias)) return;
  if (deep && f->tag == T_SUB) return;                                          /* the alias would be taken out at the wrong level */
  static char o0[65536], o1[65536]; uint8_t *w[2] = { img, exp_ }; size_t n[2];
  for (int with = 0; with < 2; with++) {
    uint8_t *t = w[with]; size_t k = 0;
    if (with && place == 0) k += alias_rec(t + k, alias, wt);
    for (int i = 0; i < known; i++) { k += known_rec(t + k, f, i); if (with && place == 1 && i == 0) k += alias_rec(t + k, alias, wt); }
    if (with && (place == 2 || (place == 1 && !known))) k += alias_rec(t + k, alias, wt);
    if (f->tag != T_BOOL) k += put_u(t + k, T_BOOL, 1);
    if (deep) { uint8_t x[600]; memcpy(x, t, k); k = put_b(t, T_SUB, x, k); k += put_u(t + k, T_BOOL, 1); }
    n[with] = k;
  }
  mc_trace("field %u and unknown field %u of wire type %d: operation %d on %s", f->tag, alias, wt, op, mc_hex(exp_, n[1]));
  uint8_t d0[700], d1[700], d2[700]; size_t n0 = alias_run(img, n[0], f, deep, op, o0, d0), n1 = alias_run(exp_, n[1], f, deep, op, o1, d1), n2;
  mc_check(!strcmp(o0, o1), "the unknown field changes what is seen: %s instead of %s", o1, o0);
  int q = take_out(d1, n1, alias, deep, d2, &n2);
  mc_check(q == 1, "the unknown field is there %d times in %s", q, mc_hex(d1, n1));
  if (deep) { int z = take_out(d0, n0, alias, deep, exp_, &n0); mc_check(!z, "the unknown field appears in %s", mc_hex(d0, n0)); memcpy(d0, exp_, n0); }
  if (!text[0]) { text[0] = malloc(TEXT); text[1] = malloc(TEXT); }
  tn = 0; text[0][0] = 0; int k0 = show(text[0], &sc_desc, d0, n0); tn = 0; text[1][0] = 0; int k1 = show(text[1], &sc_desc, d2, n2);
  mc_check(k0 == k1 && !strcmp(text[0], text[1]), "with the unknown field the known ones are %s instead of %s", mc_hex(d2, n2), mc_hex(d0, n0));
  mc_state(mc_hash(d1, n1, op)); mc_outcome(mc_hash(o1, strlen(o1), 0));
}

/* -- tails: values that differ in one byte ------------------------------------------ */

enum { W_PUT, W_FIELD, W_CURSOR, W_NESTED, W_BYTES, W_ZERO, W_SUB, W_REPSUB, W_ENC, W_WAYS };
static void tails(void) {
  setup_lens(thorough ? 300 : 80, thorough ? 65536 : 4096); int n = lens[1 + mc_choose(nlens - 1)], way = mc_choose(W_WAYS), bit = mc_choose(2) ? 0x80 : 1;
  if (!mc_shard()) return;
  int p = n <= 80 ? mc_choose(n) : (int[]){ 0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 65, n - 33, n - 17, n - 9, n - 2, n - 1 }[mc_choose(21)];
  if (p >= n) return;
  uint8_t *nw = got; memcpy(nw, big, n); nw[p] ^= bit; pb_string_t s = bs(nw, n), r; pb_error_t e;
  mc_trace("%d bytes, byte %d changes", n, p);
  uint32_t tag = way == W_BYTES ? T_BYTES : way == W_SUB || way == W_NESTED ? T_SUB : way == W_REPSUB ? T_REPSUB : way == W_CURSOR ? T_REPSTR : T_STR;
  uint8_t *t = exp_; size_t k = 0, q[2]; static uint8_t after[1 << 18]; uint8_t *w[2] = { img, after };
  for (int a = 0; a < 2; a++) {
    const uint8_t *d = a ? nw : big; size_t m = n;
    if (tag == T_SUB || tag == T_REPSUB) { m = put_b(t, T_STR, d, n); d = t; }
    k = put_u(w[a], T_U32, 3); k += put_b(w[a] + k, tag, d, m); q[a] = k + put_u(w[a] + k, T_BOOL, 1);
  }
  if (way == W_ENC) {                                                            /* two fields of an encoder */
    pb_encoder_t enc = pb_encoder_create(&sc_desc); pb_string_t two[2] = { bs(big, n), s };
    mc_check(!(e = pb_encoder_encode(&enc, T_REPSTR, two, 2)), "encoding fails with %d", e);
    k = put_b(t, T_REPSTR, big, n); k += put_b(t + k, T_REPSTR, nw, n);
    const pb_buffer_t *b = pb_encoder_buffer(&enc); mc_check(pb_buffer_size(b) == k && !memcmp(pb_buffer_data(b), t, k), "the encoder writes other bytes");
    pb_encoder_destroy(&enc); mc_step(); mc_outcome(n); return;
  }
  pb_journal_t j = way == W_ZERO ? pb_journal_create_zero_copy(img, q[0]) : pb_journal_create(img, q[0]); pb_message_t m = pb_message_create(&sc_desc, &j);
  pb_journal_t oj = pb_journal_create_empty(); pb_message_t om = pb_message_create(&sc_desc, &oj);
  switch (way) {
    case W_PUT: case W_ZERO: case W_BYTES: e = pb_message_put(&m, tag, &s); break;
    case W_FIELD: { pb_field_t f = pb_field_create(&m, tag); e = pb_field_put(&f, &s); mc_check(pb_field_match(&f, &s), "the field does not match what was written"); pb_string_t o = bs(big, n); mc_check(!pb_field_match(&f, &o), "the field matches another value"); pb_field_destroy(&f); break; }
    case W_CURSOR: { pb_cursor_t c = pb_cursor_create(&m, tag); mc_check(!pb_cursor_match(&c, &s), "the cursor matches another value"); e = pb_cursor_put(&c, &s); mc_check(pb_cursor_match(&c, &s), "the cursor does not match what was written"); pb_cursor_destroy(&c); break; }
    case W_NESTED: { uint32_t path[] = { T_SUB, T_STR }; mc_check(!pb_message_nested_match(&m, path, 2, &s), "the message matches another value"); e = pb_message_nested_put(&m, path, 2, &s); break; }
    default: mc_check(!(e = pb_message_put(&om, T_STR, &s)), "update of the source fails with %d", e);
      if (way == W_SUB) e = pb_message_put(&m, tag, &om); else { pb_cursor_t c = pb_cursor_create(&m, tag); e = pb_cursor_put(&c, &om); pb_cursor_destroy(&c); }
  }
  mc_check(!e, "the update fails with %d", e); mc_step();
  mc_check(sc_size(&j) == q[1] && !memcmp(sc_data(&j), after, q[1]), "the message has other bytes than the update says");
  if (tag == T_STR || tag == T_BYTES) { mc_check(!(e = pb_message_get(&m, tag, &r)) && r.size == (size_t)n && !memcmp(r.data, nw, n), "the update reads back otherwise (error %d)", e);
    pb_string_t o = bs(big, n); mc_check(pb_message_match(&m, tag, &s) && !pb_message_match(&m, tag, &o), "matching is wrong"); }
  mc_state(mc_hash(after, q[1], way)); mc_outcome(n * 9 + way);
  pb_message_destroy(&om); pb_journal_destroy(&oj); pb_message_destroy(&m); pb_journal_destroy(&j);
}

/* -- bits: numbers that differ in one bit ---------------------------------------------- */

static void bits(void) {
  static const uint64_t base[] = { 0, 1, 0x5555555555555555ull, ~0ull, 0x8000000080000000ull, 127, 128, 0x0000000100000000ull, 16383, 0x7fffffff };
  static pb_descriptor_t ty; static pb_field_descriptor_t fd[4]; static int made = -1;
  int type = 1 + mc_choose(14), b = mc_choose(10), way = mc_choose(7);
  if (!mc_shard()) return;
  int size = ref_size(type), bit = mc_choose(type == PB_TYPE_BOOL || type == PB_TYPE_ENUM ? 1 : size * 8);
  if (made != type) {
    ref_field_init(&fd[0], (ref_fd){ 1, type, PB_LABEL_OPTIONAL, 0, type == PB_TYPE_ENUM ? &ref_enum : NULL });
    ref_field_init(&fd[1], (ref_fd){ 2, type, PB_LABEL_REPEATED, 0, type == PB_TYPE_ENUM ? &ref_enum : NULL });
    ref_field_init(&fd[2], (ref_fd){ 3, type, PB_LABEL_REPEATED, 1, type == PB_TYPE_ENUM ? &ref_enum : NULL });
    ref_field_init(&fd[3], (ref_fd){ 4, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &ty }); ref_descriptor_init(&ty, fd, 4, NULL); made = type;
  }
  uint64_t o = base[b], n; if (type == PB_TYPE_BOOL || type == PB_TYPE_ENUM) o &= 1; else if (size == 4) o = (uint32_t)o;
  n = o ^ (1ull << bit);
  uint8_t d[256], x[256], t[128]; size_t k = 0, z = 0, q; uint32_t tag = way == 2 ? 2 : way == 3 || way == 6 ? 3 : 1; const uint64_t v[2] = { o, n };
  mc_trace("type %d, %lx becomes %lx", type, (unsigned long)o, (unsigned long)n);
  for (int a = 0; a < 2; a++) {
    uint8_t *w = a ? x : d; k = 0;
    if (tag == 1) { k = ref_tag(w, 1, ref_wiretype(type)); k += ref_scalar(type, &v[a], w + k); }
    if (tag == 2) for (int i = 0; i < 3; i++) { k += ref_tag(w + k, 2, ref_wiretype(type)); k += ref_scalar(type, &v[a && i == 1], w + k); }
    if (tag == 3) { q = 0; for (int i = 0; i < 3; i++) q += ref_scalar(type, &v[a && (way == 6 ? i == 2 : i == 1)], t + q); k = put_b(w, 3, t, q); }
    if (way == 4) { memcpy(t, w, k); k = put_b(w, 4, t, k); }
    if (!a) z = k;
  }
  pb_journal_t j = pb_journal_create(d, z); pb_message_t m = pb_message_create(&ty, &j); pb_error_t e; uint64_t r = 0; uint32_t path[] = { 4, 1 };
  switch (way) {
    case 0: e = pb_message_put(&m, 1, &n); break;
    case 1: { pb_field_t f = pb_field_create(&m, 1); mc_check(pb_field_match(&f, &o) && !pb_field_match(&f, &n), "matching before is wrong"); e = pb_field_put(&f, &n); mc_check(pb_field_match(&f, &n) && !pb_field_match(&f, &o), "matching after is wrong"); pb_field_destroy(&f); break; }
    case 2: case 3: case 6: { pb_cursor_t c = pb_cursor_create(&m, tag); pb_cursor_next(&c); if (way == 6) pb_cursor_next(&c);
      e = pb_cursor_put(&c, &n); mc_check(!e, "the update fails with %d", e); mc_check(!(e = pb_cursor_get(&c, &r)) && !memcmp(&r, &n, size), "the update reads back as %lx (error %d)", (unsigned long)r, e);
      mc_check(pb_cursor_match(&c, &n) && !pb_cursor_match(&c, &o), "the cursor matches the wrong value"); pb_cursor_rewind(&c); mc_check(way == 6 || pb_cursor_seek(&c, &n), "the cursor does not find the new value"); pb_cursor_destroy(&c); break; }
    case 4: e = pb_message_nested_put(&m, path, 2, &n); mc_check(!pb_message_nested_get(&m, path, 2, &r) && !memcmp(&r, &n, size), "the update reads back as %lx", (unsigned long)r); break;
    default: e = pb_message_erase(&m, 1); if (!e) e = pb_message_put(&m, 1, &n); break;
  }
  mc_check(!e, "the update fails with %d", e); mc_step();
  mc_check(sc_size(&j) == k && !memcmp(sc_data(&j), x, k), "the message is %s, expected %s", mc_hex(sc_data(&j), sc_size(&j)), mc_hex(x, k));
  if (tag == 1 && way != 4) { r = 0; mc_check(!(e = pb_message_get(&m, 1, &r)) && !memcmp(&r, &n, size), "the update reads back as %lx (error %d)", (unsigned long)r, e); mc_check(pb_message_match(&m, 1, &n) && !pb_message_match(&m, 1, &o), "matching is wrong"); }
  mc_state(mc_hash(x, k, way)); mc_outcome(mc_hash(x, k, type));
  pb_message_destroy(&m); pb_journal_destroy(&j);
}

/* -- borders: contents whose length takes four or five bytes ------------------------------ */

static void borders(void) {
  int five = thorough ? mc_choose(2) : 0, depth = mc_choose(3), off = mc_choose(18), way = mc_choose(4);
  if (!mc_shard()) return;
  if (five && (depth == 1 || way > 1)) return;                                  /* a quarter of a gigabyte each */
  size_t border = five ? (size_t)1 << 28 : (size_t)1 << 21; uint8_t *t = malloc(border + 4096), *pat = malloc(border + 64);
  for (size_t i = 0; i < border + 64; i++) pat[i] = (uint8_t)(i * 31 + (i >> 8));
  size_t from = border - 14 + (way & 1 ? 0 : off), to = border - 14 + (way & 1 ? off : 0), k, p;
  mc_trace("a string of %zu bytes becomes one of %zu, %d messages around it", from, to, depth);
  k = put_b(t, T_STR, pat, from); for (int i = 0; i < depth; i++) { uint8_t h[16]; size_t hn = ref_tag(h, T_SUB, 2); hn += ref_varint(h + hn, k); memmove(t + hn, t, k); memcpy(t, h, hn); k += hn; }
  k += put_u(t + k, T_BOOL, 1);
  pb_journal_t j = pb_journal_create(t, k); free(t); pb_message_t m[4]; m[0] = pb_message_create(&sc_desc, &j); for (int i = 1; i <= depth; i++) m[i] = pb_message_create_within(&m[i - 1], T_SUB);
  pb_field_t fb = pb_field_create(&m[0], T_BOOL), fs = pb_field_create(&m[depth], T_STR); pb_error_t e; pb_string_t s = bs(pat, to), r; uint8_t b; uint32_t u = 9;
  e = way < 2 ? pb_field_put(&fs, &s) : pb_message_put(&m[depth], T_STR, &s); mc_check(!e, "the update fails with %d", e); mc_step();
  mc_check(!(e = pb_field_get(&fb, &b)) && b == 1, "a handle behind is lost (error %d)", e);
  mc_check(!(e = pb_field_get(&fs, &r)) && r.size == to && !memcmp(r.data, pat, to), "the string reads as %zu bytes (error %d)", r.size, e);
  for (int round = 0; round < 2; round++) {
    if (round) mc_check(!(e = pb_message_put(&m[depth], T_U32, &u)), "another update fails with %d", e);
    /* front to back */
    const uint8_t *d = sc_data(&j); size_t n = sc_size(&j); p = 0; size_t len[4]; size_t inner = to; uint8_t h[16]; size_t hn;
    len[depth] = 0; hn = ref_tag(h, T_STR, 2); hn += ref_varint(h + hn, to); inner = hn + to + (round ? 2 : 0); len[depth] = inner;
    for (int i = depth; i--; ) { hn = ref_tag(h, T_SUB, 2); hn += ref_varint(h + hn, len[i + 1]); len[i] = len[i + 1] + hn; }
    mc_check(n == len[0] + 2, "%zu bytes instead of %zu", n, len[0] + 2);
    for (int i = 1; i <= depth; i++) { hn = ref_tag(h, T_SUB, 2); hn += ref_varint(h + hn, len[i]); mc_check(!memcmp(d + p, h, hn), "the length of message %d is %s, expected %s", i, mc_hex(d + p, hn), mc_hex(h, hn)); p += hn; }
    if (round && d[p] == 8) { mc_check(d[p + 1] == 9, "field 1 reads otherwise"); p += 2; u = 0; }
    hn = ref_tag(h, T_STR, 2); hn += ref_varint(h + hn, to); mc_check(!memcmp(d + p, h, hn) && !memcmp(d + p + hn, pat, to), "the string is preceded by %s, expected %s, or is another", mc_hex(d + p, hn), mc_hex(h, hn));
    p += hn + to; if (round && u) p += 2;
    mc_check(d[p] == 0x78 && d[p + 1] == 1 && p + 2 == n, "the last field is %s", mc_hex(d + p, n - p)); mc_step();
  }
  pb_validator_t v = pb_validator_create(&sc_desc); e = pb_validator_check(&v, &j.buffer); mc_check(depth ? e == PB_ERROR_ABSENT : !e, "validation ends with %d", e); pb_validator_destroy(&v);
  mc_state(mc_hash(&to, sizeof to, depth * 64 + way * 16 + off)); mc_outcome(mc_hash(&to, sizeof to, depth));
  pb_field_destroy(&fs); pb_field_destroy(&fb); for (int i = depth; i >= 0; i--) pb_message_destroy(&m[i]); pb_journal_destroy(&j); free(pat);
}

static mc_scenario list[] = {
  { "aliases", MC_DFS, aliases, .bound = "23 fields, unknown fields with a tag that differs in one of 29 bits, 4 wire types, 3 places, next to 0..2 occurrences, top level and nested, 7 operations" },
  { "tails", MC_DFS, tails, .bound = "values of 1..80 (thorough: 300) and around 127 .. 4096 (65536) bytes, of which one (every one, or around each border) changes, written in 9 ways" },
  { "bits", MC_DFS, bits, .bound = "14 types, 10 values, every bit changed, 7 ways to write" },
  { "borders", MC_DFS, borders, .bound = "contents of 2^21 (thorough: and 2^28) minus 14 to plus 3 bytes below 0..2 messages, grown and shrunk, 4 ways" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th;
  for (size_t i = 0; i < sizeof big; i++) big[i] = 'a' + i % 23;
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
