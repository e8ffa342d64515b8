/*
 * Sizes as a dimension, second part: failures late in a history, large
 * sources, values, defaults, unknown fields and caller-owned memory, large
 * buffers cut short, and many values through every form.
 */
#include "scale.h"
#include <protobluff/util.h>

static uint8_t big[1 << 18], big2[1 << 18], img[1 << 19], exp_[1 << 19];
static pb_string_t bs(size_t n) { return pb_string_init(big, n); }
static int bytes_are(pb_journal_t *j, const uint8_t *d, size_t n) { return sc_size(j) == n && (!n || !memcmp(sc_data(j), d, n)); }

/* -- faultlong: memory runs out after many updates -------------------------------- */

enum { F_NONE, F_KINDS = 5 };
static pb_error_t fop(pb_message_t *m, int op) {
  uint32_t u; pb_string_t s;
  switch (op) {
    case 0: s = bs(9); return pb_message_put(m, T_STR, &s);
    case 1: s = bs(2); return pb_message_put(m, T_STR, &s);
    case 2: u = 0xffffffff; return pb_message_put(m, T_U32, &u);
    case 3: u = 1; return pb_message_put(m, T_U32, &u);
    default: return pb_message_erase(m, T_BYTES);
  }
}
typedef struct { size_t s; uint32_t u; int by; } fst;
static fst fnext(fst x, int op) { if (op == 0) x.s = 9; if (op == 1) x.s = 2; if (op == 2) x.u = 0xffffffff; if (op == 3) x.u = 1; if (op == 4) x.by = 0; return x; }
static size_t fimage(fst x, uint8_t *d) {
  size_t o = put_u(d, T_U32, x.u); o += put_b(d + o, T_STR, big, x.s);
  if (x.by) o += put_b(d + o, T_BYTES, big, 3);
  uint8_t t[16]; size_t k = put_u(t, T_U32, 31); o += put_b(d + o, T_SUB, t, k);
  return o + put_u(d + o, T_BOOL, 1);
}
static void faultlong(void) {
  setup_lens(thorough ? 600 : 300, thorough ? 8192 : 4096);
  int n = lens[mc_choose(nlens)], op = mc_choose(F_KINDS), k = mc_choose(4), more = mc_choose(3), start = mc_choose(2);
  if (!mc_shard()) return;
  mc_trace("%d updates, then operation %d with %s", n, op, k == 0 ? "memory" : k == 3 ? "no memory from its first request on" : k == 2 ? "its second request failing" : "its first request failing");
  fa f; fa_init(&f); uint8_t d[64]; fst x = { 2, 1, 1 }, y; size_t o = fimage(x, d);
  pb_journal_t j = pb_journal_create_with_allocator(&f.a, d, o);
  pb_message_t m = pb_message_create(&sc_desc, &j), in = pb_message_create_within(&m, T_SUB);
  pb_field_t fs = pb_field_create(&m, T_STR), fb = pb_field_create(&m, T_BOOL), fi = pb_field_create(&in, T_U32);
  pb_error_t e; uint32_t v; uint8_t b; pb_string_t s;
  for (int i = 0; i < n; i++) { int z = (i + start) & 1 ? (i >> 1 & 1 ? 1 : 3) : (i >> 1 & 1 ? 0 : 2); mc_check(!(e = fop(&m, z)), "update %d fails with %d", i, e); x = fnext(x, z); }
  y = fnext(x, op);
  if (k == 3) f.fail_from = f.requests; else fa_arm(&f, k - 1);
  e = fop(&m, op); int failed = f.failed; f.fail_from = -1; f.fail_at = -1;
  mc_check(failed || !e, "an update with memory fails with %d", e);
  uint8_t a0[64], a1[64]; size_t n0 = fimage(x, a0), n1 = fimage(y, a1);
  mc_check(!e || e == PB_ERROR_ALLOC, "error %d", e);
  mc_check(e ? bytes_are(&j, a0, n0) : bytes_are(&j, a1, n1), "after an update that reports %d the message is %s, expected %s", e, mc_hex(sc_data(&j), sc_size(&j)), e ? mc_hex(a0, n0) : mc_hex(a1, n1));
  mc_check(e == 0 || !(n1 < n0 && k == 2), "shrinking fails");
  if (e) mc_check(!(e = fop(&m, op)), "the update cannot be repeated (error %d)", e);
  x = y; mc_step();
  for (int i = 0; i < more * 9; i++) { int z = i % 4; mc_check(!(e = fop(&m, z)), "a later update fails with %d", e); x = fnext(x, z); }
  mc_check(!(e = pb_field_get(&fs, &s)) && s.size == x.s && !memcmp(s.data, big, s.size), "the string's handle is lost (error %d)", e);
  mc_check(!(e = pb_field_get(&fb, &b)) && b == 1, "the last field's handle is lost (error %d)", e);
  mc_check(!(e = pb_field_get(&fi, &v)) && v == 31, "the handle in the submessage is lost (error %d)", e);
  n0 = fimage(x, a0); mc_check(bytes_are(&j, a0, n0), "the message is %s, expected %s", mc_hex(sc_data(&j), sc_size(&j)), mc_hex(a0, n0));
  mc_step(); mc_state(mc_hash(a0, n0, n * 64 + k * 16 + op)); mc_outcome(mc_hash(a0, n0, failed));
  pb_field_destroy(&fi); pb_field_destroy(&fb); pb_field_destroy(&fs); pb_message_destroy(&in); pb_message_destroy(&m); pb_journal_destroy(&j);
  fa_done(&f);
}

/* -- copies: messages of any size put into another ------------------------------------ */

static void copies(void) {
  setup_lens(thorough ? 2000 : 300, 65536); static const int old[] = { 0, 1, 125, 126, 127, 300, 20000 };
  int n = lens[mc_choose(nlens)], o = old[mc_choose(7)], way = mc_choose(4), self = mc_choose(2);
  if (!mc_shard()) return;
  mc_trace("a message of a string of %d bytes over one of %d, way %d", n, o, way);
  /* destination: marker, place, marker; the place is a submessage holding a string (way 3: in a submessage) */
  uint8_t *t = big2; size_t k, p; uint32_t path[] = { T_SUB, T_SUB }; uint32_t tag = way == 1 ? T_REPSUB : T_SUB;
  k = put_b(t, T_STR, big, o); p = put_u(img, T_U32, 5);
  if (way == 3) { memcpy(exp_, t, k); k = put_b(t, T_SUB, exp_, k); }
  p += put_b(img + p, tag, t, k); p += put_u(img + p, T_BOOL, 1);
  pb_journal_t j = pb_journal_create(img, p); pb_message_t m = pb_message_create(&sc_desc, &j);
  pb_field_t fb = pb_field_create(&m, T_BOOL); pb_error_t e; pb_string_t s; uint8_t b; uint32_t v;
  /* source */
  k = put_b(t, T_STR, big, n); pb_journal_t sj; pb_message_t sm, so;
  if (self) { static uint8_t w[1 << 18]; size_t z = put_b(w, T_SUB, t, k); sj = pb_journal_create(w, z); so = pb_message_create(&sc_desc, &sj); sm = pb_message_create_within(&so, T_SUB); }
  else { sj = pb_journal_create(t, k); sm = pb_message_create(&sc_desc, &sj); so = pb_message_create_invalid(); }
  if (way == 0 || way == 2) e = way ? ({ pb_cursor_t c = pb_cursor_create(&m, T_SUB); pb_error_t q = pb_cursor_put(&c, &sm); pb_cursor_destroy(&c); q; }) : pb_message_put(&m, T_SUB, &sm);
  else if (way == 1) { pb_cursor_t c = pb_cursor_create(&m, T_REPSUB); e = pb_cursor_put(&c, &sm); pb_cursor_destroy(&c); }
  else e = pb_message_nested_put(&m, path, 2, &sm);
  mc_check(!e, "putting a message fails with %d", e); mc_step();
  mc_check(!(e = pb_message_get(&sm, T_STR, &s)) && s.size == (size_t)n && !memcmp(s.data, big, n), "the source changes (error %d)", e);
  /* the source grows and shrinks, and goes */
  s = bs(n + 130); mc_check(!(e = pb_message_put(&sm, T_STR, &s)), "the source cannot be updated (error %d)", e);
  s = bs(1); mc_check(!(e = pb_message_put(&sm, T_STR, &s)), "the source cannot be updated (error %d)", e);
  pb_message_destroy(&sm); if (self) pb_message_destroy(&so); pb_journal_destroy(&sj);
  k = put_b(t, T_STR, big, n); p = put_u(img, T_U32, 5);
  if (way == 3) { memcpy(exp_, t, k); k = put_b(t, T_SUB, exp_, k); }
  p += put_b(img + p, tag, t, k); p += put_u(img + p, T_BOOL, 1);
  mc_check(bytes_are(&j, img, p), "the message has %zu bytes, expected %zu, or other bytes", sc_size(&j), p); mc_step();
  mc_check(!(e = pb_field_get(&fb, &b)) && b == 1, "a handle behind is lost (error %d)", e);
  v = 300; mc_check(!(e = pb_message_put(&m, T_U32, &v)) && !(e = pb_field_get(&fb, &b)) && b == 1, "a later update fails with %d", e);
  mc_check(ref_wellformed(&sc_desc, sc_data(&j), sc_size(&j)), "the message is not well formed");
  mc_state(mc_hash(img, p, way)); mc_outcome(mc_hash(sc_data(&j), sc_size(&j), 0));
  pb_field_destroy(&fb); pb_message_destroy(&m); pb_journal_destroy(&j);
}

/* -- zero: caller-owned memory of any size --------------------------------------------- */

static void zero(void) {
  setup_lens(thorough ? 2000 : 300, 65536); int n = lens[mc_choose(nlens)], deep = mc_choose(2), op = mc_choose(8);
  if (!mc_shard()) return;
  uint8_t *t = big2; size_t k = put_u(t, T_U32, 300), p; k += put_b(t + k, T_STR, big, n);
  if (deep) { memcpy(exp_, t, k); k = put_b(t, T_SUB, exp_, k); }
  memcpy(img, t, k); p = k + put_u(img + k, T_BOOL, 1);
  uint8_t *own = malloc(p); memcpy(own, img, p);
  pb_journal_t j = pb_journal_create_zero_copy(own, p);
  pb_message_t m = pb_message_create(&sc_desc, &j), in = deep ? pb_message_create_within(&m, T_SUB) : pb_message_copy(&m);
  pb_error_t e; uint32_t v; pb_string_t s; int fits = 0; static uint8_t other[1 << 17]; memset(other, 'z', sizeof other);
  switch (op) {
    case 0: s = pb_string_init(other, n); e = pb_message_put(&in, T_STR, &s); fits = 1; break;
    case 1: s = pb_string_init(other, n + 1); e = pb_message_put(&in, T_STR, &s); break;
    case 2: if (!n) { e = 1; break; } s = pb_string_init(other, n - 1); e = pb_message_put(&in, T_STR, &s); break;
    case 3: v = 400; e = pb_message_put(&in, T_U32, &v); fits = 2; break;
    case 4: v = 7; e = pb_message_put(&in, T_U32, &v); break;
    case 5: e = pb_message_erase(&in, T_STR); break;
    case 6: s = pb_string_init(other, n + 65536); e = pb_message_put(&in, T_STR, &s); break;
    default: if (n <= 256) { e = 1; break; } s = pb_string_init(other, n - 256); e = pb_message_put(&in, T_STR, &s); break;
  }
  mc_step();
  if (fits) mc_check(!e, "an update that keeps the size fails with %d", e); else mc_check(e, "an update that changes the size succeeds");
  size_t at = p - put_u(t, T_BOOL, 1) - n;
  if (fits == 1) memset(img + at, 'z', n);
  if (fits == 2) { uint8_t r[8]; size_t rn = put_u(r, T_U32, 300); uint8_t *w = memmem(img, p, r, rn); put_u(w, T_U32, 400); }
  mc_check(pb_buffer_data(&j.buffer) == own && bytes_are(&j, img, p), "the memory of %zu bytes holds other bytes, or is not the caller's any more", p);
  uint8_t b; mc_check(!(e = pb_message_get(&m, T_BOOL, &b)) && b == 1, "a field behind is lost (error %d)", e);
  if (op != 5 || e) mc_check(!(e = pb_message_get(&in, T_STR, &s)) && s.size == (size_t)n && s.data == own + at, "the string is not in the caller's memory (error %d)", e);
  mc_state(mc_hash(img, p, op)); mc_outcome(mc_hash(own, p, op));
  pb_message_destroy(&in); pb_message_destroy(&m); pb_journal_destroy(&j); free(own);
}

/* -- defaults of any size ------------------------------------------------------------------ */

static void defaults(void) {
  setup_lens(thorough ? 2000 : 300, 65536); int n = lens[mc_choose(nlens)], type = mc_choose(2) ? PB_TYPE_BYTES : PB_TYPE_STRING, depth = mc_choose(3), way = mc_choose(3);
  if (!mc_shard()) return;
  static pb_string_t def; static pb_descriptor_t ty; static pb_field_descriptor_t fd[3];
  def = bs(n); uint32_t tag = n % 2 ? 15 : 16;
  ref_field_init(&fd[0], (ref_fd){ 1, PB_TYPE_UINT32, PB_LABEL_OPTIONAL }); ref_field_init(&fd[1], (ref_fd){ 5, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &ty });
  ref_field_init(&fd[2], (ref_fd){ tag, type, PB_LABEL_OPTIONAL, 0, NULL, &def }); ref_descriptor_init(&ty, fd, 3, NULL);
  uint8_t *t = big2; size_t k;
  /* depth messages, each with a marker in front */
  k = put_u(t, 1, 9); for (int i = 0; i < depth; i++) { memcpy(exp_, t, k); size_t q = put_u(t, 1, 9); k = q + put_b(t + q, 5, exp_, k); }
  pb_journal_t j = pb_journal_create(t, k); pb_message_t m[3]; m[0] = pb_message_create(&ty, &j);
  for (int i = 1; i <= depth; i++) m[i] = pb_message_create_within(&m[i - 1], 5);
  pb_error_t e; pb_string_t s;
  mc_check(!pb_message_has(&m[depth], tag), "an absent field is present");
  mc_check(!(e = pb_message_get(&m[depth], tag, &s)) && s.size == (size_t)n && !memcmp(s.data, big, n), "the default of %d bytes reads as %zu bytes (error %d)", n, s.size, e);
  mc_check(bytes_are(&j, t, k), "reading a default changes the message"); mc_step();
  pb_field_t f = pb_field_create(&m[depth], tag);
  mc_check(pb_field_valid(&f) && !(e = pb_field_get(&f, &s)) && s.size == (size_t)n && !memcmp(s.data, big, n), "a created field holds %zu bytes of %d (error %d)", s.size, n, e);
  size_t w = n;
  if (way == 1) { w = 3; s = bs(3); mc_check(!(e = pb_field_put(&f, &s)), "writing fails with %d", e); }
  if (way == 2) { w = n + 129; s = bs(w); mc_check(!(e = pb_field_put(&f, &s)), "writing fails with %d", e); }
  k = put_u(t, 1, 9); k += put_b(t + k, tag, big, w);
  for (int i = 0; i < depth; i++) { memcpy(exp_, t, k); size_t q = put_u(t, 1, 9); k = q + put_b(t + q, 5, exp_, k); }
  uint8_t *u = img; size_t q = put_b(u, tag, big, w); q += put_u(u + q, 1, 9);
  for (int i = 0; i < depth; i++) { memcpy(exp_, u, q); size_t z = put_u(u, 1, 9); q = z + put_b(u + z, 5, exp_, q); }
  mc_check(bytes_are(&j, t, k) || bytes_are(&j, u, q), "the message has %zu bytes, expected %zu, or other bytes", sc_size(&j), k); mc_step();
  mc_state(mc_hash(t, k, way)); mc_outcome(mc_hash(sc_data(&j), sc_size(&j), 0));
  pb_field_destroy(&f); for (int i = depth; i >= 0; i--) pb_message_destroy(&m[i]); pb_journal_destroy(&j);
}

/* -- unknowns of any size around an update -------------------------------------------------- */

static size_t unknown(uint8_t *d, int kind, int n) {
  size_t o;
  switch (kind) {
    case 0: o = ref_tag(d, T_UNK, 2); o += ref_varint(d + o, n); memset(d + o, 'u', n); return o + n;
    case 1: o = ref_tag(d, T_UNK2, 2); { uint64_t l = n; for (int i = 0; i < 4; i++) { d[o++] = (l & 127) | 128; l >>= 7; } d[o++] = l; } memset(d + o, 0xff, n); return o + n;   /* over-long length */
    default: o = 0; for (int i = 0; i < n; i++) { o += ref_tag(d + o, T_UNK + i % 3, i % 2 ? 0 : 5); if (i % 2) o += ref_varint(d + o, i); else { memset(d + o, i, 4); o += 4; } } return o;    /* n records */
  }
}
static void unknowns(void) {
  setup_lens(thorough ? 600 : 200, 65536); int n = lens[mc_choose(nlens)], kind = mc_choose(3), at = mc_choose(5), op = mc_choose(4), wide = mc_choose(2);
  if (!mc_shard()) return;
  if (kind == 2 && n > 4097) n = 4097;
  uint32_t u = 5; size_t sl = 3, gn = 0; uint8_t *w = img; static uint8_t *got;
  size_t p = 0, k;
  for (int after = 0; after < 2; after++) {
    uint8_t *t = big2; p = 0;
    if (after) { w = exp_; if (op == 0) u = 300; if (op == 1) sl = 140; if (op == 2) sl = 0; if (op == 3) u = 6; }
    if (at == 0) p += unknown(w + p, kind, n);
    p += put_u(w + p, T_U32, u);
    if (at == 1) p += unknown(w + p, kind, n);
    k = 0; if (at == 2) k += unknown(t + k, kind, n);
    k += put_b(t + k, T_STR, big, sl);
    if (at == 3) k += unknown(t + k, kind, n);
    p += ref_tag(w + p, T_SUB, 2);
    if (wide && !(after && (op == 1 || op == 2))) { size_t l = k; for (int i = 0; i < 4; i++) { w[p++] = (l & 127) | 128; l >>= 7; } w[p++] = l; } else p += ref_varint(w + p, k);
    memcpy(w + p, t, k); p += k;
    if (at == 4) p += unknown(w + p, kind, n);
    p += put_u(w + p, T_BOOL, 1);
    if (!after) {
      pb_journal_t j = pb_journal_create(img, p); pb_message_t m = pb_message_create(&sc_desc, &j), in = pb_message_create_within(&m, T_SUB);
      pb_field_t fb = pb_field_create(&m, T_BOOL), fs = pb_field_create(&in, T_STR); pb_error_t e; uint32_t v; pb_string_t s; uint8_t b;
      switch (op) {
        case 0: v = 300; e = pb_message_put(&m, T_U32, &v); break;
        case 1: s = bs(140); e = pb_field_put(&fs, &s); break;
        case 2: s = bs(0); e = pb_message_put(&in, T_STR, &s); break;
        default: v = 6; e = pb_message_put(&m, T_U32, &v); break;
      }
      mc_check(!e, "the update fails with %d", e); mc_step();
      mc_check(!(e = pb_field_get(&fb, &b)) && b == 1, "a handle behind is lost (error %d)", e);
      mc_check(!(e = pb_field_get(&fs, &s)) && s.size == (op == 1 ? 140 : op == 2 ? 0 : 3), "a handle inside is lost (error %d)", e);
      gn = sc_size(&j); got = realloc(got, gn + 1); memcpy(got, sc_data(&j), gn);
      pb_field_destroy(&fs); pb_field_destroy(&fb); pb_message_destroy(&in); pb_message_destroy(&m); pb_journal_destroy(&j);
    }
  }
  mc_check(gn == p && !memcmp(got, exp_, p), "the message has %zu bytes, expected %zu, or other bytes", gn, p);
  mc_state(mc_hash(img, p, op)); mc_outcome(mc_hash(exp_, p, 0)); mc_step();
}

/* -- cuts: large buffers cut short, lengths that lie -------------------------------------------- */

static int seen, wrong; static const uint8_t *lo, *hi; static uint32_t expect_u;
static pb_error_t on_value(const pb_field_descriptor_t *f, const void *v, void *user) {
  (void)user;
  if (f->type == PB_TYPE_MESSAGE) return pb_decoder_decode(v, on_value, NULL);
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; if (s->size && (s->data < lo || s->data + s->size > hi || memcmp(s->data, big, s->size))) wrong++; seen++; }
  else { uint32_t u; memcpy(&u, v, 4); if (f->tag == T_PACK && u != expect_u++ % 1000) wrong++; seen++; }
  return PB_ERROR_NONE;
}
static pb_error_t run(const uint8_t *d, size_t n, int validate) {
  uint8_t *x = malloc(n ? n : 1); memcpy(x, d, n); lo = x; hi = x + n; seen = wrong = 0; expect_u = 0;
  pb_buffer_t b = n ? pb_buffer_create_zero_copy(x, n) : pb_buffer_create_empty(); pb_error_t e;
  if (validate) { pb_validator_t v = pb_validator_create(&sc_desc); e = pb_validator_check(&v, &b); pb_validator_destroy(&v); }
  else { pb_decoder_t dec = pb_decoder_create(&sc_desc, &b); e = pb_decoder_decode(&dec, on_value, NULL); pb_decoder_destroy(&dec); }
  pb_buffer_destroy(&b); free(x); mc_step(); return e;
}
static void cuts(void) {
  setup_lens(thorough ? 2000 : 300, 65536); int n = lens[mc_choose(nlens)], kind = mc_choose(5);
  if (!mc_shard()) return;
  uint8_t *t = big2; size_t p, k; int values = 1;
  switch (kind) {
    case 0: p = put_b(img, T_STR, big, n); break;
    case 1: k = 0; for (int i = 0; i < n; i++) k += ref_varint(t + k, i % 1000); p = put_b(img, T_PACK, t, k); values = n; break;
    case 2: k = put_b(t, T_STR, big, n); p = put_b(img, T_SUB, t, k); break;
    case 3: k = put_b(t, T_STR, big, n); memcpy(exp_, t, k); k = put_b(t, T_REPSUB, exp_, k); p = put_b(img, T_SUB, t, k); break;
    default: p = unknown(img, 0, n); values = 0; break;
  }
  mc_check(!run(img, p, 0) && !wrong && seen == values, "%zu bytes decode with %d of %d values, %d wrong", p, seen, values, wrong);
  mc_trace("%s of %d, %zu bytes", kind == 0 ? "string" : kind == 1 ? "packed values" : kind == 2 ? "string in a message" : kind == 3 ? "string in two messages" : "unknown field", n, p);
  for (size_t c = 1; c < p; c++) {
    if (p > 600 && c > 20 && c < p - 140 && (c & (c - 1)) && ((c - 1) & (c - 2)) && ((c + 1) & c) && c % 4099) continue;
    mc_check(run(img, c, 0) && !wrong && seen <= values - (kind != 1 && values), "the first %zu of %zu bytes decode, or yield wrong values (%d seen, %d wrong)", c, p, seen, wrong);
    mc_check(run(img, c, 1), "the first %zu of %zu bytes validate", c, p);
  }
  /* the outermost length says more than there is */
  static const uint64_t lie[] = { 1, 2, 127, 128, 255, 256, 65535, 65536, 65537, 1 << 24, 0x7fffffff, 0x80000000u, 0xffff0000u, 0xffffff00u };
  uint64_t len; size_t tl = 0; while (img[tl] & 128) tl++; tl++; size_t ll = ref_unvarint(img + tl, p - tl, 10, &len);
  for (size_t i = 0; i < sizeof lie / sizeof *lie; i++) {
    if (len + lie[i] > 0xffffffffu) continue;
    memcpy(exp_, img, tl); size_t q = tl + ref_varint(exp_ + tl, len + lie[i]); memcpy(exp_ + q, img + tl + ll, p - tl - ll); q += p - tl - ll;
    mc_check(run(exp_, q, 0) && !wrong && !(seen && kind != 1), "a length of %lu in front of %lu bytes is decoded (%d values)", (unsigned long)(len + lie[i]), (unsigned long)len, seen);
    mc_check(run(exp_, q, 1), "a length of %lu in front of %lu bytes is valid", (unsigned long)(len + lie[i]), (unsigned long)len);
  }
  mc_state(mc_hash(img, p, kind)); mc_outcome(n * 5 + kind);
}

/* -- forms: many values through every form --------------------------------------------------------- */

static char *etext; static size_t en;
static pb_error_t on_text(const pb_field_descriptor_t *f, const void *v, void *user) {
  if (f->tag == T_BOOL && user) { ++*(int *)user; return PB_ERROR_NONE; }
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; uint64_t h = 0; for (size_t z = 0; z < s->size; z++) h = h * 31 + s->data[z]; en += sprintf(etext + en, "%u=%zu:%lx ", f->tag, s->size, (unsigned long)h); }
  else { uint64_t u = 0; memcpy(&u, v, ref_size(f->type)); en += sprintf(etext + en, "%u=%lu ", f->tag, (unsigned long)u); }
  return PB_ERROR_NONE;
}
static void forms(void) {
  setup_lens(thorough ? 400 : 140, thorough ? 4096 : 1024); int n = lens[mc_choose(nlens)], kind = mc_choose(5);
  if (!mc_shard()) return;
  static const uint32_t tags[] = { T_REP, T_PACK, T_PF32, T_REPSTR, T_RI64 }; uint32_t tag = tags[kind];
  static uint64_t val[5000]; static uint32_t val32[5000]; static pb_string_t vs[5000];
  for (int i = 0; i < n; i++) { val[i] = i % 3 ? (uint64_t)i * 123457 : -(uint64_t)i; val32[i] = i * 7919u * (i % 5); vs[i] = bs(i % 200); }
  pb_encoder_t enc = pb_encoder_create(&sc_desc); pb_journal_t j = pb_journal_create_empty(); pb_message_t m = pb_message_create(&sc_desc, &j);
  const uint8_t one = 1; const void *vals = kind == 3 ? (void *)vs : kind == 4 ? (void *)val : (void *)val32; size_t step = kind == 3 ? sizeof *vs : kind == 4 ? 8 : 4;
  pb_error_t e; mc_check(!pb_encoder_encode(&enc, T_BOOL, &one, 1) && !pb_message_put(&m, T_BOOL, &one), "required field");
  if (n) mc_check(!(e = pb_encoder_encode(&enc, tag, vals, n)), "encoding %d values fails with %d", n, e);
  for (int i = 0; i < n; i++) mc_check(!(e = pb_message_put(&m, tag, (char *)vals + i * step)), "appending value %d fails with %d", i, e);
  char *t[2]; mc_step();
  static char *x0, *x1, *x2; if (!x0) { x0 = malloc(1 << 20); x1 = malloc(1 << 20); x2 = malloc(1 << 20); }
  t[0] = x0; t[1] = x1;
  const pb_buffer_t *eb = pb_encoder_buffer(&enc);
  for (int r = 0; r < 2; r++) {
    const pb_buffer_t *b = r ? &j.buffer : eb;
    pb_validator_t v = pb_validator_create(&sc_desc); mc_check(!(e = pb_validator_check(&v, b)), "form %d does not validate (error %d)", r, e); pb_validator_destroy(&v);
    pb_decoder_t dec = pb_decoder_create(&sc_desc, b); etext = t[r]; en = 0; etext[0] = 0; int bools = 0; mc_check(!(e = pb_decoder_decode(&dec, on_text, &bools)) && bools == 1, "form %d does not decode (error %d)", r, e); pb_decoder_destroy(&dec);
  }
  etext = x2; en = 0; etext[0] = 0; { pb_field_descriptor_t const *f = ref_lookup(&sc_desc, tag); for (int i = 0; i < n; i++) on_text(f, (char *)vals + i * step, NULL); }
  mc_check(!strcmp(x0, x2), "%d values encoded decode otherwise", n); mc_check(!strcmp(x1, x2), "%d values put into a message decode otherwise", n); mc_step();
  /* a message over what was encoded, by cursor */
  pb_journal_t ej = pb_journal_create(pb_buffer_data(eb), pb_buffer_size(eb));
  for (int r = 0; r < 2; r++) {
    pb_message_t em = pb_message_create(&sc_desc, r ? &j : &ej); pb_cursor_t c = pb_cursor_create(&em, tag); int i = 0;
    mc_check(pb_cursor_valid(&c) == (n > 0), "a cursor on %d values", n);
    if (n) do {
      uint64_t v[2]; mc_check(i < n && !(e = pb_cursor_get(&c, v)), "value %d of %d reads as error %d", i, n, e);
      mc_check(kind == 3 ? ((pb_string_t *)v)->size == vs[i].size && !memcmp(((pb_string_t *)v)->data, big, vs[i].size) : !memcmp(v, (char *)vals + i * step, step), "value %d of %d reads otherwise", i, n); i++;
    } while (pb_cursor_next(&c));
    mc_check(i == n, "a cursor finds %d of %d values", i, n); pb_cursor_destroy(&c); pb_message_destroy(&em);
  }
  mc_state(n * 5 + kind); mc_outcome(mc_hash(x0, strlen(x0), 0));
  pb_journal_destroy(&ej); pb_message_destroy(&m); pb_journal_destroy(&j); pb_encoder_destroy(&enc);
}

static mc_scenario list[] = {
  { "faultlong", MC_DFS, faultlong, .bound = "0..300 (thorough: 600) and around 511 .. 4096 (8192) updates, then one of 5 with one of 4 faults, repeated, 0, 9 or 18 more" },
  { "copies", MC_DFS, copies, .bound = "sources of 0..300 (thorough: 2000) and around 255 .. 65536 bytes over messages of 7 sizes, 4 ways, source alone or in a message" },
  { "zero", MC_DFS, zero, .bound = "caller-owned memory with strings of 0..300 (thorough: 2000) and around 255 .. 65536 bytes, 8 updates, top level and nested" },
  { "defaults", MC_DFS, defaults, .bound = "defaults of 0..300 (thorough: 2000) and around 255 .. 65536 bytes, 2 types, 3 depths, created and written" },
  { "unknowns", MC_DFS, unknowns, .bound = "unknown data of 0..200 (thorough: 600) and around 255 .. 65536 bytes or records in 3 forms at 5 places, 4 updates, minimal and long prefixes" },
  { "cuts", MC_DFS, cuts, .bound = "5 kinds of fields of 0..300 (thorough: 2000) and around 255 .. 65536 bytes, cut at every (large: every border) position, 14 lies about the length" },
  { "forms", MC_DFS, forms, .bound = "0..140 (thorough: 400) and around 255 .. 1024 (4096) values of 5 repeated fields, encoder, message, decoder, validator, cursor" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th;
  for (size_t i = 0; i < sizeof big; i++) big[i] = 'a' + i % 26;
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
