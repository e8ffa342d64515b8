/*
 * Lengths beyond what 31 and 32 bits hold: messages of up to 13 GB in address
 * space that is reserved but never touched (zero copy), decoded, validated,
 * read and written in place. Only the borders of the records are looked at.
 */
#include "schema.h"
#include <protobluff/util.h>
#include <sys/resource.h>

static const uint64_t ls[] = { 3, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff };
enum { NL = 8, RECS = 3 };
static int full; static uint8_t *p; static const size_t room = 14ull << 30;

static size_t vput(uint8_t *d, uint64_t v) { size_t n = 0; while (v > 127) { d[n++] = v | 128; v >>= 7; } d[n++] = v; return n; }
typedef struct { uint32_t tag; size_t off, end; int kind; size_t str, strend, in; } rec;
static rec r[RECS + 1]; static int nr; static size_t n;

/* a record of any length; the bytes of its payload are those of fresh pages, marked at both ends */
static size_t lenrec(size_t o, uint32_t tag, size_t l, rec *x) {
  o += vput(p + o, (uint64_t)tag << 3 | 2); o += vput(p + o, l);
  x->tag = tag; x->off = o; x->end = o + l;
  return o;
}
static void mark(size_t o, size_t e, int k) { if (e > o) { p[o] = 'A' + k; p[e - 1] = 'a' + k; } }

typedef struct { int i, depth; size_t str, strend; int inner; } ev;
static pb_error_t seen(const pb_field_descriptor_t *f, const void *v, void *u) {
  ev *e = u; uint32_t t = pb_field_descriptor_tag(f); mc_step();
  if (e->depth) {
    static const uint32_t ts[] = { T_STR, T_SUB, T_U32, T_BOOL };
    mc_check(e->inner < 4 && t == ts[e->inner], "field %u in the submessage", t); e->inner++;
    if (t == T_STR) { const pb_string_t *s = v; mc_check(s->data == p + e->str && s->data + s->size == p + e->strend, "string in the submessage: %zu bytes, expected %zu", s->size, e->strend - e->str); }
    if (t == T_U32) mc_check(*(uint32_t *)v == 0x21, "value in the submessage is %u", *(uint32_t *)v);
    return PB_ERROR_NONE;
  }
  while (e->i < nr && r[e->i].tag == T_UNK) e->i++;
  mc_check(e->i < nr && t == r[e->i].tag, "field %u is reported, expected %u", t, e->i < nr ? r[e->i].tag : 0);
  rec *x = &r[e->i++];
  switch (x->kind) {
    case 0: case 3: { const pb_string_t *s = v; mc_check(s->data == p + x->off && s->size == x->end - x->off, "string of %zu bytes, expected %zu", s->size, x->end - x->off); break; }
    case 1: mc_check(*(uint32_t *)v == 0x55, "value %u", *(uint32_t *)v); break;
    case 5: mc_check(*(uint8_t *)v == 1, "value %u", *(uint8_t *)v); break;
    case 4: { ev s = { 0, 1, x->str, x->strend, 0 }; mc_check(pb_decoder_decode((pb_decoder_t *)v, seen, &s) == PB_ERROR_NONE && s.inner == 4, "the submessage is not decoded"); break; }
  }
  return PB_ERROR_NONE;
}
static pb_error_t skip(const pb_field_descriptor_t *f, const void *v, void *u) {
  (void)u; return pb_field_descriptor_type(f) == PB_TYPE_MESSAGE ? pb_decoder_decode((pb_decoder_t *)v, skip, u) : PB_ERROR_NONE;
}

/* draws a message; 0 if it is not one of those looked at */
static int build(void) {
  int kinds[RECS], l[RECS], count = 1 + mc_choose(RECS), huge = 0, once[6] = { 0 };
  for (int i = 0; i < count; i++) { kinds[i] = mc_choose(5); l[i] = kinds[i] == 1 ? 0 : mc_choose(NL); huge += l[i] > 0; if (kinds[i] != 2 && kinds[i] != 3 && once[kinds[i]]++) return 0; }
  if (!huge) return 0;
  if (!mc_shard()) return 0;
  if (!p) { p = mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) p = NULL; }
  if (!p) { mc_trace("no address space for this"); return 0; }
  size_t o = 0; nr = 0;
  for (int i = 0; i < count; i++) {
    rec *x = &r[nr++]; size_t L = ls[l[i]]; memset(x, 0, sizeof *x); x->kind = kinds[i];
    switch (kinds[i]) {
      case 0: mc_trace("a string of %zu bytes", L); o = lenrec(o, T_STR, L, x); mark(x->off, x->end, i); o = x->end; break;
      case 1: mc_trace("a number"); o += vput(p + o, T_U32 << 3); x->tag = T_U32; x->off = o; p[o++] = 0x55; x->end = o; break;
      case 2: mc_trace("an unknown field of %zu bytes", L); o = lenrec(o, T_UNK, L, x); mark(x->off, x->end, i); o = x->end; break;
      case 3: mc_trace("an occurrence of %zu bytes", L); o = lenrec(o, T_REPSTR, L, x); mark(x->off, x->end, i); o = x->end; break;
      case 4: {
        /* { string; { 1 }; number; 1 } of L bytes in all: the string takes what is left */
        if (L < 20) L = 20;
        mc_trace("a submessage of %zu bytes", L);
        rec y; o = lenrec(o, T_SUB, L, x);
        size_t rest = L - 8, k = 1; while (rest - 1 - k >= 1ull << (7 * k)) k++;
        size_t c = lenrec(o, T_STR, rest - 1 - k, &y); (void)c;
        if (y.end != x->end - 8) { mc_trace("no such length"); return 0; }
        x->str = y.off; x->strend = y.end; mark(y.off, y.end, i); o = y.end;
        p[o++] = T_SUB << 3 | 2; p[o++] = 2; p[o++] = T_BOOL << 3; p[o++] = 1; p[o++] = T_U32 << 3; x->in = o; p[o++] = 0x21; p[o++] = T_BOOL << 3; p[o++] = 1;
        break;
      }
    }
  }
  rec *x = &r[nr++]; memset(x, 0, sizeof *x); x->kind = 5; x->tag = T_BOOL;
  o += vput(p + o, T_BOOL << 3); x->off = o; p[o++] = 1; x->end = o;
  n = o;
  mc_state(mc_hash(kinds, count * sizeof *kinds, mc_hash(l, count * sizeof *l, count)));
  return 1;
}
static void fresh(void) { if (p) for (int i = 0; i < nr; i++) { madvise((void *)((uintptr_t)(p + r[i].off) & ~4095ull), 8192, MADV_DONTNEED); } madvise(p, 1 << 16, MADV_DONTNEED); madvise(p, room, MADV_DONTNEED); }

static rec *find(uint32_t tag) { for (int i = 0; i < nr; i++) if (r[i].tag == tag) return &r[i]; return NULL; }

static void decode(void) {
  if (!build()) return;
  pb_buffer_t b = pb_buffer_create_zero_copy(p, n); pb_decoder_t d = pb_decoder_create(&sc_desc, &b); ev e = { 0 };
  pb_error_t x = pb_decoder_decode(&d, seen, &e); mc_step();
  while (e.i < nr && r[e.i].tag == T_UNK) e.i++;
  mc_check(!x && e.i == nr, "decoding fails with %d after %d of %d records", x, e.i, nr);
  pb_validator_t v = pb_validator_create(&sc_desc);
  x = pb_validator_check(&v, &b); mc_step(); mc_check(!x, "validating fails with %d", x);
  pb_decoder_destroy(&d); pb_buffer_destroy(&b);
  /* cut: everywhere around the borders of the records, and to what 32 and 31 bits keep of the size */
  size_t at[64]; int k = 0;
  for (int i = 0; i < nr; i++) {
    at[k++] = r[i].end - 1; at[k++] = r[i].off; at[k++] = r[i].off - 1; at[k++] = r[i].off + 1;
    if (r[i].str) { at[k++] = r[i].strend; at[k++] = r[i].strend - 1; at[k++] = r[i].str; at[k++] = r[i].end - 2; }
  }
  at[k++] = n & 0xffffffff; at[k++] = n & 0x7fffffff; at[k++] = n - 0x80000000;
  for (int i = 0; i < k; i++) {
    size_t c = at[i]; if (!c || c >= n) continue;
    int whole = 0; for (int z = 0; z < nr; z++) whole |= c == r[z].end;
    b = pb_buffer_create_zero_copy(p, c); d = pb_decoder_create(&sc_desc, &b);
    x = pb_decoder_decode(&d, skip, NULL); mc_step();
    mc_check(!x == whole, "cut to %zu of %zu bytes, decoding returns %d", c, n, x);
    x = pb_validator_check(&v, &b); mc_step();
    mc_check(whole ? x == PB_ERROR_ABSENT : x, "cut to %zu of %zu bytes (without the required field), validating returns %d", c, n, x);
    pb_decoder_destroy(&d); pb_buffer_destroy(&b);
  }
  pb_validator_destroy(&v);
  mc_outcome(n); fresh();
}

static void message(void) {
  if (!build()) return;
  pb_journal_t j = pb_journal_create_zero_copy(p, n); pb_message_t m = pb_message_create(&sc_desc, &j); mc_check(pb_message_valid(&m), "no message");
  uint32_t v; uint8_t b; pb_string_t s; pb_error_t e; rec *x;
  for (int round = 0; round < 2; round++) {
    x = find(T_BOOL); e = pb_message_get(&m, T_BOOL, &b); mc_step(); mc_check(!e && b == 1 - round, "the last field reads %u, error %d", b, e);
    x = find(T_U32); mc_check(pb_message_has(&m, T_U32) == !!x, "has");
    if (x) { e = pb_message_get(&m, T_U32, &v); mc_step(); mc_check(!e && v == (round ? 0x56 : 0x55), "the number reads %u, error %d", v, e); }
    x = find(T_STR); mc_check(pb_message_has(&m, T_STR) == !!x, "has");
    if (x) { e = pb_message_get(&m, T_STR, &s); mc_step(); mc_check(!e && s.data == p + x->off && s.size == x->end - x->off, "a string of %zu bytes, expected %zu (error %d)", s.size, x->end - x->off, e); }
    x = find(T_SUB); mc_check(pb_message_has(&m, T_SUB) == !!x, "has");
    if (x) {
      static const pb_tag_t pu[] = { T_SUB, T_U32 }, ps[] = { T_SUB, T_STR }, pd[] = { T_SUB, T_SUB }, pn[] = { T_SUB, T_SI };
      e = pb_message_nested_get(&m, pu, 2, &v); mc_step(); mc_check(!e && v == 0x21u + round, "the number in the submessage reads %u, error %d", v, e);
      e = pb_message_nested_get(&m, ps, 2, &s); mc_step(); mc_check(!e && s.data == p + x->str && s.size == x->strend - x->str, "a string of %zu bytes in the submessage (error %d)", s.size, e);
      mc_check(pb_message_nested_has(&m, pd, 2) && !pb_message_nested_has(&m, pn, 2), "has in the submessage");
      pb_message_t in = pb_message_create_within(&m, T_SUB); mc_check(pb_message_valid(&in), "no submessage");
      e = pb_message_get(&in, T_U32, &v); mc_step(); mc_check(!e && v == 0x21u + round, "the number in the submessage reads %u, error %d", v, e);
      v = 0x22; if (!round) { e = pb_message_put(&in, T_U32, &v); mc_step(); mc_check(!e, "a write of the same size fails with %d", e); }
      v = 300; e = pb_message_put(&in, T_U32, &v); mc_step(); mc_check(e, "a write of another size works");
      pb_message_destroy(&in);
    }
    pb_cursor_t c = pb_cursor_create(&m, T_REPSTR);
    for (int i = 0, first = 1; i < nr; i++) if (r[i].tag == T_REPSTR) {
      if (!first) mc_check(pb_cursor_next(&c), "the cursor ends early");
      first = 0; mc_check(pb_cursor_valid(&c), "no occurrence");
      e = pb_cursor_get(&c, &s); mc_step();
      mc_check(!e && s.data == p + r[i].off && s.size == r[i].end - r[i].off, "occurrence of %zu bytes, expected %zu (error %d)", s.size, r[i].end - r[i].off, e);
    }
    mc_check(!pb_cursor_valid(&c) || !pb_cursor_next(&c), "the cursor goes on"); mc_step();
    pb_cursor_destroy(&c);
    if (!round) {
      b = 0; e = pb_message_put(&m, T_BOOL, &b); mc_step(); mc_check(!e, "a write of the same size fails with %d", e);
      if ((x = find(T_U32))) {
        v = 300; e = pb_message_put(&m, T_U32, &v); mc_step(); mc_check(e, "a write of another size works");
        pb_field_t f = pb_field_create(&m, T_U32); v = 0x56; e = pb_field_put(&f, &v); mc_step(); mc_check(!e, "a write of the same size fails with %d", e); pb_field_destroy(&f);
      }
    }
  }
  /* nothing else has changed */
  for (int i = 0; i < nr; i++) {
    if (r[i].kind == 0 || r[i].kind == 2 || r[i].kind == 3) mc_check(p[r[i].off] == 'A' + i && p[r[i].end - 1] == 'a' + i, "record %d has changed", i);
    if (r[i].kind == 4) mc_check(p[r[i].str] == 'A' + i && p[r[i].strend - 1] == 'a' + i && p[r[i].in] == 0x22, "submessage %d has changed", i);
  }
  mc_check(p[find(T_BOOL)->off] == 0 && !p[n], "the end has changed");
  pb_message_destroy(&m); pb_journal_destroy(&j);
  mc_outcome(n); fresh();
}

/* -- length prefixes that grow from three to four and from four to five bytes -------------- */

static uint8_t *fill, *want; static const size_t fill_size = (1ull << 28) + (1 << 20);
static void *reserve(size_t z) { void *q = mmap(0, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { fprintf(stderr, "no memory\n"); _exit(3); } return q; }
static size_t hput(uint8_t *d, uint32_t tag, uint64_t v) { size_t o = vput(d, tag << 3); return o + vput(d + o, v); }
static size_t hlen(uint32_t tag, size_t z) { uint8_t t[16]; return vput(t, tag << 3) + vput(t, z); }
/* innermost: string, number unless erased, flag if put; within `levels` submessages, each with a number behind */
static size_t inner(size_t str, int num, int flag) { return hlen(T_STR, str) + str + (num ? 2 : 0) + (flag ? 2 : 0); }
static size_t compose(uint8_t *d, int levels, size_t str, int num, int flag) {
  size_t z[4], o; z[levels] = inner(str, num, flag);
  for (int i = levels; i > 1; i--) z[i - 1] = hlen(T_SUB, z[i]) + z[i] + 2;
  o = hput(d, T_U32, 5);
  for (int i = 1; i <= levels; i++) { o += vput(d + o, T_SUB << 3 | 2); o += vput(d + o, z[i]); }
  o += vput(d + o, T_STR << 3 | 2); o += vput(d + o, str); memcpy(d + o, fill, str); o += str;
  if (num) o += hput(d + o, T_SI, 2);
  if (flag) o += hput(d + o, T_BOOL, 1);
  for (int i = levels; i > 1; i--) o += hput(d + o, T_U32, 7);
  return o + hput(d + o, T_ENUM, 1);
}
static void grow(void) {
  int b = mc_choose(2), levels = 1 + mc_choose(3), op = mc_choose(4), d1 = mc_choose(5) - 2, d2 = mc_choose(5) - 2, which = mc_choose(levels);
  if (op > 1 && d2) return;
  if (b && (which || levels == 3 || d1 * d1 + d2 * d2 > (full ? 8 : 1) || (d1 == d2 && op < 2))) return;
  if (!mc_shard()) return;
  if (!fill) { fill = reserve(fill_size); want = reserve(fill_size); for (size_t i = 0; i < fill_size; i += 4093) fill[i] = 1 + i % 251; }
  /* the submessage `which` levels above the innermost one is to be d1 (then d2) from the border */
  size_t B = b ? 1ull << 28 : 1 << 21, over = 0; 
  size_t s1 = B - 64, s2; int num = 1, flag = 0;
  for (size_t *s = &s1, k = 0; k < 2; k++, s = &s2) {
    *s = B - 64;
    for (;; ++*s) { size_t z = inner(*s, 1, 0); for (int i = 0; i < which; i++) z = hlen(T_SUB, z) + z + 2; if ((long)z - (long)B >= (k ? d2 : d1)) { over = z; break; } }
  }
  (void)over;
  mc_trace("border %zu, %d levels, operation %d, %zu to %zu bytes", B, levels, op, s1, s2);
  size_t o = compose(want, levels, s1, 1, 0);
  pb_journal_t j = pb_journal_create(want, o); pb_message_t m = pb_message_create(&sc_desc, &j), in = pb_message_create_within(&m, T_SUB), t;
  for (int i = 1; i < levels; i++) { t = pb_message_create_within(&in, T_SUB); pb_message_destroy(&in); in = t; }
  pb_field_t last = pb_field_create(&m, T_ENUM), fs = pb_field_create(&in, T_STR), fn = pb_field_create(&in, T_SI);
  pb_tag_t path[] = { T_SUB, T_SUB, T_SUB, 0 }; path[levels] = T_STR;
  pb_error_t e; pb_string_t s = { fill, s2 }; uint8_t y = 1; int32_t x; pb_enum_t z;
  switch (op) {
    case 0: e = pb_message_nested_put(&m, path, levels + 1, &s); break;
    case 1: e = pb_field_put(&fs, &s); break;
    case 2: e = pb_message_put(&in, T_BOOL, &y); flag = 1; s2 = s1; break;
    default: e = pb_message_erase(&in, T_SI); num = 0; s2 = s1; break;
  }
  mc_step(); mc_check(!e, "the update fails with %d", e);
  o = compose(want, levels, s2, num, flag);
  mc_check(sc_size(&j) == o, "%zu bytes, expected %zu", sc_size(&j), o);
  if (memcmp(sc_data(&j), want, o)) { size_t i = 0; while (sc_data(&j)[i] == want[i]) i++; mc_fail("byte %zu of %zu is %02x, expected %02x", i, o, sc_data(&j)[i], want[i]); }
  mc_me->checks++;
  e = pb_field_get(&last, &z); mc_step(); mc_check(!e && z == 1, "the handle of the last field is lost (error %d)", e);
  e = pb_field_get(&fs, &s); mc_step(); mc_check(!e && s.size == s2, "the handle of the string is lost (error %d)", e);
  if (num) { e = pb_field_get(&fn, &x); mc_step(); mc_check(!e && x == 1, "the handle of the number is lost (error %d)", e); }
  mc_state(mc_hash(&s2, sizeof s2, s1 * 31 + levels * 8 + op + b)); mc_outcome(o);
  pb_field_destroy(&fn); pb_field_destroy(&fs); pb_field_destroy(&last); pb_message_destroy(&in); pb_message_destroy(&m); pb_journal_destroy(&j);
  if (b) madvise(want, fill_size, MADV_DONTNEED);
}

/* -- values too long for any length prefix are refused ------------------------------------- */

static void *small_alloc(void *d, size_t n) { (void)d; return n < 1 << 20 ? malloc(n) : NULL; }
static void *small_resize(void *d, void *q, size_t n) { (void)d; return n < 1 << 20 ? realloc(q, n) : NULL; }
static void small_free(void *d, void *q) { (void)d; free(q); }
static void *map_alloc(void *d, size_t k) { (void)d; void *q = mmap(0, k + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) return NULL; *(size_t *)q = k + 4096; return (char *)q + 4096; }
static void map_free(void *d, void *q) { (void)d; munmap((char *)q - 4096, *(size_t *)((char *)q - 4096)); }
static void *map_resize(void *d, void *q, size_t k) { void *x = map_alloc(d, k); if (x && q) { size_t o = *(size_t *)((char *)q - 4096) - 4096; memcpy(x, q, o < k ? o : k); map_free(d, q); } return x; }
/* packed values whose bytes do not fit a prefix; there is memory for them, should anybody want it */
static void refuse_packed(void) {
  if (!mc_shard()) return;                            /* one at a time */
  size_t count = ((size_t[]){ 1ull << 30, (1ull << 30) + 1, (1ull << 30) + 33 })[mc_choose(3)]; int front = mc_choose(2);
  if (!p) { p = mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) p = NULL; }
  if (!p) { mc_trace("no address space for this"); return; }
  pb_allocator_t a = { .proc = { map_alloc, map_resize, map_free } }; pb_encoder_t e = pb_encoder_create_with_allocator(&a, &sc_desc); uint32_t v = 7;
  if (front) mc_check(!pb_encoder_encode(&e, T_U32, &v, 1), "a number is refused");
  mc_trace("encoder: %zu packed values of four bytes", count); pb_error_t err = pb_encoder_encode(&e, T_PF32, p, count); mc_step();
  mc_check(err && pb_encoder_valid(&e) && pb_buffer_size(&e.buffer) == (front ? 2 : 0), "encoding %zu packed values ends with %d and %zu bytes", count, err, pb_buffer_size(&e.buffer));
  err = pb_encoder_encode(&e, T_U32, &v, 1); mc_check(!err && pb_buffer_size(&e.buffer) == (front ? 4 : 2), "the next value ends with %d", err);
  mc_outcome(count); mc_state(count + front); pb_encoder_destroy(&e);
}
static void refuse(void) {
  static const size_t zs[] = { 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 3, (1ull << 32) + 127, (1ull << 32) + 128, (1ull << 33) + 5, (5ull << 32) + 300, (1ull << 48) + 7 };
  size_t z = zs[mc_choose(8)]; int op = mc_choose(8), front = mc_choose(3), deep = mc_choose(2);
  if (!mc_shard()) return;
  pb_allocator_t a = { .proc = { small_alloc, small_resize, small_free } };
  if (op < 4) {                                       /* encoder: alone, in a submessage, first or last of two */
    static const pb_tag_t ts[] = { T_STR, T_REPSTR, T_REPSTR, T_BYTES };
    pb_encoder_t e = pb_encoder_create_with_allocator(&a, &sc_desc), o = pb_encoder_create_with_allocator(&a, &sc_desc);
    uint32_t v = 7; for (int i = 0; i < front; i++) { v += 300; mc_check(!pb_encoder_encode(&e, T_U32, &v, 1), "a number is refused"); }
    uint8_t was[32]; size_t n = pb_buffer_size(&e.buffer); if (n) memcpy(was, pb_buffer_data(&e.buffer), n);
    pb_string_t s[2] = { { (uint8_t *)"abc", 3 }, { (uint8_t *)"abc", 3 } }; s[op == 2].size = z;
    mc_trace("encoder: %zu bytes, case %d behind %d fields", z, op, front);
    pb_error_t err = pb_encoder_encode(&e, ts[op], s, op == 1 || op == 2 ? 2 : 1); mc_step();
    mc_check(err, "encoding a string of %zu bytes works", z);
    mc_check(pb_encoder_valid(&e) && pb_buffer_size(&e.buffer) == n && (!n || !memcmp(was, pb_buffer_data(&e.buffer), n)), "a refused string of %zu bytes leaves %zu bytes, before %zu", z, pb_buffer_size(&e.buffer), n);
    s[0].size = 2; err = pb_encoder_encode(&e, T_STR, s, 1); mc_step();
    mc_check(!err && pb_buffer_size(&e.buffer) == n + 4 && !memcmp(pb_buffer_data(&e.buffer) + n, "\x12\x02" "ab", 4), "a short string behind one that is too long is encoded wrongly");
    if (deep) { err = pb_encoder_encode(&o, T_SUB, &e, 1); mc_check(!err && pb_buffer_size(&o.buffer) == n + 6, "embedding an encoder which refused a string"); }
    mc_outcome(n); mc_state(mc_hash(&z, sizeof z, op * 16 + front * 4 + deep)); pb_encoder_destroy(&o); pb_encoder_destroy(&e);
    return;
  }
  /* message: put over the string that is there, by tag, path, field, cursor */
  static const uint8_t im[] = { T_U32 << 3, 5, T_STR << 3 | 2, 3, 'o', 'l', 'd', T_SUB << 3 | 2, 9, T_STR << 3 | 2, 3, 'o', 'l', 'd', T_SUB << 3 | 2, 2, T_U32 << 3, 6, 0x92, 1, 1, 'x', 0 };
  if (front) return;
  size_t n = sizeof im - 1;
  if (z > room) return;                               /* nobody has that many bytes */
  if (!p) { p = mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) p = NULL; }
  if (!p) return;
  pb_journal_t j = pb_journal_create_with_allocator(&a, im, n);
  pb_message_t m = pb_message_create(&sc_desc, &j), sub = pb_message_create_within(&m, T_SUB), *t = deep ? &sub : &m;
  pb_field_t f = pb_field_create(t, T_STR); pb_string_t s = { p, z }, r; pb_tag_t path[] = { T_SUB, T_STR }; pb_error_t err; pb_cursor_t c;
  mc_trace("message: %zu bytes, case %d, %s", z, op, deep ? "in a submessage" : "outside");
  switch (op) {
    case 4: err = pb_message_put(t, T_STR, &s); break;
    case 5: err = pb_message_nested_put(&m, path, 2, &s); break;
    case 6: err = pb_field_put(&f, &s); break;
    default: c = pb_cursor_create(t, T_STR); err = pb_cursor_put(&c, &s); pb_cursor_destroy(&c); break;
  }
  mc_step(); mc_check(err, "writing %zu bytes works", z);
  mc_check(sc_size(&j) == n && !memcmp(sc_data(&j), im, n), "a refused write of %zu bytes leaves %s", z, mc_hex(sc_data(&j), sc_size(&j)));
  err = pb_field_get(&f, &r); mc_step(); mc_check(!err && r.size == 3 && !memcmp(r.data, "old", 3), "the string is lost");
  r.data = (uint8_t *)"newer"; r.size = 5; err = pb_message_put(t, T_STR, &r); mc_step(); mc_check(!err && sc_size(&j) == n + 2, "a short string is refused afterwards (error %d)", err);
  mc_outcome(op); mc_state(mc_hash(&z, sizeof z, op * 16 + front * 4 + deep + 1024));
  pb_field_destroy(&f); pb_message_destroy(&sub); pb_message_destroy(&m); pb_journal_destroy(&j);
}

static void setup(int thorough) { full = thorough; sc_setup(); }
int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "hdecode", MC_DFS, decode, .bound = "every sequence of up to 3 records (string, number, unknown field, repeated string, submessage) of 8 lengths, at least one around 2^31 or 2^32, decoded, validated, and cut at every border and to what 31 and 32 bits keep of the size" },
    { "hmessage", MC_DFS, message, .bound = "every sequence of up to 3 records (string, number, unknown field, repeated string, submessage) of 8 lengths, at least one around 2^31 or 2^32, read and written in place" },
    { "hgrow", MC_DFS, grow, .bound = "submessages on 1 to 3 levels whose length is up to 2 bytes from 2^21 or 2^28 (quick: around 2^28 on 2 levels), changed by putting a string by path or by handle, by adding and by erasing a field" },
    { "hpacked", MC_DFS, refuse_packed, .bound = "packed values of 2^32 bytes and little more, alone or behind a field" },
    { "hrefuse", MC_DFS, refuse, .bound = "strings of 8 lengths beyond 32 bits, encoded alone or as one of two values, and put over a string in 4 ways, in a message or a submessage, without the memory for them" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
