/*
 * P01 - every scalar survives a trip over the wire, in canonical form.
 *
 * sweep:  blocks of values of every scalar type through the low level codec
 *         (quick: dense and boundary blocks, thorough: every 32-bit value).
 * api:    boundary values through encoder, decoder and the message interface.
 * string: lengths around every length prefix boundary, all byte values.
 */
#include "ref.h"
#include "core/varint.h"

static pb_descriptor_t *desc_of[NTYPES + 1][3];   /* by type: tag 1, 16, 2^29-1 */
static const uint32_t tags[3] = { 1, 16, (1u << 29) - 1 };
static const pb_type_t scalars[] = { PB_TYPE_INT32, PB_TYPE_INT64, PB_TYPE_UINT32,
  PB_TYPE_UINT64, PB_TYPE_SINT32, PB_TYPE_SINT64, PB_TYPE_BOOL, PB_TYPE_ENUM,
  PB_TYPE_FIXED32, PB_TYPE_FIXED64, PB_TYPE_SFIXED32, PB_TYPE_SFIXED64,
  PB_TYPE_FLOAT, PB_TYPE_DOUBLE };
#define NSCALARS 14
#define NVARINT 8                                  /* the first eight are varints */

static uint64_t bound64[4000]; static int nbound;

static void setup(int thorough) {
  (void)thorough;
  for (int t = 1; t <= NTYPES; t++)
    for (int k = 0; k < 3; k++) {
      ref_fd f = { .tag = tags[k], .type = t, .label = PB_LABEL_OPTIONAL,
        .refer = t == PB_TYPE_ENUM ? (const void *)&ref_enum : NULL };
      desc_of[t][k] = ref_descriptor(&f, 1);
    }
  for (int s = 0; s < 64; s++)
    for (int d = -2; d <= 2; d++) {
      bound64[nbound++] = (1ull << s) + d;
      bound64[nbound++] = -((1ull << s) + d);
    }
  uint64_t extra[] = { 0, 1, 0x7ff0000000000000ull, 0x7ff8000000000001ull,
    0xfff0000000000000ull, 0x3ff0000000000000ull, 0x7f800000, 0x7fc00001,
    0xff800000, 0x3f800000, 0x0102030405060708ull, 0xf1f2f3f4f5f6f7f8ull,
    0x8080808080808080ull, 0x7f7f7f7f7f7f7f7full, 0x80808080, 0x7f7f7f7f };
  for (size_t i = 0; i < sizeof extra / 8; i++) bound64[nbound++] = extra[i];
}

/* low level: size, pack and unpack agree with the reference encoding */
static void one(pb_type_t t, uint64_t bits) {
  uint8_t val[8], want[16], got[16], back[8]; size_t sz = ref_size(t);
  memcpy(val, &bits, 8);
  size_t n = ref_scalar(t, val, want);
  memset(got, 0xEE, sizeof got);
  size_t p = pb_varint_pack(t, got, val);
  mc_check(pb_varint_size(t, val) == n, "%s %llx: size reported %zu, canonical %zu",
    ref_type_name[t], (unsigned long long)bits, pb_varint_size(t, val), n);
  mc_check(p == n && !memcmp(got, want, n) && got[n] == 0xEE,
    "%s %llx: encoded as %s, canonical %s", ref_type_name[t],
    (unsigned long long)bits, mc_hex(got, p), mc_hex(want, n));
  memset(back, 0xEE, 8);
  size_t u = pb_varint_unpack(t, got, n, back);
  mc_check(u == n && !memcmp(back, val, sz), "%s %llx: %s decodes to %s (%zu bytes read)",
    ref_type_name[t], (unsigned long long)bits, mc_hex(want, n), mc_hex(back, sz), u);
  mc_check(pb_varint_scan(got, n) == n, "%s %llx: scan of %s gives %zu",
    ref_type_name[t], (unsigned long long)bits, mc_hex(want, n), pb_varint_scan(got, n));
}

static void sweep(void) {
  int ti = mc_choose(NVARINT); pb_type_t t = scalars[ti];
  int wide = ref_size(t) == 8;
  if (t == PB_TYPE_BOOL) {
    if (!mc_shard()) return;
    for (uint32_t v = 0; v < 2; v++) { one(t, v); mc_step(); }
    mc_state(mc_hash(&ti, sizeof ti, 1));
    return;
  }
  if (!wide) {
    int hi = mc_choose(65536);
    if (!mc_shard()) return;
    /* 65536 values share the upper half; quick takes a dense border of each */
    int dense = mc_thorough || hi < 4 || hi > 65531 || hi == 0x7fff || hi == 0x8000 ||
      (hi & (hi - 1)) == 0;
    for (uint32_t lo = 0; lo < 65536; lo++) {
      if (!dense && lo == 66) lo = 65536 - 66;
      one(t, (uint32_t)hi << 16 | lo); mc_step();
    }
    uint64_t k[2] = { t, hi }; mc_state(mc_hash(k, sizeof k, 1));
  } else {
    int sh = mc_choose(64), blk = mc_choose(mc_thorough ? 256 : 16);
    if (!mc_shard()) return;
    for (uint32_t lo = 0; lo < 256; lo++) {
      uint64_t v = (uint64_t)(blk * 256 + lo) << sh;
      one(t, v); one(t, ~v); one(t, -v); mc_step();
    }
    uint64_t k[3] = { t, sh, blk }; mc_state(mc_hash(k, sizeof k, 1));
  }
}

/* public interface ---------------------------------------------------------- */

typedef struct { int n; uint32_t tag; pb_type_t type; uint8_t val[8]; uint8_t *str; size_t len; } seen;
static pb_error_t on_value(const pb_field_descriptor_t *d, const void *v, void *u) {
  seen *s = u; s->n++; s->tag = pb_field_descriptor_tag(d); s->type = pb_field_descriptor_type(d);
  if (ref_wiretype(s->type) == 2) {
    const pb_string_t *p = v; s->len = pb_string_size(p);
    s->str = mc_exact(pb_string_data(p), s->len);
  } else memcpy(s->val, v, ref_size(s->type));
  return PB_ERROR_NONE;
}

static void trip(pb_type_t t, int k, const void *val, size_t strsize, const uint8_t *want, size_t wn) {
  /* `val` is a scalar in memory, or a pb_string_t */
  const pb_descriptor_t *d = desc_of[t][k]; pb_error_t e;
  int str = ref_wiretype(t) == 2;
  pb_encoder_t enc = pb_encoder_create(d);
  e = pb_encoder_encode(&enc, tags[k], val, 1); mc_step();
  const pb_buffer_t *b = pb_encoder_buffer(&enc);
  mc_check(e == PB_ERROR_NONE && pb_buffer_size(b) == wn && !memcmp(pb_buffer_data(b), want, wn),
    "%s tag %u: encoder gave error %d, bytes %s, canonical %s", ref_type_name[t], tags[k], e,
    mc_hex(pb_buffer_data(b), pb_buffer_size(b)), mc_hex(want, wn));
  uint8_t *raw = mc_exact(want, wn);
  pb_buffer_t zc = pb_buffer_create_zero_copy(raw, wn);
  pb_decoder_t dec = pb_decoder_create(d, &zc);
  seen s = { 0 };
  e = pb_decoder_decode(&dec, on_value, &s); mc_step();
  mc_check(e == PB_ERROR_NONE && s.n == 1 && s.tag == tags[k] && s.type == t,
    "%s tag %u: decoder: error %d, %d values", ref_type_name[t], tags[k], e, s.n);
  if (str) mc_check(s.len == strsize && !memcmp(s.str, pb_string_data(val), strsize),
    "%s of %zu bytes decoded to %zu bytes", ref_type_name[t], strsize, s.len);
  else mc_check(!memcmp(s.val, val, ref_size(t)), "%s: decoder gave %s for %s",
    ref_type_name[t], mc_hex(s.val, ref_size(t)), mc_hex(val, ref_size(t)));
  free(s.str);
  pb_decoder_destroy(&dec); pb_buffer_destroy(&zc); free(raw);
  pb_encoder_destroy(&enc);

  pb_journal_t j = pb_journal_create_empty();
  pb_message_t m = pb_message_create(d, &j);
  e = pb_message_put(&m, tags[k], val); mc_step();
  mc_check(e == PB_ERROR_NONE && pb_journal_size(&j) == wn && !memcmp(pb_journal_data(&j), want, wn),
    "%s tag %u: put gave error %d, bytes %s, canonical %s", ref_type_name[t], tags[k], e,
    mc_hex(pb_journal_data(&j), pb_journal_size(&j)), mc_hex(want, wn));
  if (str) {
    pb_string_t got = { 0 };
    e = pb_message_get(&m, tags[k], &got); mc_step();
    mc_check(e == PB_ERROR_NONE && pb_string_size(&got) == strsize &&
      !memcmp(pb_string_data(&got), pb_string_data(val), strsize),
      "%s: get gave error %d, %zu bytes for %zu", ref_type_name[t], e, pb_string_size(&got), strsize);
  } else {
    uint8_t got[8]; memset(got, 0xEE, 8);
    e = pb_message_get(&m, tags[k], got); mc_step();
    mc_check(e == PB_ERROR_NONE && !memcmp(got, val, ref_size(t)), "%s: get gave error %d, %s for %s",
      ref_type_name[t], e, mc_hex(got, ref_size(t)), mc_hex(val, ref_size(t)));
  }
  mc_check(pb_message_match(&m, tags[k], val) == 1, "%s: value does not match itself", ref_type_name[t]);
  pb_message_destroy(&m); pb_journal_destroy(&j);
}

static void api(void) {
  int ti = mc_choose(NSCALARS); pb_type_t t = scalars[ti];
  int k = mc_choose(3);
  int n = t == PB_TYPE_BOOL ? 2 : t == PB_TYPE_ENUM ?
    (int)ref_enum.value.size : nbound;
  int vi = mc_choose(n);
  if (!mc_shard()) return;
  uint8_t val[8] = { 0 }, want[32]; 
  if (t == PB_TYPE_BOOL) val[0] = vi;
  else if (t == PB_TYPE_ENUM) memcpy(val, &ref_enum_values[vi].number, 4);
  else memcpy(val, &bound64[vi], ref_size(t));
  size_t wn = ref_tag(want, tags[k], ref_wiretype(t));
  wn += ref_scalar(t, val, want + wn);
  mc_trace("%s tag %u value %s: wire %s", ref_type_name[t], tags[k],
    mc_hex(val, ref_size(t)), mc_hex(want, wn));
  trip(t, k, val, 0, want, wn);
  mc_state(mc_hash(want, wn, t));
}

static void string(void) {
  static const int len[] = { 1, 2, 3, 7, 8, 15, 16, 17, 31, 63, 126, 127, 128, 129, 130, 255,
    256, 16382, 16383, 16384, 16385, 0, 2097151, 2097152 };
  pb_type_t t = mc_choose(2) ? PB_TYPE_BYTES : PB_TYPE_STRING;
  int k = mc_choose(3), li = mc_choose(mc_thorough ? 24 : 22), pat = mc_choose(4);
  if (!mc_shard()) return;
  size_t n = len[li]; uint8_t *s = malloc(n ? n : 1), *want = malloc(n + 32);
  for (size_t i = 0; i < n; i++) s[i] = pat == 0 ? i : pat == 1 ? 0 : pat == 2 ? 0xff : 0x80 | (i * 7);
  size_t wn = ref_tag(want, tags[k], 2); wn += ref_varint(want + wn, n);
  memcpy(want + wn, s, n); wn += n;
  pb_string_t v = { s, n };
  mc_trace("%s of %zu bytes, tag %u", ref_type_name[t], n, tags[k]);
  trip(t, k, &v, n, want, wn);
  mc_state(mc_hash(want, wn, t));
  free(s); free(want);
}

int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "sweep", MC_DFS, sweep, .bound = "quick: dense 2^16 blocks and block borders of 32-bit types, shifted bytes of 64-bit types; thorough: all 2^32 values of each 32-bit type" },
    { "api", MC_DFS, api, .bound = "14 scalar types x 3 tags x all 2^k+d boundary patterns" },
    { "string", MC_DFS, string, .bound = "2 types x 3 tags x lengths at prefix boundaries x 4 contents" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
