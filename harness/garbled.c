/*
 * P03 - the message interface on arbitrary bytes: reads and updates stay inside
 * the buffer, terminate, and an update that reports an error leaves the bytes
 * alone. Built with assertions on as well: garbled data is no excuse to trip
 * over an internal precondition.
 */
#include "schema.h"
#include "wire.h"

static wi_list wl;

static sc_op ops[64]; static int nops;
static const uint32_t tags[] = { T_U32, T_STR, T_REP, T_PACK, T_SUB, T_REPSUB, T_OA, T_OC, T_PF32, T_EXT, T_XX, T_F64, T_BOOL };

static void P(uint32_t tag, sc_value v, int depth, uint32_t a, uint32_t b) {
  ops[nops++] = (sc_op){ .what = OP_PUT, .path = { a, b }, .depth = depth, .tag = tag, .v = v };
}
static void O(int what, uint32_t tag, int depth, uint32_t a, uint32_t b) {
  ops[nops++] = (sc_op){ .what = what, .path = { a, b }, .depth = depth, .tag = tag };
}

/* All reads; every string handed out must lie inside the buffer */
static void reads(pb_message_t *m, const uint8_t *lo, const uint8_t *hi, int depth) {
  for (size_t i = 0; i < sizeof tags / sizeof *tags; i++) {
    uint32_t tag = tags[i]; const pb_field_descriptor_t *f = ref_lookup(&sc_desc, tag);
    int str = ref_wiretype(f->type) == 2 && f->type != PB_TYPE_MESSAGE;
    (void)pb_message_has(m, tag); mc_step();
    uint64_t v[2] = { 0, 0 }; pb_string_t probe = { (uint8_t *)"ab", 2 };
    if (f->type != PB_TYPE_MESSAGE) {
      (void)pb_message_match(m, tag, str ? (void *)&probe : (void *)v);
      if (f->label != PB_LABEL_REPEATED && !pb_message_get(m, tag, v) && str) {
        pb_string_t *s = (void *)v;
        mc_check(!s->size || (s->data >= lo && s->data + s->size <= hi), "get(%u) hands out bytes outside the message", tag);
        volatile uint8_t t = 0; for (size_t k = 0; k < s->size; k++) t += s->data[k];
      }
    }
    pb_cursor_t c = pb_cursor_create(m, tag);
    size_t n = 0;
    if (pb_cursor_valid(&c)) do {
      mc_step();
      mc_check(++n <= (size_t)(hi - lo) + 1, "cursor on %u does not end", tag);
      if (f->type != PB_TYPE_MESSAGE) {
        if (!pb_cursor_get(&c, v) && str) {
          pb_string_t *s = (void *)v;
          mc_check(!s->size || (s->data >= lo && s->data + s->size <= hi), "cursor on %u hands out bytes outside the message", tag);
          volatile uint8_t t = 0; for (size_t k = 0; k < s->size; k++) t += s->data[k];
        }
        (void)pb_cursor_match(&c, str ? (void *)&probe : (void *)v);
      } else if (depth) {
        pb_message_t s = pb_message_create_from_cursor(&c);
        if (pb_message_valid(&s)) reads(&s, lo, hi, depth - 1);
        pb_message_destroy(&s);
      }
    } while (pb_cursor_next(&c));
    mc_check(pb_cursor_error(&c), "cursor on %u ended without an error", tag);
    if (f->type != PB_TYPE_MESSAGE) {
      pb_cursor_rewind(&c);
      if (pb_cursor_valid(&c)) pb_cursor_seek(&c, str ? (void *)&probe : (void *)v);
    }
    pb_cursor_destroy(&c);
  }
  pb_oneof_t o = pb_oneof_create(sc_oneof, m);
  (void)pb_oneof_case(&o); pb_oneof_destroy(&o);
  pb_cursor_t c = pb_cursor_create_without_tag(m); size_t n = 0;
  if (pb_cursor_valid(&c)) do {
    mc_check(++n <= (size_t)(hi - lo) + 1, "cursor over all fields does not end");
    (void)pb_cursor_tag(&c);
  } while (pb_cursor_next(&c));
  pb_cursor_destroy(&c);
}

static void input(const uint8_t *in, size_t n) {
  mc_trace("bytes %s", mc_hex(in, n));
  uint8_t *d = mc_exact(in, n);
  { /* reads, on the bytes themselves */
    if (n) {
      pb_journal_t j = pb_journal_create_zero_copy(d, n);
      pb_message_t m = pb_message_create(&sc_desc, &j);
      reads(&m, d, d + n, 2);
      pb_message_destroy(&m); pb_journal_destroy(&j);
      mc_check(!memcmp(d, in, n), "reading changed the bytes");
    }
  }
  int fits = wi_expect(&sc_desc, in, n, &wl) != W_OPEN;
  for (int k = 0; k < nops; k++) {
    pb_journal_t j = sc_open(in, n);
    pb_message_t m = pb_message_create(&sc_desc, &j);
    pb_error_t e = sc_run(&m, &ops[k]);
    size_t z = sc_size(&j);
    mc_trace("  %s: error %d, %s", sc_name(&ops[k]), e, mc_hex(sc_data(&j), z));
    if (e && fits && !ops[k].depth && ops[k].what == OP_PUT) mc_check(z == n && (!n || !memcmp(sc_data(&j), in, n)), "%s on %s fails with error %d and leaves %s",
      sc_name(&ops[k]), mc_hex(in, n), e, mc_hex(sc_data(&j), z));
    mc_check(z <= n + 400, "%s on %s leaves %zu bytes", sc_name(&ops[k]), mc_hex(in, n), z);
    uint64_t o[3] = { k, e, z - n }; mc_outcome(mc_hash(o, sizeof o, 1));
    /* the result can be read, too */
    const uint8_t *p = sc_data(&j);
    if (k % 3 == 0 || mc_thorough) reads(&m, p, p + z, 1);
    pb_message_destroy(&m); pb_journal_destroy(&j);
    mc_me->execs++;
  }
  mc_state(mc_hash(in, n, 1));
  free(d);
}
/* cursors that write while they walk */
static void cursor_input(const uint8_t *in, size_t n) {
  static const uint32_t ct[] = { T_REP, T_PACK, T_U32, T_STR, T_SUB, T_PF32 };
  mc_trace("bytes %s", mc_hex(in, n));
  for (int ti = 0; ti < 6; ti++) for (int mode = 0; mode < 3; mode++) {
    const pb_field_descriptor_t *f = ref_lookup(&sc_desc, ct[ti]);
    if (mode < 2 && f->type == PB_TYPE_MESSAGE) continue;
    pb_journal_t j = sc_open(in, n);
    pb_message_t m = pb_message_create(&sc_desc, &j);
    pb_cursor_t c = pb_cursor_create(&m, ct[ti]);
    size_t k = 0; pb_error_t e;
    if (pb_cursor_valid(&c)) do {
      mc_step();
      uint64_t v[2] = { 300, 0 }; pb_string_t s = { (uint8_t *)"xyz", 3 };
      if (mode == 0 || (mode == 1 && k % 2 == 0)) e = pb_cursor_put(&c, f->type == PB_TYPE_STRING ? (void *)&s : (void *)v);
      else e = pb_cursor_erase(&c);
      mc_trace("  tag %u step %zu: error %d, %s", ct[ti], k, e, mc_hex(sc_data(&j), sc_size(&j)));
      if (e) break;
      mc_check(++k <= n + 2, "cursor on %u does not end while updating %s", ct[ti], mc_hex(in, n));
    } while (pb_cursor_next(&c));
    uint64_t o[3] = { ti, mode, k * 8 + pb_cursor_error(&c) }; mc_outcome(mc_hash(o, sizeof o, 2));
    pb_cursor_destroy(&c);
    const uint8_t *p = sc_data(&j);
    reads(&m, p, p + sc_size(&j), 1);
    mc_me->checks++; mc_me->execs++;
    pb_message_destroy(&m); pb_journal_destroy(&j);
  }
  mc_state(mc_hash(in, n, 2));
}

static void (*run_one)(const uint8_t *, size_t) = input;

/* every string over bytes that mean something to the schema */
static void alpha_body(void) {
  static const uint8_t al[] = { 0x08, 0x12, 0x18, 0x22, 0x2a, 0x00, 0x01, 0x02, 0x80, 0xff, 0x62, 0x38, 0x4a, 0x05 };
  enum { K = sizeof al };
  int len = 1 + mc_choose(mc_thorough ? 6 : 5); uint8_t d[8];
  for (int i = 0; i < len; i++) { d[i] = al[mc_choose(K)]; if (i == 1 || i == len - 1) if ((i == 1) == (len > 1) && !mc_shard()) return; }
  run_one(d, len);
}
static void alpha(void) { run_one = input; alpha_body(); }
static void calpha(void) { run_one = cursor_input; alpha_body(); }

static sc_bytes rec[40]; static int nrec;
static void mutate_body(int full) {
  uint8_t in[200]; size_t n = 0;
  int len = 1 + mc_choose(2);
  for (int i = 0; i < len; i++) { sc_bytes *r = &rec[mc_choose(nrec)]; memcpy(in + n, r->d, r->n); n += r->n; }
  size_t at = mc_choose(n);
  if (!mc_shard()) return;
  run_one(in, at);                                     /* cut */
  static const uint8_t odd[] = { 0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x2a, 0x08, 0x22 };
  uint8_t old = in[at];
  if (len == 1 || full) for (int x = 0; x < 256; x++) { in[at] = x; run_one(in, n); }
  else for (int x = 0; x < 10; x++) { in[at] = odd[x]; run_one(in, n); }
  in[at] = old;
}
static void mutate(void) { run_one = input; mutate_body(0); }
static void cmutate(void) { run_one = cursor_input; mutate_body(mc_thorough); }

static void setup(int thorough) {
  (void)thorough; sc_setup();
  static const char *r[] = { "08 05", "12 02 6162", "18 ac02", "22 02 0102", "22 03 018002", "2a 02 0801", "2a 04 2a02 0803",
    "32 02 0802", "38 04", "42 01 7a", "4a 02 0809", "59 0102030405060708", "62 04 01000000", "a006 01", "80fa01 07", "1a 02 0304",
    "2a 00", "22 00" };
  for (size_t i = 0; i < sizeof r / sizeof *r; i++) rec[nrec++] = sc_rec(r[i], r[i]);
  sc_value u1 = sc_scalar(PB_TYPE_UINT32, 1), u300 = sc_scalar(PB_TYPE_UINT32, 300), s, m0, m2;
  sc_value_str(&s, PB_TYPE_STRING, (uint8_t *)"xyz", 3);
  sc_value_str(&m0, PB_TYPE_MESSAGE, (uint8_t *)"", 0); sc_value_str(&m2, PB_TYPE_MESSAGE, (uint8_t *)"\x08\x02", 2);
  P(T_U32, u300, 0, 0, 0); P(T_STR, s, 0, 0, 0); P(T_REP, u1, 0, 0, 0); P(T_PACK, u300, 0, 0, 0); P(T_SUB, m2, 0, 0, 0);
  P(T_SUB, m0, 0, 0, 0); P(T_OA, u1, 0, 0, 0); P(T_OC, m2, 0, 0, 0); P(T_REPSUB, m2, 0, 0, 0); P(T_EXT, u1, 0, 0, 0);
  O(OP_ERASE, T_U32, 0, 0, 0); O(OP_ERASE, T_PACK, 0, 0, 0); O(OP_ERASE, T_SUB, 0, 0, 0); O(OP_ERASE, T_OB, 0, 0, 0);
  O(OP_ERASE, T_REP, 0, 0, 0); O(OP_TOUCH, T_SUB, 0, 0, 0); O(OP_TOUCH, T_REPSUB, 0, 0, 0);
  P(T_U32, u1, 1, T_SUB, 0); P(T_PACK, u1, 2, T_SUB, T_SUB); O(OP_ERASE, T_U32, 1, T_SUB, 0); O(OP_TOUCH, T_OC, 1, T_SUB, 0);
  P(T_OB, s, 1, T_OC, 0); P(T_PF32, sc_scalar(PB_TYPE_FIXED32, 9), 0, 0, 0);
}

int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "alpha", MC_DFS, alpha, .bound = "every string of 1..5 (thorough: 6) bytes over 14 byte values; every read and 23 updates on each" },
    { "mutate", MC_DFS, mutate, .bound = "every sequence of up to 2 of 18 records, cut at every position, every byte replaced (single records: by every value)" },
    { "calpha", MC_DFS, calpha, .bound = "the same strings under cursors that put, erase or alternate on 6 fields" },
    { "cmutate", MC_DFS, cmutate, .bound = "the same record mutations under writing cursors" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
