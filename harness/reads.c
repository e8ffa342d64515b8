/* Reads are pure: every way to read a message runs over memory that cannot be
   written, with an allocator that gives nothing, twice, with reads of another
   message in between; nothing changes and the answers are the same. */
#define _GNU_SOURCE
#include "schema.h"
#include "falloc.h"
#include <protobluff/util.h>

enum { PAGE = 4096 };
/* the same page, writable and read-only, with nothing behind */
static uint8_t *rw[2], *ro[2];
static void pages(void) {
  for (int i = 0; i < 2; i++) {
    int fd = memfd_create("reads", 0);
    if (fd < 0 || ftruncate(fd, PAGE)) { perror("memfd"); _exit(3); }
    rw[i] = mmap(NULL, PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    uint8_t *a = mmap(NULL, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ro[i] = mmap(a + PAGE, PAGE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
    if (rw[i] == MAP_FAILED || ro[i] == MAP_FAILED) { perror("mmap"); _exit(3); }
    close(fd);
  }
}
static const uint8_t *place(int i, const uint8_t *d, size_t n) {
  if (!rw[0]) pages();                                   /* each worker its own */
  memcpy(rw[i] + PAGE - n, d, n); return ro[i] + PAGE - n; }

static const uint32_t tags[] = { T_U32, T_STR, T_REP, T_PACK, T_SUB, T_REPSUB, T_OA, T_OB, T_OC, T_F64, T_PF32, T_REPSTR, T_UD, T_SD, T_BOOL, T_XX, T_EXT };
enum { NT = sizeof tags / sizeof *tags };
static uint64_t obs; static int bad;                     /* bad: bytes may be garbled */
static void note(uint64_t x) { obs = mc_mix(obs ^ x); mc_step(); }
static void value(pb_type_t t, pb_error_t e, const void *v) {
  note(e); if (e) return;
  if (ref_wiretype(t) == 2) { const pb_string_t *s = v; note(s->size); note(s->size ? mc_hash(s->data, s->size, 1) : 0); }
  else note(mc_hash(v, ref_size(t), 2));
}
static void field_reads(pb_field_t *f, pb_type_t t, const void *like) {
  uint64_t v[2]; note(pb_field_valid(f)); note(pb_field_error(f));
  if (pb_field_valid(f)) { value(t, pb_field_get(f, v), v); note(pb_field_match(f, like)); }
}
static void probe(pb_type_t t, int i, uint64_t *v) {
  static const uint64_t x[] = { 0, 1, 300 }; static pb_string_t s[] = { { (uint8_t *)"", 0 }, { (uint8_t *)"ab", 2 }, { (uint8_t *)"\0", 1 } };
  if (ref_wiretype(t) == 2) memcpy(v, &s[i], sizeof *s); else memcpy(v, &x[i], 8);
}
static int all_reads, limit;
static void read_message(pb_message_t *m, int depth) {
  note(pb_message_valid(m)); note(pb_message_error(m));
  for (int i = 0; i < NT; i++) {
    uint32_t tag = tags[i]; const pb_field_descriptor_t *f = ref_lookup(&sc_desc, tag); pb_type_t t = f->type;
    uint64_t v[2], p[2]; int has = pb_message_has(m, tag); note(has);
    if (t != PB_TYPE_MESSAGE) {
      for (int k = 0; k < 3; k++) { probe(t, k, p); note(pb_message_match(m, tag, p)); }
      if (f->label != PB_LABEL_REPEATED) {
        value(t, pb_message_get(m, tag, v), v);
        if (has && !bad) { pb_field_t h = pb_field_create(m, tag); field_reads(&h, t, p); pb_field_destroy(&h); }
      }
    } else if (has && !bad && f->label != PB_LABEL_REPEATED) {
      pb_message_t s = pb_message_create_within(m, tag); note(pb_message_valid(&s));
      if (depth && all_reads) read_message(&s, depth - 1);
      pb_message_destroy(&s);
    }
    pb_cursor_t c = pb_cursor_create(m, tag); int n = 0;
    note(pb_cursor_valid(&c)); note(pb_cursor_error(&c));
    if (pb_cursor_valid(&c)) do {
      mc_check(n++ <= limit, "cursor on %u does not end", tag);
      note(pb_cursor_tag(&c)); note(pb_cursor_descriptor(&c) == f); note(pb_cursor_message(&c) != NULL);
      if (t == PB_TYPE_MESSAGE) {
        pb_message_t s = pb_message_create_from_cursor(&c);
        if (depth) read_message(&s, depth - 1);
        pb_message_destroy(&s);
      } else {
        value(t, pb_cursor_get(&c, v), v);
        probe(t, 1, p); note(pb_cursor_match(&c, p));
        pb_field_t h = pb_field_create_from_cursor(&c); field_reads(&h, t, p); pb_field_destroy(&h);
      }
      pb_cursor_t k = pb_cursor_copy(&c); note(pb_cursor_next(&k)); pb_cursor_destroy(&k);
    } while (pb_cursor_next(&c));
    note(pb_cursor_error(&c));
    note(pb_cursor_rewind(&c));
    if (t != PB_TYPE_MESSAGE) for (int k = 0; k < 3; k++) { probe(t, k, p); note(pb_cursor_seek(&c, p)); note(pb_cursor_error(&c)); }
    pb_cursor_destroy(&c);
  }
  for (int g = 0; g < 2; g++) { pb_oneof_t o = pb_oneof_create(g ? sc_oneof2 : sc_oneof, m); note(pb_oneof_case(&o)); note(pb_oneof_error(&o)); pb_oneof_destroy(&o); }
  pb_cursor_t c = pb_cursor_create_without_tag(m); int n = 0;
  if (pb_cursor_valid(&c)) do { mc_check(n++ <= limit, "cursor over all fields does not end"); note(pb_cursor_tag(&c)); } while (pb_cursor_next(&c));
  note(pb_cursor_error(&c)); pb_cursor_destroy(&c);
}
static void read_paths(pb_message_t *m) {
  static const uint32_t base[][2] = { { T_SUB, 0 }, { T_OC, 0 }, { T_SUB, T_SUB }, { T_SUB, T_OC } };
  for (int b = 0; b < 4; b++) for (int i = 0; i < NT; i++) {
    int d = base[b][1] ? 2 : 1; uint32_t path[3] = { base[b][0], base[b][1] }; path[d] = tags[i];
    const pb_field_descriptor_t *f = ref_lookup(&sc_desc, tags[i]); uint64_t v[2], p[2];
    note(pb_message_nested_has(m, path, d + 1));
    if (f->type == PB_TYPE_MESSAGE) continue;
    probe(f->type, 1, p); note(pb_message_nested_match(m, path, d + 1, p));
    if (f->label != PB_LABEL_REPEATED) value(f->type, pb_message_nested_get(m, path, d + 1, v), v);
  }
}
static pb_error_t on_field(const pb_field_descriptor_t *f, const void *value_, void *user) {
  note(f->tag);
  if (f->type == PB_TYPE_MESSAGE) { pb_error_t e = pb_decoder_decode(value_, on_field, user); note(e); return e; }
  value(f->type, PB_ERROR_NONE, value_);
  return PB_ERROR_NONE;
}
static uint64_t everything(pb_journal_t *j, pb_message_t *m, int depth) {
  obs = 1;
  note(pb_journal_valid(j)); note(pb_journal_size(j)); note(pb_journal_empty(j)); note(pb_journal_error(j));
  if (pb_journal_size(j)) note(mc_hash(pb_journal_data(j), pb_journal_size(j), 3));
  read_message(m, depth); read_paths(m);
  pb_decoder_t d = pb_decoder_create(&sc_desc, pb_journal_buffer(j)); note(pb_decoder_decode(&d, on_field, NULL)); pb_decoder_destroy(&d);
  pb_validator_t v = pb_validator_create(&sc_desc); note(pb_validator_check(&v, pb_journal_buffer(j))); pb_validator_destroy(&v);
  return obs;
}
static void input(const uint8_t *in, size_t n, int depth) {
  static const uint8_t other[] = { 0x18, 9, 0x18, 8, 0x2a, 4, 0x2a, 2, 8, 3, 0x22, 2, 1, 2, 0x42, 1, 'o', 0x12, 2, 'a', 'b' };
  mc_trace("bytes %s", mc_hex(in, n)); limit = n + 1;
  fa f; fa_init(&f);
  const uint8_t *d = place(0, in, n);
  pb_journal_t own = n ? pb_journal_create_with_allocator(&f.a, in, n) : pb_journal_create_empty_with_allocator(&f.a);
  int base = f.requests; f.fail_from = base;
  pb_message_t om = pb_message_create(&sc_desc, &own);
  uint64_t a = everything(&own, &om, depth);
  mc_check(f.requests == base, "reading asks for memory %d times", f.requests - base);
  mc_check(sc_size(&own) == n && (!n || !memcmp(sc_data(&own), in, n)), "reading changes the message into %s", mc_hex(sc_data(&own), sc_size(&own)));
  mc_check(pb_message_valid(&om), "reading invalidates the message");
  if (n) {
    const uint8_t *o = place(1, other, sizeof other);
    pb_journal_t j = pb_journal_create_zero_copy((uint8_t *)d, n), k = pb_journal_create_zero_copy((uint8_t *)o, sizeof other);
    pb_message_t m = pb_message_create(&sc_desc, &j), q = pb_message_create(&sc_desc, &k);
    uint64_t b = everything(&j, &m, depth);
    mc_check(a == b, "over the caller's memory the message reads differently");
    int bd = bad; bad = 0; limit = 32; read_message(&q, 1); bad = bd; limit = n + 1;
    uint64_t c = everything(&j, &m, depth);
    mc_check(b == c, "read a second time, the message reads differently");
    mc_check(!memcmp(d, in, n), "reading changes the bytes");
    pb_message_destroy(&q); pb_message_destroy(&m); pb_journal_destroy(&k); pb_journal_destroy(&j);
  }
  f.fail_from = -1;
  pb_message_destroy(&om); pb_journal_destroy(&own); fa_done(&f);
  mc_state(mc_hash(in, n, 4)); mc_outcome(a);
}

static sc_bytes rec[48]; static int nrec, recs;
static void formed(void) {
  int len = mc_choose(recs + 1); uint8_t d[256]; size_t n = 0; bad = 0;
  if (len < 2 && !mc_shard()) return;
  for (int i = 0; i < len; i++) { sc_bytes *r = &rec[mc_choose(nrec)]; memcpy(d + n, r->d, r->n); n += r->n; if (i == 1 && !mc_shard()) return; }
  input(d, n, 2);
}
static void alpha(void) {
  static const uint8_t al[] = { 0x08, 0x12, 0x18, 0x22, 0x2a, 0x00, 0x01, 0x02, 0x80, 0xff, 0x62, 0x38, 0x4a, 0x05 };
  int len = 1 + mc_choose(mc_thorough ? 5 : 4); uint8_t d[8]; bad = 1;
  for (int i = 0; i < len; i++) { d[i] = al[mc_choose(sizeof al)]; if (i == 1 || i == len - 1) if ((i == 1) == (len > 1) && !mc_shard()) return; }
  input(d, len, 1);
}
static void mutate(void) {
  int len = 1 + mc_choose(2); uint8_t d[256]; size_t n = 0; bad = 1;
  for (int i = 0; i < len; i++) { sc_bytes *r = &rec[mc_choose(nrec)]; memcpy(d + n, r->d, r->n); n += r->n; }
  if (!n) return;
  size_t at = mc_choose(n);
  if (!mc_shard()) return;
  if (at) input(d, at, 1);
  static const uint8_t odd[] = { 0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x2a, 0x08, 0x22 };
  uint8_t old = d[at];
  for (int x = 0; x < 10; x++) { d[at] = odd[x]; input(d, n, 1); }
  d[at] = old;
}
/* dumps print, and do nothing else; stale handles and empty messages included */
static void quiet(int on) {
  static int keep = -1, null;
  if (keep < 0) { keep = dup(2); null = open("/dev/null", O_WRONLY); if (keep < 0 || null < 0) { perror("dump"); _exit(3); } }
  fflush(stderr); dup2(on ? null : keep, 2);
}
static void dump(void) {
  int len = mc_choose(3), move = mc_choose(3); uint8_t d[256]; size_t n = 0; bad = 0;
  for (int i = 0; i < len; i++) { sc_bytes *r = &rec[mc_choose(nrec)]; memcpy(d + n, r->d, r->n); n += r->n; }
  if (!mc_shard()) return;
  mc_trace("bytes %s", mc_hex(d, n)); limit = n + 8;
  fa f; fa_init(&f);
  pb_journal_t j = n ? pb_journal_create_with_allocator(&f.a, d, n) : pb_journal_create_empty_with_allocator(&f.a);
  pb_message_t m = pb_message_create(&sc_desc, &j), s[NT]; pb_field_t h[NT]; int hm[NT] = { 0 }, hf[NT] = { 0 };
  for (int i = 0; i < NT; i++) {
    const pb_field_descriptor_t *x = ref_lookup(&sc_desc, tags[i]);
    if (x->label == PB_LABEL_REPEATED || !pb_message_has(&m, tags[i])) continue;
    if (x->type == PB_TYPE_MESSAGE) { s[i] = pb_message_create_within(&m, tags[i]); hm[i] = 1; } else { h[i] = pb_field_create(&m, tags[i]); hf[i] = 1; }
  }
  if (move) { uint32_t w = move == 1 ? 300 : 3; mc_check(!pb_message_put(&m, move == 1 ? T_REP : T_PACK, &w), "put"); }
  uint64_t a = everything(&j, &m, 1); size_t bn = sc_size(&j); uint8_t b[300]; if (bn) memcpy(b, sc_data(&j), bn); int req = f.requests;
  quiet(1);
  pb_journal_dump(&j); pb_message_dump(&m);
  for (int i = 0; i < NT; i++) { if (hm[i] && pb_message_valid(&s[i])) pb_message_dump(&s[i]); if (hf[i] && pb_field_valid(&h[i])) pb_field_dump(&h[i]); }
  quiet(0); mc_step();
  mc_check(f.requests == req, "dumping takes memory");
  mc_check(sc_size(&j) == bn && (!bn || !memcmp(sc_data(&j), b, bn)), "dumping changes the message");
  mc_check(everything(&j, &m, 1) == a, "dumping changes what is read");
  for (int i = 0; i < NT; i++) {
    uint64_t v[2], w[2]; const pb_field_descriptor_t *x = ref_lookup(&sc_desc, tags[i]);
    if (hf[i]) { mc_check(!pb_field_get(&h[i], v) && !pb_message_get(&m, tags[i], w) && sc_equal(x->type, v, w), "after dumping, a handle on %u reads otherwise", tags[i]); pb_field_destroy(&h[i]); }
    if (hm[i]) { read_message(&s[i], 0); pb_message_destroy(&s[i]); }
  }
  pb_message_destroy(&m); pb_journal_destroy(&j); fa_done(&f);
  mc_state(mc_hash(d, n, move)); mc_outcome(a);
}
static mc_scenario list[] = {
  { "formed", MC_DFS, formed, .bound = "messages of <= 3 (thorough: 4) of 29 records, every read on own memory without any more of it, on read-only memory, and again" },
  { "alpha", MC_DFS, alpha, .bound = "every string of 1..4 (thorough: 5) bytes over 14 byte values" },
  { "mutate", MC_DFS, mutate, .bound = "<= 2 of 30 records, cut at every position, every byte replaced by 10 values" },
  { "dump", MC_DFS, dump, .bound = "messages of <= 2 of 29 records, handles on everything present, an update before, everything dumped" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); recs = th ? 4 : 3; all_reads = 1;
  static const char *r[] = { "08 05", "08 ac02", "12 02 6162", "12 00", "18 01", "18 ac02", "20 09", "22 02 0102", "22 00", "1a 02 0304", "2a 02 0801", "2a 00",
    "2a 04 2a02 0803", "2a 04 3205 0801", "32 02 0802", "32 00", "38 04", "42 01 7a", "4a 02 0809", "59 0102030405060708", "62 04 01000000", "a006 01", "a206 02 7879",
    "808001 05", "80fa01 07", "8a01 01 71", "b001 05", "9a01 00", "78 01", "32 06 2a 04 08 01 18 02" };
  for (size_t i = 0; i < sizeof r / sizeof *r; i++) if (i != 13) rec[nrec++] = sc_rec(r[i], r[i]);
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
