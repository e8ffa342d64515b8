/* Dumps: what is printed for a buffer, journal, message or field is exactly the
   bytes it holds at that moment, and nothing for an element that is gone. */
#define _GNU_SOURCE
#include "schema.h"
#include "message/buffer.h"

/* -- what a dump prints -------------------------------------------------------- */

static char *out; static size_t on;
static int keep = -1, fd = -1;
static void begin(void) {
  if (fd < 0) { keep = dup(2); fd = memfd_create("dump", 0); if (fd < 0 || keep < 0) { perror("memfd"); _exit(3); } }
  fflush(stderr);
  if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) { perror("memfd"); _exit(3); }
  dup2(fd, 2);
}
static void end(void) {
  fflush(stderr); dup2(keep, 2);
  off_t n = lseek(fd, 0, SEEK_END); out = realloc(out, n + 1);
  if (pread(fd, out, n, 0) != n) { perror("memfd"); _exit(3); }
  on = n; out[n] = 0;
}
/* rows of numbers behind the rule: an offset and up to ten bytes, then the bytes as text */
static void same(const char *what, const uint8_t *d, size_t n) {
  char *p = strstr(out, "\n ----"); size_t i = 0;
  mc_check(strlen(out) == on, "%s: the dump holds a zero byte", what);
  mc_check(p && !strstr(out, "ERROR"), "%s: no dump of %zu bytes: %s", what, n, out);
  p = strchr(p + 1, '\n') + 1;
  while (*p && *p != '\n') {
    char *e = strchr(p, '\n'), *q; size_t k = n - i < 10 ? n - i : 10;
    mc_check(e && k, "%s: a row too many: %s", what, out);
    mc_check(strtoul(p, &q, 10) == i, "%s: offset of byte %zu: %s", what, i, out); p = q;
    for (size_t z = 0; z < k; z++) {
      mc_check(*p == ' ' && strtoul(p, &q, 10) == d[i + z] && q > p && q <= e, "%s: byte %zu of %zu is not shown as %u: %s", what, i + z, n, d[i + z], out); p = q;
    }
    p = e - 2 * k;                                       /* "c " each */
    for (size_t z = 0; z < k; z++, p += 2) {
      uint8_t c = d[i + z];
      mc_check(*p == (c > 31 && c < 127 ? c : '.') && p[1] == ' ', "%s: byte %zu of %zu is not shown as text: %s", what, i + z, n, out);
    }
    i += k; p = e + 1; mc_step();
  }
  mc_check(i == n, "%s: %zu of %zu bytes are shown: %s", what, i, n, out);
  char t[80]; snprintf(t, sizeof t, " %zu  length\n", n);
  mc_check(strstr(out, t) != NULL, "%s: the length is not shown as %zu: %s", what, n, out);
}
static void gone(const char *what) {
  mc_check(!strstr(out, "\n ----"), "%s: bytes of an element that is gone are shown: %s", what, out); mc_step();
}

/* -- buffers ------------------------------------------------------------------- */

static int thorough;
static void bytes(void) {
  int n = mc_choose(thorough ? 130 : 46), fill = mc_choose(8), own = mc_choose(2);
  if (!mc_shard()) return;
  static uint8_t d[4096];
  for (int i = 0; i < n; i++) d[i] = fill == 0 ? i : fill == 1 ? 255 - i : fill == 2 ? 28 + i % 8 : fill == 3 ? 124 + i % 8 : fill == 4 ? 0 : fill == 5 ? 0xff : fill == 6 ? ' ' : "%s\n%n%d"[i % 7];
  pb_buffer_t b = !n ? pb_buffer_create_empty() : own ? pb_buffer_create(d, n) : pb_buffer_create_zero_copy(d, n);
  begin(); pb_buffer_dump(&b); end(); same("a buffer", d, n);
  for (int s = 0; s <= n; s++) for (int e = s; e <= n; e++) {
    if (!thorough && n > 24 && s > 3 && e < n - 3 && s % 10 && e % 10) continue;
    begin(); pb_buffer_dump_range(&b, s, e); end(); same("a range", d + s, e - s);
  }
  mc_check(pb_buffer_size(&b) == (size_t)n && (!n || !memcmp(pb_buffer_data(&b), d, n)), "dumping changes a buffer");
  pb_buffer_destroy(&b);
  mc_state(mc_hash(d, n, fill)); mc_outcome(mc_hash(out, on, 0));
}
static void large(void) {
  static const int size[] = { 999, 1000, 1001, 1009, 1010, 1011, 4096, 9999, 10000, 10001, 10019, 99999, 100001 };
  int n = size[mc_choose(13)], s = mc_choose(3);
  if (!mc_shard()) return;
  static uint8_t d[1 << 17];
  for (int i = 0; i < n; i++) d[i] = i * 7 + i / 251;
  pb_journal_t j = sc_open(d, n);
  begin(); if (s) pb_buffer_dump_range(&j.buffer, s, n); else pb_journal_dump(&j); end(); same("a large journal", d + s, n - s);
  pb_journal_destroy(&j);
  mc_state(mc_hash(d, n, s)); mc_outcome(mc_hash(out, on, 0));
}

/* -- handles ------------------------------------------------------------------- */

static const uint32_t tags[] = { T_U32, T_STR, T_SUB, T_OA, T_OB, T_OC, T_F64, T_BOOL, T_UD, T_SD, T_XX, T_EXT, T_BYTES };
enum { NT = sizeof tags / sizeof *tags };
static sc_bytes rec[24]; static int nrec;
/* the bytes of the last record of a field */
static int last(const uint8_t *d, size_t n, uint32_t tag, const uint8_t **v, size_t *l) {
  static ref_rec r[64]; int k = ref_parse(d, n, r, 64), f = 0;
  mc_check(k >= 0, "the message is garbled");
  for (int i = 0; i < k; i++) if (r[i].tag == tag) { f = 1; *v = d + r[i].val; *l = r[i].end - r[i].val; }
  return f;
}
static int takes(int e, int i) { return e == i || (e >= 3 && e <= 5 && i >= 3 && i <= 5); }   /* members of a oneof go together */
static void handles(void) {
  int len = mc_choose(4), erase = mc_choose(NT + 1), put = mc_choose(6); uint8_t d[300]; size_t n = 0;
  for (int i = 0; i < len; i++) { sc_bytes *r = &rec[mc_choose(nrec)]; memcpy(d + n, r->d, r->n); n += r->n; }
  if (!mc_shard()) return;
  mc_trace("bytes %s, erase %u, update %d", mc_hex(d, n), erase < NT ? tags[erase] : 0, put);
  pb_journal_t j = n ? sc_open(d, n) : pb_journal_create_empty();
  pb_message_t m = pb_message_create(&sc_desc, &j), s[NT], in = pb_message_create_invalid(); pb_field_t h[NT]; int open[NT] = { 0 };
  int sub = 0, nested = 0;
  for (int i = 0; i < NT; i++) if (pb_message_has(&m, tags[i])) {
    open[i] = 1;
    if (ref_lookup(&sc_desc, tags[i])->type == PB_TYPE_MESSAGE) s[i] = pb_message_create_within(&m, tags[i]); else h[i] = pb_field_create(&m, tags[i]);
    if (tags[i] == T_SUB && (sub = 1) && pb_message_has(&s[i], T_SUB)) { in = pb_message_create_within(&s[i], T_SUB); nested = 1; }
  }
  if (erase < NT) mc_check(!pb_message_erase(&m, tags[erase]), "erase");
  static char text[200]; memset(text, 'q', sizeof text);
  uint32_t v = 300, path[] = { T_SUB, T_STR }; pb_string_t x = pb_string_init((uint8_t *)text, put == 3 ? 0 : 140);
  switch (put) {
    case 1: mc_check(!pb_message_put(&m, T_REP, &v), "put"); break;
    case 2: case 3: if (open[1] && erase != 1) mc_check(!pb_message_put(&m, T_STR, &x), "put"); break;
    case 4: if (sub && erase != 2) mc_check(!pb_message_nested_put(&m, path, 2, &x), "put"); break;
    case 5: if (open[0] && erase != 0) mc_check(!pb_message_put(&m, T_U32, &v), "put"); break;
  }
  uint8_t b[1024]; size_t bn = sc_size(&j); if (bn) memcpy(b, sc_data(&j), bn);
  begin(); pb_journal_dump(&j); end(); same("the journal", b, bn);
  begin(); pb_message_dump(&m); end(); same("the message", b, bn);
  for (int i = 0; i < NT; i++) if (open[i]) {
    const uint8_t *w; size_t l; char what[40]; snprintf(what, sizeof what, "the handle on %u", tags[i]);
    int mess = ref_lookup(&sc_desc, tags[i])->type == PB_TYPE_MESSAGE;
    if (mess ? !pb_message_valid(&s[i]) : !pb_field_valid(&h[i])) { mc_check(takes(erase, i), "%s is invalid", what); continue; }
    begin(); if (mess) pb_message_dump(&s[i]); else pb_field_dump(&h[i]); end();
    if (takes(erase, i)) gone(what);
    else { mc_check(last(b, bn, tags[i], &w, &l), "%s: field %u is lost", what, tags[i]); same(what, w, l); }
  }
  if (nested && pb_message_valid(&in)) {
    const uint8_t *w; size_t l; begin(); pb_message_dump(&in); end();
    if (erase == 2) gone("a handle inside of a submessage");
    else { mc_check(last(b, bn, T_SUB, &w, &l) && last(w, l, T_SUB, &w, &l), "submessage"); same("a handle inside of a submessage", w, l); }
  }
  mc_check(sc_size(&j) == bn && (!bn || !memcmp(sc_data(&j), b, bn)), "dumping changes the message");
  mc_state(mc_hash(b, bn, put)); mc_outcome(mc_hash(out, on, erase));
  for (int i = 0; i < NT; i++) if (open[i]) { if (ref_lookup(&sc_desc, tags[i])->type == PB_TYPE_MESSAGE) pb_message_destroy(&s[i]); else pb_field_destroy(&h[i]); }
  if (nested) pb_message_destroy(&in);
  pb_message_destroy(&m); pb_journal_destroy(&j);
}
static mc_scenario list[] = {
  { "bytes", MC_DFS, bytes, .bound = "buffers of 0..45 (thorough: 129) bytes in 8 fillings, owned or zero copy, dumped whole and in all (quick: beyond 24 bytes, most) ranges" },
  { "large", MC_DFS, large, .bound = "13 sizes around the widths of the offset column up to 100001 bytes, from 3 starts" },
  { "handles", MC_DFS, handles, .bound = "messages of <= 3 of 15 records, handles on everything present, one of 13 fields erased or none, one of 6 updates" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th;
  static const char *r[] = { "08 05", "08 ac02", "12 02 6162", "12 00", "18 01", "2a 02 0801", "2a 00", "2a 06 2a 02 0803 0807", "38 04", "42 01 7a", "4a 02 0809", "59 0102030405060708", "8080 01 05", "78 01", "a201 02 7879" };
  static const char *more[] = { "80fa01 07", "aa01 03 000102", "9001 07", "9a01 02 7a7a" };
  for (size_t i = 0; i < sizeof r / sizeof *r; i++) if (i != 14) rec[nrec++] = sc_rec(r[i], r[i]);
  for (size_t i = 0; i < (th ? 4 : 1); i++) rec[nrec++] = sc_rec(more[i], more[i]);
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
