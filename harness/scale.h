/* Shared by the drivers that go through sizes: the sizes, and a message as text. */
#ifndef SCALE_H
#define SCALE_H
#define DOM_BUF (1 << 22)
#include "schema.h"
#include "falloc.h"

static int thorough;
static int lens[5000], nlens;
static void setup_lens(int dense, int big) {
  static const int b[] = { 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536 };
  nlens = 0;
  for (int i = 0; i <= dense; i++) lens[nlens++] = i;
  for (size_t i = 0; i < sizeof b / sizeof *b; i++) {
    if (b[i] > big) continue;
    if (b[i] - 1 > lens[nlens - 1]) lens[nlens++] = b[i] - 1;
    if (b[i] > lens[nlens - 1]) lens[nlens++] = b[i];
    if (b[i] + 1 > lens[nlens - 1]) lens[nlens++] = b[i] + 1;
  }
}

/* -- a message as sorted text ------------------------------------------------ */

static char *text[2]; static size_t tn; enum { TEXT = 1 << 23 };
static void say(char *t, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  tn += vsnprintf(t + tn, TEXT - tn, fmt, ap);
  va_end(ap);
}
/* records of d ordered by tag, packed values one by one; 0 if it is garbled */
static int show(char *t, const pb_descriptor_t *desc, const uint8_t *d, size_t n) {
  int max = n / 2 + 2; ref_rec *r = malloc(sizeof *r * max);
  int k = ref_parse(d, n, r, max), ok = k >= 0;
  uint32_t tag = 0;
  while (ok) {
    uint32_t next = UINT32_MAX;
    for (int i = 0; i < k; i++) if (r[i].tag > tag && r[i].tag < next) next = r[i].tag;
    if (next == UINT32_MAX) break;
    tag = next;
    const pb_field_descriptor_t *f = ref_lookup(desc, tag);
    for (int i = 0; ok && i < k; i++) if (r[i].tag == tag) {
      const uint8_t *v = d + r[i].val; size_t l = r[i].end - r[i].val;
      if (!f) { ok = 0; break; }
      if (f->type == PB_TYPE_MESSAGE) { say(t, "%u{", tag); ok = r[i].wt == 2 && show(t, f->refer, v, l); say(t, "}"); }
      else if (ref_wiretype(f->type) == 2) {
        ok = r[i].wt == 2; uint64_t h = 0;
        for (size_t z = 0; z < l; z++) h = h * 31 + v[z];
        say(t, "%u=%zu:%lx ", tag, l, (unsigned long)h);
      } else for (size_t o = 0; ok && o < l; ) {
        uint64_t x = 0; size_t s = ref_unscalar(f->type, v + o, l - o, &x);
        if (!s || (r[i].wt != 2 && s != l)) { ok = 0; break; }
        say(t, "%u=%lu ", tag, (unsigned long)x); o += s;
      }
    }
  }
  free(r);
  return ok;
}
static void say_str(char *t, uint32_t tag, const char *fill, size_t n) {
  uint64_t h = 0; size_t l = strlen(fill);
  for (size_t z = 0; z < n; z++) h = h * 31 + (uint8_t)fill[z % l];
  say(t, "%u=%zu:%lx ", tag, n, (unsigned long)h);
}
static size_t put_u(uint8_t *o, uint32_t tag, uint32_t v) { size_t n = ref_tag(o, tag, 0); return n + ref_varint(o + n, v); }
static size_t put_b(uint8_t *o, uint32_t tag, const void *d, size_t n) {
  size_t k = ref_tag(o, tag, 2); k += ref_varint(o + k, n); if (n) memmove(o + k, d, n); return k + n;
}
#endif
