/*
 * P06 - the encoder appends exactly the canonical form of what it is given, or
 * nothing at all. Every sequence of encode calls up to the bound, each call
 * also with every allocation it makes failing.
 */
#include "wire.h"
#include "falloc.h"

static pb_descriptor_t *desc;
typedef struct { uint32_t tag; int count; pb_type_t t; uint8_t mem[3 * sizeof(pb_encoder_t)]; int alt;
  uint8_t want[2][400]; int wn[2]; const char *note; int invalid; } call;
static call calls[200]; static int ncalls;
static pb_encoder_t subs[4]; static wi_list wl;

static void add(uint32_t tag, pb_type_t t, int packed, int count, const void *mem, size_t item, const char *note) {
  call *c = &calls[ncalls++];
  c->tag = tag; c->t = t; c->count = count; c->note = note; c->alt = 1;
  memcpy(c->mem, mem, item * count);
  int n = 0, wt = ref_wiretype(t);
  uint8_t body[300]; int bn = 0;
  for (int i = 0; i < count; i++) {
    const uint8_t *m = c->mem + item * i;
    n += ref_tag(c->want[0] + n, tag, wt);
    if (t == PB_TYPE_MESSAGE) {
      const pb_buffer_t *b = pb_encoder_buffer((const pb_encoder_t *)m);
      n += ref_varint(c->want[0] + n, pb_buffer_size(b));
      if (pb_buffer_size(b)) memcpy(c->want[0] + n, pb_buffer_data(b), pb_buffer_size(b));
      n += pb_buffer_size(b);
    } else if (wt == 2) {
      const pb_string_t *s = (const pb_string_t *)m;
      n += ref_varint(c->want[0] + n, s->size); if (s->size) memcpy(c->want[0] + n, s->data, s->size); n += s->size;
    } else { int k = ref_scalar(t, m, c->want[0] + n); memcpy(body + bn, c->want[0] + n, k); bn += k; n += k; }
  }
  c->wn[0] = n;
  if (packed) {
    n = ref_tag(c->want[1], tag, 2); n += ref_varint(c->want[1] + n, bn); memcpy(c->want[1] + n, body, bn); c->wn[1] = n + bn;
    if (count == 1) c->alt = 2;                /* either form */
    else { memcpy(c->want[0], c->want[1], n + bn); c->wn[0] = n + bn; }
  }
}

static void setup(int thorough) {
  (void)thorough;
  static ref_fd fd[64]; int n = 0;
  static pb_descriptor_t d; desc = &d;
  for (int t = 1; t <= NTYPES; t++)
    fd[n++] = (ref_fd){ .tag = t, .type = t, .label = PB_LABEL_OPTIONAL, .refer = t == PB_TYPE_MESSAGE ? (void *)&d : t == PB_TYPE_ENUM ? (void *)&ref_enum : NULL };
  for (int t = 1; t <= NTYPES; t++)
    fd[n++] = (ref_fd){ .tag = 20 + t, .type = t, .label = PB_LABEL_REPEATED, .refer = t == PB_TYPE_MESSAGE ? (void *)&d : t == PB_TYPE_ENUM ? (void *)&ref_enum : NULL };
  for (int t = 1; t <= 14; t++)
    fd[n++] = (ref_fd){ .tag = 2100 + t, .type = t, .label = PB_LABEL_REPEATED, .packed = 1, .refer = t == PB_TYPE_ENUM ? (void *)&ref_enum : NULL };
  pb_field_descriptor_t *f = calloc(n, sizeof *f);
  for (int i = 0; i < n; i++) ref_field_init(&f[i], fd[i]);
  ref_descriptor_init(&d, f, n, NULL);
  /* nested encoders: empty, one scalar, a string past the one byte prefix */
  static uint8_t big[130]; memset(big, 'q', sizeof big);
  for (int i = 0; i < 3; i++) subs[i] = pb_encoder_create(desc);
  uint32_t u = 300; pb_string_t s = pb_string_init(big, 126);
  if (pb_encoder_encode(&subs[1], 3, &u, 1) || pb_encoder_encode(&subs[2], 15, &s, 1)) _exit(3);
  static const uint64_t v[3] = { 1, 300, 0xfffffffffffffff0ull };
  for (int t = 1; t <= 14; t++) {
    uint8_t m[24]; size_t z = ref_size(t);
    for (int i = 0; i < 3; i++) { uint64_t x = t == PB_TYPE_BOOL ? v[i] & 1 : t == PB_TYPE_ENUM ? (i == 2 ? 0x7fffffff : v[i]) : v[i]; memcpy(m + i * z, &x, z); }
    add(t, t, 0, 1, m + z, z, ref_type_name[t]);
    add(20 + t, t, 0, 3, m, z, ref_type_name[t]);
    add(2100 + t, t, 1, 1, m + z, z, ref_type_name[t]);
    add(2100 + t, t, 1, 3, m, z, ref_type_name[t]);
    if (t % 3 == 0) add(2100 + t, t, 1, 2, m, z, ref_type_name[t]);
  }
  pb_string_t ss[3] = { pb_string_init((uint8_t *)"", 0), pb_string_init((uint8_t *)"a\0b", 3), pb_string_init(big, 128) };
  for (int t = 15; t <= 16; t++) {
    add(t, t, 0, 1, &ss[0], sizeof *ss, "empty"); add(t, t, 0, 1, &ss[1], sizeof *ss, "3 bytes"); add(t, t, 0, 1, &ss[2], sizeof *ss, "128 bytes");
    add(20 + t, t, 0, 2, &ss[1], sizeof *ss, "two"); add(20 + t, t, 0, 3, ss, sizeof *ss, "three");
  }
  for (int i = 0; i < 3; i++) add(17, 17, 0, 1, &subs[i], sizeof *subs, "submessage");
  add(37, 17, 0, 2, &subs[0], sizeof *subs, "two submessages"); add(37, 17, 0, 2, &subs[1], sizeof *subs, "two submessages");
  /* an encoder that never came to life in front of, or behind, a valid one */
  pb_encoder_t bad = subs[1]; memset(&bad.buffer, 0, sizeof bad.buffer);
  pb_encoder_t two[2] = { subs[1], bad };
  add(17, 17, 0, 1, &subs[0], sizeof *subs, "invalid submessage"); call *c = &calls[ncalls - 1]; memcpy(c->mem, &bad, sizeof bad); c->invalid = 1;
  add(37, 17, 0, 2, &subs[0], sizeof *subs, "second submessage invalid"); c = &calls[ncalls - 1]; memcpy(c->mem, two, sizeof two); c->invalid = 1;
}

static uint8_t model[4096]; static size_t mn;
static pb_error_t issue(pb_encoder_t *e, const call *c) {
  uint8_t *copy = mc_exact(c->mem, c->count * (c->t == PB_TYPE_MESSAGE ? sizeof(pb_encoder_t) : ref_size(c->t)));
  pb_error_t r = pb_encoder_encode(e, c->tag, copy, c->count); mc_step();
  free(copy);
  mc_trace("encode tag %u x%d (%s): error %d -> %s", c->tag, c->count, c->note, r,
    mc_hex(pb_buffer_data(pb_encoder_buffer(e)), pb_buffer_size(pb_encoder_buffer(e))));
  return r;
}
static int same(pb_encoder_t *e) {
  const pb_buffer_t *b = pb_encoder_buffer(e);
  return pb_buffer_size(b) == mn && (!mn || !memcmp(pb_buffer_data(b), model, mn));
}
/* the call must succeed and append the canonical bytes */
static void good(pb_encoder_t *e, const call *c) {
  pb_error_t r = issue(e, c);
  if (c->invalid) {
    mc_check(r == PB_ERROR_INVALID, "tag %u (%s): error %d", c->tag, c->note, r);
    mc_check(same(e), "tag %u (%s): refused, but changes the encoder to %s", c->tag, c->note,
      mc_hex(pb_buffer_data(pb_encoder_buffer(e)), pb_buffer_size(pb_encoder_buffer(e))));
    return;
  }
  mc_check(!r, "tag %u x%d (%s): error %d", c->tag, c->count, c->note, r);
  size_t at = mn; int ok = 0;
  for (int a = 0; a < c->alt && !ok; a++) {
    mn = at; memcpy(model + mn, c->want[a], c->wn[a]); mn += c->wn[a];
    ok = same(e);
  }
  const pb_buffer_t *b = pb_encoder_buffer(e);
  mc_check(ok, "tag %u x%d (%s): appended %s to %zu bytes, canonical form %s", c->tag, c->count, c->note,
    mc_hex(pb_buffer_data(b) + at, pb_buffer_size(b) > at ? pb_buffer_size(b) - at : 0), at, mc_hex(c->want[0], c->wn[0]));
  mc_check(!at || !memcmp(pb_buffer_data(b), model, at), "tag %u (%s): changes what was encoded before", c->tag, c->note);
}
static void finish(pb_encoder_t *e) {
  if (mn) {
    wi_expect(desc, model, mn, &wl);
    if (wl.end != W_GOOD) { fprintf(stderr, "model not well-formed\n"); _exit(3); }
    wi_obs o = { .l = &wl, .stop_at = -1 };
    const pb_buffer_t *b = pb_encoder_buffer(e);
    o.lo = pb_buffer_data(b); o.hi = o.lo + pb_buffer_size(b);
    pb_decoder_t d = pb_decoder_create(desc, b);
    pb_error_t r = pb_decoder_decode(&d, wi_handler, &o);
    mc_check(!r && !o.bad && o.n == wl.n, "what was encoded decodes with error %d, %d of %d values (%s)", r, o.n, wl.n, o.why);
    pb_decoder_destroy(&d);
  }
  mc_state(mc_hash(model, mn, 2));
}

static void sequences(void) {
  int len = 1 + mc_choose(mc_thorough ? 3 : 2), last = 0;
  int s[3];
  for (int i = 0; i < len; i++) { s[i] = mc_choose(ncalls); if (i == 0 && len == 1) { if (!mc_shard()) return; } else if (i == 1 && !mc_shard()) return; }
  int fault = mc_choose(7); (void)last;        /* 6: none */
  fa f; fa_init(&f);
  pb_encoder_t e = pb_encoder_create_with_allocator(&f.a, desc);
  mn = 0;
  for (int i = 0; i < len; i++) {
    const call *c = &calls[s[i]];
    if (i == len - 1 && fault < 6) {
      fa_arm(&f, fault);
      int before = f.requests; pb_error_t r = issue(&e, c);
      int hit = f.failed; fa_arm(&f, -1); (void)before;
      if (hit) {
        mc_check(r == (c->invalid && r == PB_ERROR_INVALID ? r : PB_ERROR_ALLOC), "tag %u (%s): allocation %d fails, error %d", c->tag, c->note, fault, r);
        mc_check(same(&e), "tag %u (%s): allocation %d fails and leaves %s, before %s", c->tag, c->note, fault,
          mc_hex(pb_buffer_data(pb_encoder_buffer(&e)), pb_buffer_size(pb_encoder_buffer(&e))), mc_hex(model, mn));
        mc_check(pb_encoder_valid(&e), "tag %u (%s): a failed allocation invalidates the encoder", c->tag, c->note);
        good(&e, c);                            /* and can be repeated */
      } else {
        /* fewer allocations than that: nothing failed, drop the branch */
        pb_encoder_destroy(&e); fa_done(&f); mc_me->checks++;
        mc_state(1); return;
      }
    } else good(&e, c);
  }
  finish(&e);
  pb_encoder_destroy(&e);
  mc_check(!pb_encoder_valid(&e), "the encoder is still valid after its destruction");
  pb_encoder_destroy(&e);                       /* must be harmless */
  fa_done(&f);
  uint64_t h[2] = { f.requests, mn }; mc_outcome(mc_hash(h, sizeof h, 3));
}
/* encoders nested in encoders, three levels, every combination of contents */
static void nested(void) {
  int a = mc_choose(ncalls), b = mc_choose(ncalls);
  if (!mc_shard()) return;
  int c = mc_choose(ncalls / 3) * 3;
  fa f; fa_init(&f); uint8_t inner[2][4096]; size_t in[2];
  pb_encoder_t e[3]; const call *k[3] = { &calls[a], &calls[b], &calls[c] };
  mn = 0;
  for (int i = 0; i < 3; i++) {
    e[i] = pb_encoder_create_with_allocator(&f.a, desc); mn = 0;
    good(&e[i], k[i]);
    if (i) {
      size_t z = in[i - 1]; uint8_t *w = model + mn;
      size_t at = mn;
      pb_error_t r = pb_encoder_encode(&e[i], i == 1 ? 37 : 17, &e[i - 1], 1); mc_step();
      w += ref_tag(w, i == 1 ? 37 : 17, 2); w += ref_varint(w, z); memcpy(w, inner[i - 1], z); mn = w + z - model;
      mc_check(!r && same(&e[i]), "a submessage of %zu bytes is encoded (error %d) as %s", z, r,
        mc_hex(pb_buffer_data(pb_encoder_buffer(&e[i])) + at, pb_buffer_size(pb_encoder_buffer(&e[i])) - at));
    }
    if (i < 2) { memcpy(inner[i], model, mn); in[i] = mn; }
  }
  finish(&e[2]);
  /* the outer one owns a copy */
  pb_encoder_destroy(&e[0]); pb_encoder_destroy(&e[1]);
  mc_check(same(&e[2]), "destroying the inner encoder changes the outer one");
  pb_encoder_destroy(&e[2]); fa_done(&f);
}
/* many values at once: counts around the length prefix borders */
static void counts(void) {
  static const int n_[] = { 1, 2, 63, 64, 127, 128, 129, 255, 8191, 8192, 16383, 16384, 16385 };
  int t = 1 + mc_choose(14), ni = mc_choose(13), form = mc_choose(2), fill = mc_choose(3);
  if (!mc_shard()) return;
  int n = n_[ni]; size_t z = ref_size(t); uint8_t *m = malloc(n * z), *w = malloc(n * 16 + 64), *p = w;
  static const uint64_t v[3] = { 1, 300, ~0ull };
  for (int i = 0; i < n; i++) { uint64_t x = v[(fill + (i % 5 == 0)) % 3]; if (t == PB_TYPE_BOOL) x &= 1; if (t == PB_TYPE_ENUM && x == ~0ull) x = 127; memcpy(m + i * z, &x, z); }
  uint32_t tag = form ? 2100 + t : 20 + t;
  if (form && n > 1) {
    size_t body = 0; uint8_t tmp[16];
    for (int i = 0; i < n; i++) body += ref_scalar(t, m + i * z, tmp);
    p += ref_tag(p, tag, 2); p += ref_varint(p, body);
    for (int i = 0; i < n; i++) p += ref_scalar(t, m + i * z, p);
  } else for (int i = 0; i < n; i++) { p += ref_tag(p, tag, ref_wiretype(t)); p += ref_scalar(t, m + i * z, p); }
  pb_encoder_t e = pb_encoder_create(desc);
  pb_error_t r = pb_encoder_encode(&e, tag, m, n); mc_step();
  const pb_buffer_t *b = pb_encoder_buffer(&e);
  int ok = pb_buffer_size(b) == (size_t)(p - w) && !memcmp(pb_buffer_data(b), w, p - w);
  if (!ok && form && n == 1) {
    uint8_t tmp[16]; size_t body = ref_scalar(t, m, tmp); p = w; p += ref_tag(p, tag, 2); p += ref_varint(p, body); memcpy(p, tmp, body); p += body;
    ok = pb_buffer_size(b) == (size_t)(p - w) && !memcmp(pb_buffer_data(b), w, p - w);
  }
  mc_trace("%s x%d%s", ref_type_name[t], n, form ? " packed" : "");
  mc_check(!r && ok, "%s x%d%s: error %d, %zu bytes, canonical %zu", ref_type_name[t], n, form ? " packed" : "", r, pb_buffer_size(b), (size_t)(p - w));
  mc_state(mc_hash(w, p - w, t));
  pb_encoder_destroy(&e); free(m); free(w);
}

int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "sequences", MC_DFS, sequences, .bound = "every sequence of up to 2 (thorough: 3) of 80 encode calls, the last one with each of its allocations failing" },
    { "nested", MC_DFS, nested, .bound = "three levels of encoders, every pair of inner contents, a third of the outer ones" },
    { "counts", MC_DFS, counts, .bound = "14 types, packed and not, 13 counts at the length prefix borders, 3 fills" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
