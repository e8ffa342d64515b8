#define _GNU_SOURCE
/* Separate objects do not interfere. The library is compiled with a callback at
   every load, store and memory function; two threads of control, each with its
   own objects, own stack and own heap, run under a scheduler that can switch
   them at every access to memory that is neither. First every unit of work runs
   alone, which yields its answers and its footprint in shared memory. Two units
   whose footprints do not conflict (no location one writes and the other
   touches) commute at every point, so one interleaving stands for all of them:
   it is run, switching as often as possible, and checked. If they conflict, all
   schedules up to the preemption bound are run. Besides threads: units one
   after another, and a unit inside a decoder handler or allocator callback of
   another. Every execution is a fresh process, so nothing hides in earlier ones. */
#include "schema.h"
#include <protobluff/util.h>
#include <protobluff/util/chunk_allocator.h>
#include <protobluff/core/descriptor.h>
#include "core/varint.h"
#include "message/buffer.h"
#include <semaphore.h>

/* -- threads of control ------------------------------------------------------- */

enum { ARENA = 1 << 20, LOG = 1 << 17, CONF = 4096 };
enum { M_SOLO, M_ROUND, M_SCHED, M_SEQ, M_NEST, M_REP };
typedef struct thr {
  int id, unit, done; uint64_t obs; uintptr_t lo, hi; uint8_t *arena; size_t used;
  long hits; sem_t go; pthread_t t; int depth;
} thr;
static __thread thr *me;
static thr T[2];
static int mode, every;                                   /* ROUND: switch at every n-th access */
static long preempt[4]; static int npre, pre_at;          /* SCHED: switch after so many accesses each */
typedef struct acc { uintptr_t a; uint32_t n, w; } acc;
typedef struct ret { uint64_t obs[64]; int done[64]; long nlog, calls, switches; int overflow; acc log[LOG]; } ret;
static ret *out;                                          /* shared with the parent */
static acc conf[CONF]; static int nconf;                  /* the conflicting locations */

static void to(thr *x) { out->switches++; thr *m = me; sem_post(&x->go); while (sem_wait(&m->go)); }
static void hook(uintptr_t a, size_t n, int w) {
  thr *m = me;
  if (!m || !n) return;
  if (a >= m->lo && a < m->hi) return;
  if (a >= (uintptr_t)m->arena && a < (uintptr_t)m->arena + ARENA) return;
  if (mode == M_SOLO) {
    if (out->nlog < LOG) out->log[out->nlog++] = (acc){ a, n, w }; else out->overflow = 1;
    return;
  }
  if (mode == M_ROUND) {
    thr *x = &T[!m->id];
    if (++m->hits % every == 0 && !x->done) to(x);
    return;
  }
  if (mode == M_SCHED) {
    int c = 0;
    for (int i = 0; i < nconf && !c; i++) c = a < conf[i].a + conf[i].n && conf[i].a < a + n;
    if (!c) return;
    thr *x = &T[!m->id];
    if (pre_at < npre && m->hits++ >= preempt[pre_at]) { pre_at++; x->hits = 0; m->hits = 0; if (!x->done) to(x); }
  }
}
#define H(n) void __sanitizer_cov_load##n(void *p) { hook((uintptr_t)p, n, 0); } void __sanitizer_cov_store##n(void *p) { hook((uintptr_t)p, n, 1); }
H(1) H(2) H(4) H(8) H(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc(void) {}
void *mc_memcpy(void *d, const void *s, size_t n) { hook((uintptr_t)s, n, 0); hook((uintptr_t)d, n, 1); return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { hook((uintptr_t)s, n, 0); hook((uintptr_t)d, n, 1); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { hook((uintptr_t)d, n, 1); return memset(d, c, n); }
int mc_memcmp(const void *a, const void *b, size_t n) { hook((uintptr_t)a, n, 0); hook((uintptr_t)b, n, 0); return memcmp(a, b, n); }
int mc_strcmp(const char *a, const char *b) { hook((uintptr_t)a, strlen(a) + 1, 0); hook((uintptr_t)b, strlen(b) + 1, 0); return strcmp(a, b); }
size_t mc_strlen(const char *a) { size_t n = strlen(a); hook((uintptr_t)a, n + 1, 0); return n; }
/* each thread of control has a heap of its own; nothing is ever reused */
static void *take(size_t n) {
  size_t need = (n + 31) & ~(size_t)15;
  if (me->used + need > ARENA) { fprintf(stderr, "conc: arena full\n"); _exit(3); }
  uint8_t *p = me->arena + me->used; me->used += need;
  *(size_t *)p = n; memset(p + 16, 0xA5, n); return p + 16;
}
void *mc_malloc(size_t n) { return me ? take(n) : malloc(n); }
void *mc_calloc(size_t a, size_t b) { if (!me) return calloc(a, b); void *p = take(a * b); memset(p, 0, a * b); return p; }
static int ours(void *p) {
  for (int i = 0; i < 2; i++) if (T[i].arena && (uint8_t *)p >= T[i].arena && (uint8_t *)p < T[i].arena + ARENA) return 1;
  return 0; }
void mc_free(void *p) { if (!p) return; if (!ours(p)) { free(p); return; } size_t n = ((size_t *)p)[-2]; hook((uintptr_t)p, n, 1); memset(p, 0xEE, n); }
void *mc_realloc(void *p, size_t n) {
  if (!p) return mc_malloc(n);
  if (!ours(p)) return realloc(p, n);
  size_t o = ((size_t *)p)[-2]; hook((uintptr_t)p, o, 0);
  void *q = take(n); memcpy(q, p, o < n ? o : n); mc_free(p); return q;
}

/* -- units of work -------------------------------------------------------------- */

static void run_unit(int u, uint64_t *obs);
static uint64_t *cur;
static long calls, call_at; static int inner; static uint64_t inner_obs; static int inner_done;
#define O(x) (*obs = mc_mix(*obs ^ (uint64_t)(x)) + 0x9e3779b97f4a7c15ull)
static void OB(uint64_t *obs, const void *d, size_t n) { O(n); O(n ? mc_hash(d, n, 3) : 0); }
static void callback(void) {
  if (mode != M_NEST || me->depth) return;
  if (calls++ == call_at) { me->depth++; run_unit(inner, &inner_obs); me->depth--; inner_done = 1; }
}
static void *cb_alloc(void *d, size_t n) { callback(); return mc_malloc(n); }
static void *cb_resize(void *d, void *p, size_t n) { callback(); return mc_realloc(p, n); }
static void cb_free(void *d, void *p) { callback(); mc_free(p); }
static pb_allocator_t cb = { { cb_alloc, cb_resize, cb_free }, NULL };
static pb_journal_t open_(const uint8_t *d, size_t n) {
  if (mode == M_NEST) return n ? pb_journal_create_with_allocator(&cb, d, n) : pb_journal_create_empty_with_allocator(&cb);
  return sc_open(d, n);
}
static pb_buffer_t buf_(const uint8_t *d, size_t n) { return mode == M_NEST ? pb_buffer_create_with_allocator(&cb, d, n) : pb_buffer_create(d, n); }

/* a second message type with the same tags and other types */
static pb_field_descriptor_t f2[6]; static pb_descriptor_t d2;
static const pb_descriptor_t *desc[2];
static const uint8_t img[2][2][64] = {                    /* [type][variant] */
  { { 0x08, 5, 0x12, 2, 'a', 'b', 0x18, 1, 0x18, 2, 0x22, 3, 1, 0xac, 2, 0x2a, 4, 0x08, 9, 0x38, 1, 0x42, 1, 'q', 0x70, 1, 0x78, 1 },
    { 0x08, 0xac, 2, 0x12, 0, 0x18, 7, 0x22, 1, 3, 0x2a, 6, 0x2a, 2, 0x08, 4, 0x20, 1, 0x38, 4, 0x78, 0, 0xa0, 6, 1, 0x80, 0xfa, 1, 7 } },
  { { 0x0a, 1, 'x', 0x10, 9, 0x1a, 2, 1, 3, 0x22, 1, 'r', 0x22, 0, 0x2a, 2, 0x10, 1, 0x3d, 1, 2, 3, 4 },
    { 0x0a, 3, 'x', 'y', 'z', 0x1a, 3, 1, 0x80, 1, 0x2a, 5, 0x0a, 1, 'i', 0x10, 3, 0x3d, 4, 3, 2, 1 } } };
static const int imgn[2][2] = { { 28, 29 }, { 23, 21 } };
static const uint32_t ptag[2][12] = { { T_U32, T_STR, T_REP, T_PACK, T_OA, T_OB, T_F64, T_SD, T_UD, T_BOOL, T_XX, T_EXT }, { 1, 2, 3, 4, 7 } };

static void show(uint64_t *obs, const pb_field_descriptor_t *f, pb_error_t e, const void *v) {
  O(e); if (e) return;
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; OB(obs, s->data, s->size); } else OB(obs, v, ref_size(f->type));
}
typedef struct hs { uint64_t *obs; int fail; int n, depth; } hs;
static pb_error_t handler(const pb_field_descriptor_t *f, const void *v, void *u) {
  hs *h = u; uint64_t *obs = h->obs;
  callback();
  O(f->tag); O(f->type);
  if (f->type == PB_TYPE_MESSAGE) {
    if (h->depth > 3) return PB_ERROR_NONE;
    h->depth++;
    pb_error_t e = pb_decoder_decode(v, handler, u); h->depth--;      /* a decoder for the submessage */
    O(e); return e;
  }
  show(obs, f, PB_ERROR_NONE, v);
  return ++h->n == h->fail ? PB_ERROR_EOM : PB_ERROR_NONE;
}
static void u_decode(int t, int v, uint64_t *obs) {
  for (int fail = 0; fail < 3; fail += 2) {
    pb_buffer_t b = buf_(img[t][v], imgn[t][v]); pb_decoder_t d = pb_decoder_create(desc[t], &b); hs h = { obs, fail };
    O(pb_decoder_decode(&d, handler, &h)); pb_decoder_destroy(&d); pb_buffer_destroy(&b);
  }
}
static void u_check(int t, int v, uint64_t *obs) {
  for (int cut = 0; cut < 3; cut++) {
    pb_buffer_t b = buf_(img[t][v], imgn[t][v] - cut); pb_validator_t c = pb_validator_create(desc[t]);
    O(pb_validator_check(&c, &b)); pb_validator_destroy(&c); pb_buffer_destroy(&b);
  }
}
static pb_encoder_t enc_(const pb_descriptor_t *d) { return mode == M_NEST ? pb_encoder_create_with_allocator(&cb, d) : pb_encoder_create(d); }
static void u_encode(int t, int v, uint64_t *obs) {
  pb_encoder_t e = enc_(desc[t]), s = enc_(desc[t]);
  uint32_t w[3] = { 1 + v, 300, 70000 }; pb_string_t st = { (uint8_t *)(v ? "one" : "two"), 3 };
  if (t) { O(pb_encoder_encode(&s, 2, w, 1)); O(pb_encoder_encode(&e, 1, &st, 1)); O(pb_encoder_encode(&e, 3, w, 3)); O(pb_encoder_encode(&e, 5, &s, 1)); }
  else { O(pb_encoder_encode(&s, T_STR, &st, 1)); O(pb_encoder_encode(&s, T_U32, w, 1)); O(pb_encoder_encode(&e, T_PACK, w, 3));
    O(pb_encoder_encode(&e, T_REP, w, 2)); O(pb_encoder_encode(&e, T_SUB, &s, 1)); O(pb_encoder_encode(&e, T_SUB, &s, 1)); }
  O(pb_encoder_encode(&e, 9999, w, 1));
  OB(obs, pb_buffer_data(pb_encoder_buffer(&e)), pb_buffer_size(pb_encoder_buffer(&e)));
  pb_encoder_destroy(&s); pb_encoder_destroy(&e);
}
static void u_read(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  for (int i = 0; i < 12 && ptag[t][i]; i++) {
    const pb_field_descriptor_t *f = ref_lookup(desc[t], ptag[t][i]); uint64_t x[2] = { 0, 0 };
    O(pb_message_has(&m, f->tag));
    uint64_t like[2] = { 2, 0 }; pb_string_t ls = { (uint8_t *)"xyz", 3 }; if (ref_wiretype(f->type) == 2) memcpy(like, &ls, sizeof ls);
    O(pb_message_match(&m, f->tag, like));
    if (f->label != PB_LABEL_REPEATED) show(obs, f, pb_message_get(&m, f->tag, x), x);
    else {
      pb_cursor_t c = pb_cursor_create(&m, f->tag);
      if (pb_cursor_valid(&c)) do { show(obs, f, pb_cursor_get(&c, x), x); O(c.pos); } while (pb_cursor_next(&c));
      O(pb_cursor_error(&c)); pb_cursor_destroy(&c);
    }
  }
  pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void end(pb_journal_t *j, uint64_t *obs) { OB(obs, sc_data(j), sc_size(j)); }
static void u_write(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  uint32_t w = 70000 + v; pb_string_t st = { (uint8_t *)(v ? "first" : "other one"), v ? 5 : 9 };
  if (t) { O(pb_message_put(&m, 1, &st)); O(pb_message_put(&m, 2, &w)); O(pb_message_put(&m, 3, &w)); O(pb_message_put(&m, 4, &st)); O(pb_message_erase(&m, 7)); }
  else { O(pb_message_put(&m, T_STR, &st)); O(pb_message_put(&m, T_PACK, &w)); O(pb_message_put(&m, T_REP, &w)); O(pb_message_erase(&m, T_U32));
    O(pb_message_put(&m, T_F64, (uint64_t []){ 77 })); O(pb_message_put(&m, T_EXT, &w)); }
  end(&j, obs); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void u_nested(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  uint32_t w = 5000 + v, x = 0; pb_string_t st = { (uint8_t *)"deep", 4 };
  pb_tag_t a[] = { 5, t ? 2 : 1 }, b[] = { 5, 5, t ? 1 : 2 };
  O(pb_message_nested_has(&m, a, 2)); O(pb_message_nested_put(&m, a, 2, &w)); O(pb_message_nested_put(&m, b, 3, &st));
  O(pb_message_nested_get(&m, a, 2, &x)); O(x); O(pb_message_nested_match(&m, b, 3, &st)); O(pb_message_nested_erase(&m, a, 2));
  end(&j, obs); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void u_field(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  uint64_t x[2]; pb_string_t st = { (uint8_t *)(v ? "" : "longer than before"), v ? 0 : 18 };
  uint32_t a = t ? 1 : T_SD, b = t ? 7 : T_UD;
  pb_field_t f = pb_field_create(&m, a), g = pb_field_create(&m, b);
  show(obs, ref_lookup(desc[t], a), pb_field_get(&f, x), x); show(obs, ref_lookup(desc[t], b), pb_field_get(&g, x), x);
  O(pb_field_put(&f, &st)); show(obs, ref_lookup(desc[t], b), pb_field_get(&g, x), x); O(pb_field_match(&f, &st)); O(pb_field_clear(&f)); O(pb_field_put(&g, (uint64_t []){ v + 3 }));
  O(pb_field_put(&f, &st));
  end(&j, obs); pb_field_destroy(&f); pb_field_destroy(&g); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void u_cursor(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  uint32_t tag = t ? 3 : T_PACK, w = v ? 1 : 100000; int n = 0;
  for (int i = 0; i < 3; i++) O(pb_message_put(&m, tag, (uint32_t []){ i + v }));
  pb_cursor_t c = pb_cursor_create(&m, tag);
  if (pb_cursor_valid(&c)) do { O(n++ & 1 ? pb_cursor_erase(&c) : pb_cursor_put(&c, &w)); } while (pb_cursor_next(&c));
  O(pb_cursor_rewind(&c)); O(pb_cursor_seek(&c, &w)); O(c.pos);
  end(&j, obs); pb_cursor_destroy(&c); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void u_oneof(int t, int v, uint64_t *obs) {
  if (t) return;
  pb_journal_t j = open_(img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  pb_oneof_t o = pb_oneof_create(sc_oneof, &m); O(pb_oneof_case(&o)); uint32_t w = 4 + v;
  O(pb_message_put(&m, v ? T_OB : T_OA, v ? (void *)&(pb_string_t){ (uint8_t *)"zz", 2 } : (void *)&w)); O(pb_oneof_case(&o)); end(&j, obs);
  O(pb_oneof_clear(&o)); O(pb_oneof_case(&o)); end(&j, obs);
  pb_oneof_destroy(&o); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void u_copy(int t, int v, uint64_t *obs) {
  pb_journal_t j = open_(img[t][v], imgn[t][v]), k = open_(img[t][!v], imgn[t][!v]);
  pb_message_t m = pb_message_create(desc[t], &j), n = pb_message_create(desc[t], &k), s = pb_message_create_within(&n, 5);
  O(pb_message_put(&m, 5, &n)); O(pb_message_put(&n, 5, &m)); pb_message_t q = pb_message_create_within(&m, 5); O(pb_message_put(&n, 5, &q));
  O(pb_message_valid(&s)); end(&j, obs); end(&k, obs); O(pb_message_clear(&q)); end(&j, obs);
  pb_message_destroy(&q); pb_message_destroy(&s); pb_message_destroy(&n); pb_message_destroy(&m); pb_journal_destroy(&j); pb_journal_destroy(&k);
}
static void u_lookup(int t, int v, uint64_t *obs) {
  for (uint32_t i = 1; i < 26; i++) { const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(desc[t], v ? 26 - i : i); O(f ? f->tag * 32 + f->type : 0); }
  const pb_field_descriptor_t *x = pb_descriptor_field_by_tag(desc[t], T_EXT); O(x ? x->tag : 0);
  static const char *names[] = { "f1", "f2", "f7", "f4000", "nope" };
  for (int i = 0; i < 5; i++) { const pb_field_descriptor_t *f = pb_descriptor_field_by_name(desc[t], names[v ? 4 - i : i]); O(f ? f->tag * 32 + f->type : 0); }
  for (int i = 0; i < 4; i++) { static const pb_enum_t n[2][4] = { { 0, 300, 5, 127 }, { 128, INT32_MAX, 2, -1 } };
    const pb_enum_value_descriptor_t *e = pb_enum_descriptor_value_by_number(&ref_enum, n[v][i]); O(e ? pb_enum_value_descriptor_number(e) : -7); }
  const pb_enum_value_descriptor_t *e = pb_enum_descriptor_value_by_name(&ref_enum, v ? "E300" : "E1"); O(e ? pb_enum_value_descriptor_number(e) : -7);
}
static void u_varint(int t, int v, uint64_t *obs) {
  static const uint64_t x[] = { 0, 1, 127, 128, 300, 16384, 1ull << 31, 1ull << 32, ~0ull, 1ull << 63 };
  static const pb_type_t ty[2][4] = { { PB_TYPE_INT32, PB_TYPE_UINT64, PB_TYPE_SINT64, PB_TYPE_BOOL }, { PB_TYPE_UINT32, PB_TYPE_INT64, PB_TYPE_SINT32, PB_TYPE_ENUM } };
  for (int k = 0; k < 4; k++) for (int i = 0; i < 10; i++) {
    uint8_t b[16] = { 0 }; uint64_t y = x[v ? 9 - i : i], z = 0; pb_type_t q = ty[t][k]; if (q == PB_TYPE_BOOL) y = y & 1;
    size_t n = pb_varint_pack_jump[q](b, &y); OB(obs, b, n); O(pb_varint_size_jump[q](&y)); O(pb_varint_scan(b, n)); O(pb_varint_scan(b, n > 1 ? n - 1 : 1));
    O(pb_varint_unpack_jump[q](b, n, &z)); O(z);
  }
}
static void u_buffer(int t, int v, uint64_t *obs) {
  pb_buffer_t b = buf_(img[t][v], imgn[t][v]);
  O(pb_buffer_write(&b, 3, 5, (const uint8_t *)"0123456789", v ? 10 : 1)); O(pb_buffer_clear(&b, 1, 4)); O(pb_buffer_write(&b, 200, 201, img[t][v], 1));
  OB(obs, pb_buffer_data(&b), pb_buffer_size(&b)); uint8_t *p = pb_buffer_grow(&b, 4); if (p) memset(p, 1, 4);
  OB(obs, pb_buffer_data(&b), pb_buffer_size(&b)); pb_buffer_destroy(&b); O(pb_buffer_valid(&b));
  uint8_t z[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; pb_buffer_t c = pb_buffer_create_zero_copy(z, 8); O(pb_buffer_write(&c, 1, 3, img[t][v], 2)); O(pb_buffer_write(&c, 1, 3, img[t][v], 3));
  O(pb_buffer_grow(&c, 1) != NULL); OB(obs, z, 8); pb_buffer_destroy(&c);
}
static void u_chunk(int t, int v, uint64_t *obs) {
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(v ? 16 : 64);
  pb_journal_t j = pb_journal_create_with_allocator(&a, img[t][v], imgn[t][v]); pb_message_t m = pb_message_create(desc[t], &j);
  uint8_t *q[3]; for (int i = 0; i < 3; i++) { q[i] = pb_allocator_allocate(&a, 10 + i); if (q[i]) memset(q[i], i + v, 10 + i); }
  O(pb_message_put(&m, t ? 4 : T_REPSTR, &(pb_string_t){ (uint8_t *)"from a chunk", 12 })); end(&j, obs);
  q[1] = pb_allocator_resize(&a, q[1], 200); for (int i = 0; i < 3; i++) OB(obs, q[i], 10 + i);
  pb_allocator_free(&a, q[0]); pb_message_destroy(&m); pb_journal_destroy(&j); pb_chunk_allocator_destroy(&a);
}
static void u_bad(int t, int v, uint64_t *obs) {
  static const uint8_t g[2][8] = { { 0x08, 0x80, 0x80 }, { 0x12, 9, 'a' } };
  pb_journal_t j = open_(g[v], 3); pb_message_t m = pb_message_create(desc[t], &j); uint64_t x[2];
  O(pb_message_has(&m, 1)); O(pb_message_get(&m, 1, x)); O(pb_message_erase(&m, 2)); end(&j, obs);
  pb_message_t n = pb_message_create_invalid(); O(pb_message_has(&n, 1)); O(pb_message_get(&n, 1, x)); O(pb_message_error(&n));
  pb_message_destroy(&m); pb_journal_destroy(&j); O(pb_message_error(&m));
}
typedef void (*unit)(int, int, uint64_t *);
static const struct { unit f; const char *name; } U[] = { { u_decode, "decode" }, { u_check, "validate" }, { u_encode, "encode" }, { u_read, "read" }, { u_write, "write" }, { u_nested, "nested" },
  { u_field, "fields" }, { u_cursor, "cursor" }, { u_oneof, "oneof" }, { u_copy, "copy" }, { u_lookup, "lookup" }, { u_varint, "varint" }, { u_buffer, "buffer" }, { u_chunk, "chunk" }, { u_bad, "bad" } };
enum { NU = sizeof U / sizeof *U, UNITS = NU * 4 };
static void run_unit(int u, uint64_t *obs) { *obs = u; U[u / 4].f(u & 1, u >> 1 & 1, obs); }
static const char *uname(int u) { static char b[4][64]; static int k; char *s = b[k++ & 3]; sprintf(s, "%s(type %d, data %d)", U[u / 4].name, u & 1, u >> 1 & 1); return s; }

/* -- executions, each in a process of its own --------------------------------------- */

static void bounds(thr *x) {
  pthread_attr_t a; void *s; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &s, &n); pthread_attr_destroy(&a);
  x->lo = (uintptr_t)s; x->hi = x->lo + n;
}
static int seq[4], nseq; static long reps;
static void *body(void *p) {
  thr *x = p; bounds(x); while (sem_wait(&x->go)); me = x;
  if (mode == M_SEQ) for (int i = 0; i < nseq; i++) { run_unit(seq[i], &out->obs[i]); out->done[i] = 1; }
  else if (mode == M_REP) {                               /* one unit many times, then every unit once */
    for (long i = 0; i < reps; i++) { x->used = 0; run_unit(x->unit, &out->obs[0]); out->done[0] = 1; }
    for (int u = 0; u < UNITS; u++) { x->used = 0; run_unit(u, &out->obs[1 + u]); out->done[1 + u] = 1; }
  } else if (mode == M_NEST) {
    run_unit(x->unit, &out->obs[0]); out->done[0] = 1; out->obs[1] = inner_obs; out->done[1] = inner_done; out->calls = calls;
  } else { run_unit(x->unit, &out->obs[x->id]); out->done[x->id] = 1; }
  x->done = 1; thr *y = &T[!x->id]; me = NULL;
  if (y->t && !y->done) sem_post(&y->go);
  return NULL;
}
static void execute(int n, int first) {
  memset(out, 0, offsetof(ret, log));
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL);
    struct itimerval none; memset(&none, 0, sizeof none); setitimer(ITIMER_REAL, &none, NULL);
    alarm(60);
    for (int i = 0; i < n; i++) {
      T[i].id = i; T[i].arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sem_init(&T[i].go, 0, 0);
      if (T[i].arena == MAP_FAILED) _exit(3);
    }
    for (int i = 0; i < n; i++) if (pthread_create(&T[i].t, NULL, body, &T[i])) _exit(3);
    sem_post(&T[first].go);
    for (int i = 0; i < n; i++) pthread_join(T[i].t, NULL);
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  mc_me->transitions += out->switches + n;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "conc: child failed\n"); _exit(3); }
  mc_check(WIFEXITED(st) && !WEXITSTATUS(st), "the process ends with status %x", st);
}
typedef struct solo { int done; uint64_t obs; long n, nw; acc *log; } solo;
static solo S[UNITS];
static int cmp(const void *a, const void *b) { return memcmp(a, b, sizeof(acc)); }
static solo *alone(int u) {
  solo *s = &S[u]; if (s->done) return s;
  if (!out) out = mc_map(sizeof *out);
  mode = M_SOLO; T[0].unit = u; execute(1, 0);
  if (out->overflow) { fprintf(stderr, "conc: log full\n"); _exit(3); }
  mc_check(out->done[0], "%s does not end", uname(u));
  s->obs = out->obs[0]; s->n = out->nlog; s->log = malloc((s->n + 1) * sizeof(acc));
  long k = 0;                                             /* keep each access once */
  qsort(out->log, s->n, sizeof(acc), cmp);
  for (long i = 0; i < s->n; i++) if (!i || cmp(&out->log[i], &out->log[i - 1])) { s->log[k++] = out->log[i]; s->nw += out->log[i].w; }
  s->n = k; s->done = 1;
  return s;
}
static void conflicts(const solo *a, const solo *b) {
  nconf = 0;
  if (!a->nw && !b->nw) return;
  for (int d = 0; d < 2; d++) {
    const solo *x = d ? b : a, *y = d ? a : b;
    for (long i = 0; i < x->n; i++) if (x->log[i].w)
      for (long k = 0; k < y->n; k++)
        if (x->log[i].a < y->log[k].a + y->log[k].n && y->log[k].a < x->log[i].a + x->log[i].n && nconf < CONF) conf[nconf++] = x->log[i];
  }
}
static void same(int i, int u, const solo *s, const char *how, int v) {
  mc_check(out->done[i], "%s, %s %s, does not end", uname(u), how, uname(v));
  mc_check(out->obs[i] == s->obs, "%s answers otherwise %s %s than alone", uname(u), how, uname(v));
}
static int deep, bound_pre = 2, bound_at[3];
static void threads(void) {
  int a = mc_choose(UNITS), b = a + mc_choose(UNITS - a);
  if (!mc_shard()) return;
  solo *x = alone(a), *y = alone(b);
  conflicts(x, y);
  mc_trace("%s and %s: %ld and %ld shared locations, %ld and %ld written, %d conflicts", uname(a), uname(b), x->n, y->n, x->nw, y->nw, nconf);
  int first = mc_choose(2);
  if (!nconf) { mode = M_ROUND; every = mc_choose(2) ? 7 : 1; }
  else {
    mode = M_SCHED; npre = bound_pre; pre_at = 0;
    for (int i = 0; i < npre; i++) preempt[i] = mc_choose(bound_at[i]);
  }
  T[0].unit = a; T[1].unit = b; execute(2, first);
  mc_trace("%ld switches", out->switches);
  same(0, a, x, "in parallel with", b); same(1, b, y, "in parallel with", a);
  mc_outcome(mc_hash(out->obs, 16, 1)); mc_state(mc_hash((int []){ a, b, first, nconf ? preempt[0] : every, nconf ? preempt[1] : 0 }, 20, out->switches));
}
static void sequence(void) {
  int a = mc_choose(UNITS), b = mc_choose(UNITS);
  if (!mc_shard()) return;
  solo *x = alone(a), *y = alone(b);
  int c = deep ? mc_choose(UNITS) : b, k = 0; solo *z = alone(c);
  seq[k++] = a; seq[k++] = b; if (deep) seq[k++] = c; seq[k++] = a; nseq = k; mode = M_SEQ; execute(1, 0);
  same(0, a, x, "before", b); same(1, b, y, "after", a); if (deep) same(2, c, z, "after", b); same(k - 1, a, x, "again after", c);
  mc_outcome(mc_hash(out->obs, 8 * k, 2)); mc_state(mc_hash((int []){ a, b, c }, 12, 3));
}
static void repeat(void) {
  int a = mc_choose(UNITS);
  if (!mc_shard()) return;
  for (int u = 0; u < UNITS; u++) alone(u);
  mode = M_REP; reps = deep ? 70000 : 1000; T[0].unit = a; execute(1, 0);
  same(0, a, &S[a], "repeated, before", a);
  for (int u = 0; u < UNITS; u++) same(1 + u, u, &S[u], "after many times", a);
  mc_outcome(mc_hash(out->obs, 8, 6)); mc_state(mc_hash(&a, 4, 7));
}
static void nested(void) {
  int a = mc_choose(UNITS);
  if (!mc_shard()) return;
  solo *x = alone(a);
  mode = M_NEST; call_at = -1; inner = 0; T[0].unit = a; execute(1, 0); long n = out->calls; int units = UNITS;
  mc_trace("%s makes %ld callbacks", uname(a), n);
  same(0, a, x, "with callbacks into", a);
  if (!n) return;
  int k = mc_choose(n), b = mc_choose(units); solo *y = alone(b);
  mode = M_NEST; call_at = k; inner = b; T[0].unit = a; execute(1, 0);
  mc_trace("callback %d runs %s", k, uname(b));
  same(0, a, x, "around", b); same(1, b, y, "within", a);
  mc_outcome(mc_hash(out->obs, 16, 4)); mc_state(mc_hash((int []){ a, b, k }, 12, 5));
}

static mc_scenario list[] = {
  { "threads", MC_DFS, threads, .bound = "every two of 60 units on two threads; independent ones (no shared location written) interleaved at every (every 7th) shared access, others under every schedule with 2 preemptions (thorough: 3) within the first 12 (24; 8 for the third) conflicting accesses of each stretch" },
  { "sequence", MC_DFS, sequence, .bound = "every two (thorough: three) of 60 units one after another, the first again" },
  { "repeat", MC_DFS, repeat, .bound = "every unit 1000 (thorough: 70000) times, then every unit once" },
  { "nested", MC_DFS, nested, .bound = "every unit with every other one run inside its every handler and allocator callback" },
  { NULL }
};
static void setup(int thorough) {
  sc_setup();
  ref_fd fd[] = { { 1, PB_TYPE_STRING, PB_LABEL_OPTIONAL }, { 2, PB_TYPE_UINT32, PB_LABEL_OPTIONAL }, { 3, PB_TYPE_SINT32, PB_LABEL_REPEATED, 1 },
    { 4, PB_TYPE_STRING, PB_LABEL_REPEATED }, { 5, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &d2 }, { 7, PB_TYPE_FIXED32, PB_LABEL_REQUIRED } };
  for (int i = 0; i < 6; i++) ref_field_init(&f2[i], fd[i]);
  ref_descriptor_init(&d2, f2, 6, NULL); desc[0] = &sc_desc; desc[1] = &d2;
  deep = thorough; bound_pre = thorough ? 3 : 2; bound_at[0] = bound_at[1] = thorough ? 24 : 12; bound_at[2] = 8;
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
