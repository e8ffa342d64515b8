/*
 * The same type declared otherwise: other tags (of one to five bytes, in the
 * same order or another), fields in extensions instead of the type itself, in
 * any order of registration. Nothing but the tags on the wire may depend on
 * that: for every pair of calls the type as declared in schema.h and the other
 * one must show the same values, errors and contents.
 */
#include "scale.h"
#include <protobluff/util.h>

enum { NF = 25 };                              /* the fields of sc_desc, the extension, one nobody knows */
static const uint32_t ct[NF] = { T_U32, T_STR, T_REP, T_PACK, T_SUB, T_REPSUB, T_OA, T_OB, T_OC, T_F64, T_PF32, T_SI, T_ENUM, T_BOOL, T_F32, T_REPSTR, T_UD, T_SD, T_RI64, T_BYTES, T_PA, T_PB, T_XX, T_EXT, T_UNK };
typedef struct var {
  uint32_t tag[NF]; pb_descriptor_t desc, ext[3]; pb_field_descriptor_t f[4][NF]; size_t n[4];
  pb_oneof_descriptor_t one, two; size_t ix[3], ix2[2];
} var;
enum { MAPS = 14, SPLITS = 8 };
static var base_, *vars[MAPS][SPLITS];

static uint32_t mapped(int map, int k) {
  static const uint32_t top[] = { 536870911, 536870910, 20000 - 1 - 5000, 268435455, 33554432, 2097151, 2097152, 262143, 262144, 16384, 16383, 2048, 2047, 1024, 128, 127, 64, 32, 31, 17, 16, 15, 3, 2, 1 };
  static const uint32_t pow2[] = { 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1u << 20, 1u << 22, 1u << 24, 1u << 26, 1u << 28 };
  switch (map) {
    case 0: return ct[k];
    case 1: return k + 1;                      /* 1 .. 25: one byte up to 15, then two */
    case 2: return 16 + k;                     /* two bytes */
    case 3: return 2048 + k;                   /* three */
    case 4: return (1u << 18) + 7 * k;         /* four */
    case 5: return (1u << 25) + k;             /* five */
    case 6: return 536870911u - 24 + k;
    case 7: return NF - k;                     /* the other way round */
    case 8: return top[k];
    case 9: return pow2[k];
    case 10: return pow2[NF - 1 - k];
    case 11: return (k % 5) * 1000 + k + 1;    /* shuffled */
    case 12: return 1 + k * 65536;             /* the same in the low half */
    default: return 1 + k * 64;                /* and in the low bits */
  }
}
static int place(int split, int k) {           /* 0: the type itself, 1..3: an extension */
  uint32_t t = ct[k]; static const uint32_t fix[] = { T_OA, T_OB, T_OC, T_PA, T_PB, T_BOOL };
  for (int i = 0; i < 6; i++) if (t == fix[i]) return 0;   /* members and required fields cannot be in extensions */
  switch (split) {
    case 0: return t == T_EXT;
    case 1: return 0;
    case 2: return 1;                          /* everything that can be */
    case 3: return k % 2;
    case 4: return k % 4;
    case 5: return t == T_SUB || t == T_REPSUB ? 2 : 0;
    case 6: return t == T_REP || t == T_PACK || t == T_REPSTR || t == T_RI64 || t == T_PF32 ? 1 : 0;
    default: return t == T_STR || t == T_BYTES || t == T_SD ? 3 : t == T_U32 || t == T_UD || t == T_F64 ? 1 : 0;
  }
}
static const pb_field_descriptor_t *original(int k) { return ct[k] == T_EXT ? &sc_extf[0] : ref_lookup(&sc_desc, ct[k]); }
static void make(var *v, int map, int split) {
  int ord[NF]; for (int k = 0; k < NF; k++) { v->tag[k] = mapped(map, k); ord[k] = k; }
  for (int i = 0; i < NF; i++) for (int j = i + 1; j < NF; j++) if (v->tag[ord[j]] < v->tag[ord[i]]) { int t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  for (int i = 0; i < NF; i++) {
    int k = ord[i], p = place(split, k); if (ct[k] == T_UNK) continue;
    const pb_field_descriptor_t *o = original(k); const void *refer = o->refer;
    if (o->type == PB_TYPE_MESSAGE) refer = &v->desc; else if (o->label == PB_LABEL_ONEOF) refer = NULL;
    if (o->label == PB_LABEL_ONEOF) { if (ct[k] == T_PA || ct[k] == T_PB) v->ix2[ct[k] - T_PA] = v->n[0]; else v->ix[ct[k] - T_OA] = v->n[0]; }
    pb_field_descriptor_t d; memcpy(&d, o, sizeof d); pb_field_descriptor_t t = { .tag = v->tag[k], .name = d.name, .type = d.type, .label = d.label,
      .refer = o->type == PB_TYPE_MESSAGE ? (void *)&v->desc : refer, .value = d.value, .flags = d.flags };
    if (o->label == PB_LABEL_ONEOF) { pb_field_descriptor_t u = { .tag = t.tag, .name = d.name, .type = d.type, .label = d.label, .refer = t.refer, .value = ct[k] >= T_PA ? (void *)&v->two : (void *)&v->one, .flags = d.flags }; memcpy(&t, &u, sizeof t); }
    memcpy(&v->f[p][v->n[p]++], &t, sizeof t);
  }
  /* positions go up in a oneof */
  for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) if (v->ix[j] < v->ix[i]) { size_t t = v->ix[i]; v->ix[i] = v->ix[j]; v->ix[j] = t; }
  if (v->ix2[1] < v->ix2[0]) { size_t t = v->ix2[0]; v->ix2[0] = v->ix2[1]; v->ix2[1] = t; }
  pb_oneof_descriptor_t a = { .descriptor = &v->desc, .index = { v->ix, 3 } }, b = { .descriptor = &v->desc, .index = { v->ix2, 2 } };
  memcpy(&v->one, &a, sizeof a); memcpy(&v->two, &b, sizeof b);
  ref_descriptor_init(&v->desc, v->f[0], v->n[0], NULL);
  for (int i = 0; i < 3; i++) ref_descriptor_init(&v->ext[i], v->f[i + 1], v->n[i + 1], NULL);
  for (int i = 0; i < 3; i++) { int x = split & 1 ? 2 - i : i; if (v->n[x + 1]) pb_descriptor_extend(&v->desc, &v->ext[x]); }
}

static uint32_t fwd(const var *v, uint32_t t) { for (int k = 0; k < NF; k++) if (ct[k] == t) return v->tag[k]; return t; }
static uint32_t inv(const var *v, uint32_t t) { for (int k = 0; k < NF; k++) if (v->tag[k] == t) return ct[k]; return t ? t + (1u << 30) : 0; }
/* a message with the tags of one type in those of the other; 0 if it is garbled */
static int carry(const var *v, int back, const uint8_t *d, size_t n, uint8_t *o, size_t *on) {
  ref_rec *r = malloc(sizeof *r * (n / 2 + 2)); int k = ref_parse(d, n, r, n / 2 + 2), ok = k >= 0; *on = 0;
  for (int i = 0; ok && i < k; i++) {
    uint32_t to = back ? inv(v, r[i].tag) : fwd(v, r[i].tag), can = back ? to : r[i].tag; const uint8_t *p = d + r[i].val; size_t l = r[i].end - r[i].val;
    const pb_field_descriptor_t *f = ref_lookup(&sc_desc, can);
    if (to >> 29) { ok = 0; break; }
    if (f && f->type == PB_TYPE_MESSAGE && r[i].wt == 2) { uint8_t *t = malloc(l * 5 + 16); size_t tn2; ok = carry(v, back, p, l, t, &tn2); *on += put_b(o + *on, to, t, tn2); free(t); }
    else if (r[i].wt == 2) *on += put_b(o + *on, to, p, l);
    else { *on += ref_tag(o + *on, to, r[i].wt); memcpy(o + *on, p, l); *on += l; }
  }
  free(r); return ok;
}

/* -- what is done ----------------------------------------------------------------- */

enum { IMAGES = 9 };
static uint8_t image[IMAGES][1024]; static size_t imgn[IMAGES];
static size_t f64(uint8_t *o, uint32_t tag, uint64_t v) { size_t n = ref_tag(o, tag, 1); memcpy(o + n, &v, 8); return n + 8; }
static void make_images(void) {
  for (int i = 0; i < IMAGES; i++) {
    uint8_t *o = image[i], t[512], u[512]; size_t n = 0, k, q;
#define U(tag, v) n += put_u(o + n, tag, v)
#define B(tag, d, l) n += put_b(o + n, tag, d, l)
    switch (i) {
      case 0: break;
      case 1: U(T_U32, 7); B(T_STR, "abc", 3); U(T_BOOL, 1); break;
      case 2: U(T_REP, 1); U(T_REP, 2); B(T_PACK, "\1\2\3", 3); U(T_REP, 3); U(T_REP, 300); B(T_REPSTR, "x", 1); B(T_PF32, "\1\0\0\0\2\0\0\0", 8); B(T_REPSTR, "", 0); B(T_REPSTR, "zz", 2); U(T_RI64, 5); U(T_BOOL, 1); break;
      case 3: k = put_b(t, T_STR, "hi", 2); B(T_SUB, t, k); U(T_U32, 1); k = put_u(t, T_U32, 9); k += put_b(t + k, T_STR, "xyx", 3); B(T_SUB, t, k); U(T_BOOL, 1); break;
      case 4: k = put_b(t, T_STR, "a", 1); B(T_REPSUB, t, k); U(T_OA, 0); k = put_u(t, T_U32, 5); B(T_REPSUB, t, k); B(T_REPSUB, t, 0); U(T_BOOL, 1); break;
      case 5: k = put_u(t, T_U32, 3); k += put_b(t + k, T_STR, "deep", 4); k += put_u(t + k, T_REP, 1); k += put_u(t + k, T_REP, 2); q = put_b(u, T_SUB, t, k); q += put_u(u + q, T_U32, 2); q += put_b(u + q, T_REPSUB, t, k); k = put_b(t, T_SUB, u, q); U(T_U32, 1); memcpy(o + n, t, k); n += k; U(T_BOOL, 1); break;
      case 6: B(T_UNK, "unknown", 7); U(T_OA, 1); B(T_OB, "b", 1); U(T_PA, 2); n += f64(o + n, T_F64, 99); U(T_EXT, 4); U(T_XX, 5); k = put_u(t, T_U32, 5); B(T_OC, t, k); U(T_BOOL, 0); B(T_UNK, "", 0); break;
      case 7: U(T_U32, 1); U(T_U32, 2); B(T_STR, "", 0); B(T_STR, "again", 5); B(T_BYTES, "\0\1", 2); U(T_UD, 1); B(T_SD, "s", 1); U(T_SI, 3); U(T_ENUM, 1); U(T_BOOL, 1); B(T_PACK, "\1\2", 2); U(T_PACK, 3); B(T_PACK, "\4", 1); break;
      default: { static char big[300]; memset(big, 'w', sizeof big); k = put_b(t, T_STR, big, 120); B(T_SUB, t, k); U(T_REP, 1); B(T_STR, big, 127); U(T_REP, 2); B(T_REPSUB, t, k); U(T_BOOL, 1); }
    }
    imgn[i] = n;
  }
}

static char *tr; static size_t trn; static char out0[1 << 17], out1[1 << 17];
#define SAY(...) (trn += sprintf(tr + trn, __VA_ARGS__))
static void say_val(const pb_field_descriptor_t *f, const void *v) {
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; SAY("%zu:", s->size); for (size_t i = 0; i < s->size && i < 24; i++) SAY("%02x", s->data[i]); }
  else for (size_t i = 0; i < ref_size(f->type); i++) SAY("%02x", ((const uint8_t *)v)[i]);
  SAY(" ");
}
typedef struct acc { const var *v; uint64_t sum; int n; } acc;
static pb_error_t on_any(const pb_field_descriptor_t *f, const void *v, void *user) {
  acc *a = user; uint32_t t = inv(a->v, f->tag); uint64_t h; a->n++;
  if (f->type == PB_TYPE_MESSAGE) { acc b = { a->v, 0, 0 }; pb_error_t e = pb_decoder_decode(v, on_any, &b); h = mc_mix(b.sum + b.n * 77); a->sum += mc_mix(h ^ t); return e; }
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; h = mc_hash(s->data, s->size, t); } else h = mc_hash(v, ref_size(f->type), t);
  a->sum += mc_mix(h); return PB_ERROR_NONE;
}
static void list_of(const var *v, pb_message_t *m, uint32_t t) {
  pb_cursor_t c = pb_cursor_create(m, fwd(v, t)); const pb_field_descriptor_t *f = ref_lookup(&sc_desc, t);
  while (pb_cursor_valid(&c)) {
    if (f->type == PB_TYPE_MESSAGE) { pb_message_t x = pb_message_create_from_cursor(&c); uint32_t u = 0; SAY("{%d %u} ", pb_message_get(&x, fwd(v, T_U32), &u), u); pb_message_destroy(&x); }
    else { uint64_t g[2] = { 0, 0 }; pb_error_t e = pb_cursor_get(&c, g); SAY("%d ", e); if (!e) say_val(f, g); }
    if (!pb_cursor_next(&c)) break;
  }
  SAY("end %d\n", pb_cursor_error(&c)); pb_cursor_destroy(&c);
}
static void see(const var *v, pb_message_t *m) {
  for (int k = 0; k < NF - 1; k++) {
    const pb_field_descriptor_t *f = original(k); uint32_t t = v->tag[k];
    SAY("%u: %d ", ct[k], pb_message_has(m, t));
    if (f->label == PB_LABEL_REPEATED) { list_of(v, m, ct[k]); continue; }
    if (f->type == PB_TYPE_MESSAGE) continue;
    uint64_t g[2] = { 0, 0 }; pb_error_t e = pb_message_get(m, t, g); SAY("%d ", e); if (!e) { say_val(f, g); SAY("%d ", pb_message_match(m, t, g)); }
  }
  pb_oneof_t o = pb_oneof_create(&v->one, m); SAY("case %u ", inv(v, pb_oneof_case(&o))); pb_oneof_destroy(&o);
  o = pb_oneof_create(&v->two, m); SAY("case %u ", inv(v, pb_oneof_case(&o))); pb_oneof_destroy(&o);
  uint32_t p2[] = { fwd(v, T_SUB), fwd(v, T_STR) }, p3[] = { fwd(v, T_SUB), fwd(v, T_SUB), fwd(v, T_U32) }; pb_string_t s; uint32_t u; pb_error_t e;
  e = pb_message_nested_get(m, p2, 2, &s); SAY("sub.str %d %d ", pb_message_nested_has(m, p2, 2), e); if (!e) say_val(original(1), &s);
  e = pb_message_nested_get(m, p3, 3, &u); SAY("sub.sub.u32 %d %d %u\n", pb_message_nested_has(m, p3, 3), e, e ? 0 : u);
}

enum { P_U32, P_U32B, P_F64, P_BOOL, P_UD, P_EXT, P_XX, P_SI, P_STR, P_STRL, P_STR0, P_SD, P_BYTES, P_OA, P_OB, P_PB, P_SUB, P_OC,
  X_U32, X_STR, X_SUB, X_REP, X_PACK, X_REPSUB, X_OA, X_OC, X_REPSTR, X_EXT,
  N_STR, N_U32, N_X, C_REPPUT, C_REPERASE, C_PACKPUT, C_PACKERASE, C_SUBERASE, C_SUBPUT, C_RSPUT, C_UNSAFE,
  H_SUBU32, H_SUBSTR, H_SUBERASE, H_FPUT, H_FCLEAR, H_SUBCLEAR, H_CURERASE, O_CLEAR, CREATE_SUB, CREATE_F, OPS };
typedef struct st { pb_journal_t j; pb_message_t m, sub; pb_field_t f; pb_cursor_t rep, rs; pb_oneof_t one; int hs, hf; } st;
static pb_error_t run_op(const var *v, st *s, int op) {
  static char big[200]; memset(big, 'L', sizeof big); pb_message_t *m = &s->m; uint32_t u = 300, path[3] = { fwd(v, T_SUB), fwd(v, T_STR), 0 }; uint64_t w[2] = { 0x123456789ull, 0 }; pb_string_t str = { (uint8_t *)"new", 3 }, lng = { (uint8_t *)big, 130 }, no = { NULL, 0 }; uint8_t b = 1; pb_error_t e = 0;
#define PUT(t, x) return pb_message_put(m, fwd(v, t), x)
#define DEL(t) return pb_message_erase(m, fwd(v, t))
  switch (op) {
    case P_U32: PUT(T_U32, &u); case P_U32B: u = 1; PUT(T_U32, &u); case P_F64: PUT(T_F64, w); case P_BOOL: PUT(T_BOOL, &b); case P_UD: PUT(T_UD, &u); case P_EXT: PUT(T_EXT, &u); case P_XX: PUT(T_XX, w); case P_SI: PUT(T_SI, &u);
    case P_STR: PUT(T_STR, &str); case P_STRL: PUT(T_STR, &lng); case P_STR0: PUT(T_STR, &no); case P_SD: PUT(T_SD, &str); case P_BYTES: PUT(T_BYTES, &lng); case P_OA: PUT(T_OA, &u); case P_OB: PUT(T_OB, &str); case P_PB: PUT(T_PB, &str);
    case P_SUB: case P_OC: { uint8_t t[64]; size_t n = put_u(t, fwd(v, T_U32), 8); n += put_b(t + n, fwd(v, T_STR), "qq", 2); pb_journal_t j = pb_journal_create(t, n); pb_message_t x = pb_message_create(&v->desc, &j); e = pb_message_put(m, fwd(v, op == P_SUB ? T_SUB : T_OC), &x); pb_message_destroy(&x); pb_journal_destroy(&j); return e; }
    case X_U32: DEL(T_U32); case X_STR: DEL(T_STR); case X_SUB: DEL(T_SUB); case X_REP: DEL(T_REP); case X_PACK: DEL(T_PACK); case X_REPSUB: DEL(T_REPSUB); case X_OA: DEL(T_OA); case X_OC: DEL(T_OC); case X_REPSTR: DEL(T_REPSTR); case X_EXT: DEL(T_EXT);
    case N_STR: return pb_message_nested_put(m, path, 2, &lng);
    case N_U32: path[1] = path[0]; path[2] = fwd(v, T_U32); return pb_message_nested_put(m, path, 3, &u);
    case N_X: return pb_message_nested_erase(m, path, 2);
    case C_REPPUT: case C_REPERASE: { pb_cursor_t c = pb_cursor_create(m, fwd(v, T_REP)); if (pb_cursor_valid(&c)) pb_cursor_next(&c); e = op == C_REPPUT ? pb_cursor_put(&c, &u) : pb_cursor_erase(&c); pb_cursor_destroy(&c); return e; }
    case C_PACKPUT: case C_PACKERASE: { pb_cursor_t c = pb_cursor_create(m, fwd(v, T_PACK)); if (pb_cursor_valid(&c)) pb_cursor_next(&c); e = op == C_PACKPUT ? pb_cursor_put(&c, &u) : pb_cursor_erase(&c); pb_cursor_destroy(&c); return e; }
    case C_SUBERASE: { pb_cursor_t c = pb_cursor_create(m, fwd(v, T_REPSUB)); e = pb_cursor_erase(&c); pb_cursor_destroy(&c); return e; }
    case C_SUBPUT: { pb_cursor_t c = pb_cursor_create(m, fwd(v, T_REPSUB)); if (pb_cursor_valid(&c)) { pb_message_t x = pb_message_create_from_cursor(&c); e = pb_message_put(&x, fwd(v, T_STR), &lng); pb_message_destroy(&x); } pb_cursor_destroy(&c); return e; }
    case C_RSPUT: { pb_cursor_t c = pb_cursor_create(m, fwd(v, T_REPSTR)); e = pb_cursor_put(&c, &lng); pb_cursor_destroy(&c); return e; }
    case C_UNSAFE: { pb_cursor_t c = pb_cursor_create_unsafe(m, fwd(v, T_U32)); int n = 0; while (pb_cursor_valid(&c)) { n++; if (!pb_cursor_next(&c)) break; } pb_cursor_destroy(&c); return n; }
    case H_SUBU32: return s->hs ? pb_message_put(&s->sub, fwd(v, T_U32), &u) : 0;
    case H_SUBSTR: return s->hs ? pb_message_put(&s->sub, fwd(v, T_STR), &lng) : 0;
    case H_SUBERASE: return s->hs ? pb_message_erase(&s->sub, fwd(v, T_STR)) : 0;
    case H_SUBCLEAR: return s->hs ? pb_message_clear(&s->sub) : 0;
    case H_FPUT: return s->hf ? pb_field_put(&s->f, &lng) : 0;
    case H_FCLEAR: return s->hf ? pb_field_clear(&s->f) : 0;
    case H_CURERASE: return pb_cursor_erase(&s->rep);
    case O_CLEAR: return pb_oneof_clear(&s->one);
    case CREATE_SUB: { pb_message_t x = pb_message_create_within(m, fwd(v, T_SUB)); e = pb_message_error(&x); pb_message_destroy(&x); return e; }
    default: { pb_field_t x = pb_field_create(m, fwd(v, T_SD)); e = pb_field_error(&x); pb_field_destroy(&x); return e; }
  }
}
static void run(const var *v, const uint8_t *d, size_t n, const int *op, int ops, char *out) {
  tr = out; trn = 0; st s; memset(&s, 0, sizeof s);
  s.j = n ? pb_journal_create(d, n) : pb_journal_create_empty(); s.m = pb_message_create(&v->desc, &s.j);
  if ((s.hs = pb_message_has(&s.m, fwd(v, T_SUB)))) s.sub = pb_message_create_within(&s.m, fwd(v, T_SUB));
  if ((s.hf = pb_message_has(&s.m, fwd(v, T_STR)))) s.f = pb_field_create(&s.m, fwd(v, T_STR));
  s.rep = pb_cursor_create(&s.m, fwd(v, T_REP)); s.rs = pb_cursor_create(&s.m, fwd(v, T_REPSUB)); s.one = pb_oneof_create(&v->one, &s.m);
  for (int i = 0; i < ops; i++) { SAY("op %d: %d\n", op[i], run_op(v, &s, op[i])); mc_step(); }
  /* what the handles see, then the whole */
  uint32_t u = 0; pb_string_t str = { NULL, 0 }; pb_error_t e;
  if (s.hs) { e = pb_message_get(&s.sub, fwd(v, T_U32), &u); SAY("sub: u32 %d %u ", e, u); e = pb_message_get(&s.sub, fwd(v, T_STR), &str); SAY("str %d ", e); if (!e) say_val(original(1), &str); }
  if (s.hf) { e = pb_field_get(&s.f, &str); SAY("field: %d ", e); if (!e) say_val(original(1), &str); }
  for (int k = 0; pb_cursor_valid(&s.rep) && k < 9; k++) { u = 0; SAY("rep %d ", pb_cursor_get(&s.rep, &u)); SAY("%u ", u); if (!pb_cursor_next(&s.rep)) break; }
  for (int k = 0; pb_cursor_valid(&s.rs) && k < 9; k++) { pb_message_t x = pb_message_create_from_cursor(&s.rs); u = 0; SAY("repsub %d ", pb_message_get(&x, fwd(v, T_U32), &u)); SAY("%u ", u); pb_message_destroy(&x); if (!pb_cursor_next(&s.rs)) break; }
  SAY("case %u\n", inv(v, pb_oneof_case(&s.one)));
  see(v, &s.m);
  acc a = { v, 0, 0 }; pb_decoder_t dec = pb_decoder_create(&v->desc, &s.j.buffer); e = pb_decoder_decode(&dec, on_any, &a); SAY("decode %d: %d values %lx ", e, a.n, (unsigned long)a.sum); pb_decoder_destroy(&dec);
  pb_validator_t va = pb_validator_create(&v->desc); SAY("validate %d\n", pb_validator_check(&va, &s.j.buffer)); pb_validator_destroy(&va);
  static uint8_t back[1 << 14], un[1 << 14]; size_t bn, k = 0; ref_rec r[200];
  int ok = carry(v, 1, sc_data(&s.j), sc_size(&s.j), back, &bn); SAY("garbled %d ", !ok);
  if (ok) { /* unknown records aside */
    int q = ref_parse(back, bn, r, 200); size_t at = 0; for (int i = 0; i < q; i++) { if (r[i].tag == T_UNK) SAY("unknown %zu ", r[i].end - at); else { memcpy(un + k, back + at, r[i].end - at); k += r[i].end - at; } at = r[i].end; }
    if (!text[0]) text[0] = malloc(TEXT); tn = 0; text[0][0] = 0; SAY("shown %d ", show(text[0], &sc_desc, un, k)); SAY("%s", text[0]);
  }
  if (s.hs) pb_message_destroy(&s.sub); if (s.hf) pb_field_destroy(&s.f); pb_cursor_destroy(&s.rep); pb_cursor_destroy(&s.rs); pb_oneof_destroy(&s.one); pb_message_destroy(&s.m); pb_journal_destroy(&s.j);
}
static void calls(void) {
  int im = mc_choose(IMAGES), op[3] = { mc_choose(OPS), mc_choose(OPS), 0 };
  if (!mc_shard()) return;
  int map = mc_choose(MAPS), split = map == 0 || thorough ? mc_choose(SPLITS) : map % SPLITS; if (!map && !split) return;
  const var *v = vars[map][split];
  mc_trace("image %d, calls %d and %d, tags as %d, extensions as %d", im, op[0], op[1], map, split);
  static int last[3] = { -1, -1, -1 };
  if (last[0] != im || last[1] != op[0] || last[2] != op[1]) { run(&base_, image[im], imgn[im], op, 2, out0); last[0] = im; last[1] = op[0]; last[2] = op[1]; }
  static uint8_t w[8192]; size_t n; if (!carry(v, 0, image[im], imgn[im], w, &n)) { fprintf(stderr, "relabel: bad image %d\n", im); _exit(3); }
  run(v, w, n, op, 2, out1);
  int i = 0; while (out0[i] && out0[i] == out1[i]) i++; int from = i > 60 ? i - 60 : 0;
  mc_check(out0[i] == out1[i], "the type declared otherwise behaves otherwise: ...%.160s\ninstead of ...%.160s", out1 + from, out0 + from);
  mc_state(mc_hash(w, n, op[0] * OPS + op[1])); mc_outcome(mc_hash(out1, strlen(out1), 0));
}

/* -- encoders and prefixes --------------------------------------------------------------- */

static void codes(void) {                      /* every prefix of every image, and every image encoded again */
  int im = mc_choose(IMAGES), map = mc_choose(MAPS), split = mc_choose(SPLITS); if (!mc_shard()) return;
  if (!map && !split) return;
  const var *v = vars[map][split]; static uint8_t w[8192]; size_t n; carry(v, 0, image[im], imgn[im], w, &n); ref_rec a[100], b[100];
  int k = ref_parse(image[im], imgn[im], a, 100), q = ref_parse(w, n, b, 100);
  if (k != q) { fprintf(stderr, "relabel: bad image %d\n", im); _exit(3); }
  for (int i = 0; i <= k; i++) {
    size_t x = i ? a[i - 1].end : 0, y = i ? b[i - 1].end : 0; pb_error_t e[2][2]; acc c[2] = { { &base_, 0, 0 }, { v, 0, 0 } };
    for (int s = 0; s < 2; s++) {
      const var *t = s ? v : &base_; pb_buffer_t bf = s ? y ? pb_buffer_create(w, y) : pb_buffer_create_empty() : x ? pb_buffer_create(image[im], x) : pb_buffer_create_empty();
      pb_decoder_t d = pb_decoder_create(&t->desc, &bf); e[s][0] = pb_decoder_decode(&d, on_any, &c[s]); pb_decoder_destroy(&d);
      pb_validator_t va = pb_validator_create(&t->desc); e[s][1] = pb_validator_check(&va, &bf); pb_validator_destroy(&va); pb_buffer_destroy(&bf); mc_step();
    }
    mc_trace("the first %d records of image %d, tags as %d, extensions as %d", i, im, map, split);
    mc_check(e[0][0] == e[1][0] && c[0].n == c[1].n && c[0].sum == c[1].sum, "decoding ends with %d after %d values, instead of %d after %d, or gives other values", e[1][0], c[1].n, e[0][0], c[0].n);
    mc_check(e[0][1] == e[1][1], "validation ends with %d instead of %d", e[1][1], e[0][1]);
    if (i == k) break;
    const pb_field_descriptor_t *f = ref_lookup(&sc_desc, a[i].tag); if (!f) continue;
    /* the record through an encoder */
    pb_encoder_t en = pb_encoder_create(&v->desc), in; uint64_t vals[64]; int cnt = 1; const uint8_t *p = w + b[i].val; size_t l = b[i].end - b[i].val; pb_error_t r = 0; uint8_t want[4096]; size_t wn = 0;
    memset(vals, 0, sizeof vals); want[0] = 0;
    if (f->type == PB_TYPE_MESSAGE) {
      ref_rec z[50]; int zn = ref_parse(p, l, z, 50), flat = 1; in = pb_encoder_create(&v->desc);
      for (int h = 0; h < zn; h++) { const pb_field_descriptor_t *g = ref_lookup(&sc_desc, inv(v, z[h].tag)); if (!g || g->type == PB_TYPE_MESSAGE) flat = 0; else if (ref_wiretype(g->type) == 2) { pb_string_t s = { (uint8_t *)p + z[h].val, z[h].end - z[h].val }; r |= pb_encoder_encode(&in, z[h].tag, &s, 1); } else { uint64_t y2[2] = { 0, 0 }; ref_unscalar(g->type, p + z[h].val, z[h].end - z[h].val, y2); r |= pb_encoder_encode(&in, z[h].tag, y2, 1); } }
      if (flat) { r |= pb_encoder_encode(&en, v->tag[0] ? fwd(v, f->tag) : 0, &in, 1); wn = put_b(want, fwd(v, f->tag), p, l); }
      pb_encoder_destroy(&in);
    } else if (ref_wiretype(f->type) == 2) { pb_string_t s = { (uint8_t *)p, l }; r = pb_encoder_encode(&en, fwd(v, f->tag), &s, 1); wn = put_b(want, fwd(v, f->tag), p, l); }
    else { size_t o = 0; cnt = 0; uint8_t *m = (uint8_t *)vals; while (o < l && cnt < 60) { uint64_t y2[2] = { 0, 0 }; size_t u = ref_unscalar(f->type, p + o, l - o, y2); if (!u) break; memcpy(m + cnt++ * ref_size(f->type), y2, ref_size(f->type)); o += u; }
      if (a[i].wt != 2 && (f->flags & PB_FLAG_PACKED)) { pb_encoder_destroy(&en); continue; }   /* one value may be packed or not */
      r = pb_encoder_encode(&en, fwd(v, f->tag), vals, cnt);
      if (a[i].wt == 2) wn = put_b(want, fwd(v, f->tag), p, l); else { wn = ref_tag(want, fwd(v, f->tag), a[i].wt); memcpy(want + wn, p, l); wn += l; }
      if (a[i].wt == 2 && cnt == 1) wn = 0; }
    const pb_buffer_t *bf = pb_encoder_buffer(&en);
    mc_check(!r, "encoding field %u fails with %d", f->tag, r);
    mc_check(!wn || (pb_buffer_size(bf) == wn && !memcmp(pb_buffer_data(bf), want, wn)), "field %u is encoded as %s, expected %s", f->tag, mc_hex(pb_buffer_data(bf), pb_buffer_size(bf)), mc_hex(want, wn));
    pb_encoder_destroy(&en); mc_step();
  }
  mc_state(mc_hash(w, n, split)); mc_outcome(mc_hash(w, n, split));
}

static mc_scenario list[] = {
  { "calls", MC_DFS, calls, .bound = "9 messages, every pair of 49 calls, 14 ways to number the fields, 8 ways to spread them over extensions (thorough: every combination)" },
  { "codes", MC_DFS, codes, .bound = "every record of 9 messages, decoded, validated and encoded, 14 ways to number and 8 ways to spread the fields" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th; make_images(); make(&base_, 0, 0);
  for (int m = 0; m < MAPS; m++) for (int s = 0; s < SPLITS; s++) make(vars[m][s] = calloc(1, sizeof(var)), m, s);
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
