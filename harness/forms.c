/*
 * The same value given in different forms. What the library does must depend
 * on what a value says, not on where it lies, who owns it, whether it can be
 * written, what becomes of it after the call, or how something empty came to
 * be empty. Every call is run once with everything in plain memory and once
 * per form, and all that can be seen must agree.
 */
#include "scale.h"
#include <protobluff/util.h>
#include <sys/mman.h>

/* -- memory ------------------------------------------------------------------ */

enum { AREA = 1 << 16 };
static uint8_t *area[2];                      /* AREA writable bytes in front of a page nobody may touch */
static void areas(void) {
  for (int i = 0; i < 2; i++) {
    area[i] = mmap(NULL, AREA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (area[i] == MAP_FAILED || mprotect(area[i] + AREA, 4096, PROT_NONE)) { fprintf(stderr, "forms: no memory\n"); _exit(3); }
  }
}

enum { F_PLAIN, F_EDGE, F_READONLY, F_SCRIBBLE, F_ODD, F_SLACK, F_LAST };  /* where values live */
enum { E_PTR, E_NULL, E_END, E_LAST };        /* how an empty string is said */
enum { S_NEW, S_ERASED, S_CLEARED, S_ZERO, S_SUB, S_LAST };   /* how an empty message came to be */
enum { I_PLAIN, I_ZERO, I_OFFSET };           /* how the image is opened */

static size_t top[2];                         /* bytes handed out of an area, from its end */
static int form;
static void *hold(const void *d, size_t n, size_t align) {
  if (form == F_PLAIN || (form == F_ODD && align > 1)) { uint8_t *p = area[0] + top[0]; top[0] = (top[0] + n + 16) & ~15ull; memcpy(p, d, n); return p; }
  size_t at = form == F_SLACK ? 4096 + top[1] : AREA - top[1] - n;
  if (form == F_ODD) at -= 3; else at &= ~(align - 1);
  if (form == F_SLACK) top[1] += (n + 64) & ~15ull; else top[1] = AREA - at;
  uint8_t *p = area[1] + at; memcpy(p, d, n);
  if (form == F_SLACK) p[n] = 0xff;           /* something that goes on */
  return p;
}
static void begin(void) { mprotect(area[1], AREA, PROT_READ | PROT_WRITE); top[0] = top[1] = 0; }
static void seal(void) { if (form == F_READONLY) mprotect(area[1], AREA, PROT_READ); }
static void after(void) {
  if (form == F_READONLY) mprotect(area[1], AREA, PROT_READ | PROT_WRITE);
  if (form == F_SCRIBBLE) memset(area[1], 0x5a, AREA);
}

static pb_string_t bs_(const void *d, size_t n) { return (pb_string_t){ (uint8_t *)d, n }; }
static char *tr; static size_t trn;
static char out0[1 << 17], out1[1 << 17];
#define SAY(...) (trn += sprintf(tr + trn, __VA_ARGS__))
static void say_hex(const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) SAY("%02x", d[i]); SAY(" "); }

/* -- everything that can be seen of a message ------------------------------------- */

static pb_error_t on_any(const pb_field_descriptor_t *f, const void *v, void *user) {
  (void)user; SAY("%u:", f->tag);
  if (f->type == PB_TYPE_MESSAGE) { SAY("{"); pb_error_t e = pb_decoder_decode(v, on_any, NULL); SAY("}"); return e; }
  if (ref_wiretype(f->type) == 2) { const pb_string_t *s = v; say_hex(s->data, s->size); }
  else say_hex(v, ref_size(f->type));
  return PB_ERROR_NONE;
}
static void look(pb_journal_t *j) {
  say_hex(sc_data(j), sc_size(j));
  pb_decoder_t d = pb_decoder_create(&sc_desc, &j->buffer); pb_error_t e = pb_decoder_decode(&d, on_any, NULL); SAY("decode %d ", e); pb_decoder_destroy(&d);
  pb_validator_t v = pb_validator_create(&sc_desc); SAY("validate %d\n", pb_validator_check(&v, &j->buffer)); pb_validator_destroy(&v);
}

/* -- strings ------------------------------------------------------------------------ */

static const char *const val[] = { "", "x", "seven b", "abc", "0123456789abcdefghijklmnopqrstuvwxyz.....", "0123456789abcdefghijklmnopqrstuvwxyz0123456789" };
enum { NVAL = sizeof val / sizeof *val };
static const uint32_t stag[] = { T_STR, T_BYTES, T_SD, T_OB, T_PB, T_REPSTR };
enum { O_PUT, O_FIELD, O_CURSOR, O_NESTED, O_MATCH, O_FMATCH, O_SEEK, O_NMATCH, O_UNSAFE, O_CREATE, O_ENC1, O_ENC2, O_LAST };
static size_t image(uint8_t *d, int have, uint32_t tag) {
  size_t n = 0; uint8_t t[200]; size_t k;
  if (!have) return 0;
  n += put_u(d + n, T_U32, 5);
  for (int i = 0; i < (tag == T_REPSTR ? 3 : 1); i++) n += put_b(d + n, tag, have == 1 ? "" : "abc", have == 1 ? 0 : 3);
  k = put_b(t, tag, have == 1 ? "" : "abc", have == 1 ? 0 : 3); if (have == 3) n += put_b(d + n, T_SUB, t, k);
  n += put_u(d + n, T_BOOL, 1);
  return n;
}
/* one call on strings, in the form at hand */
static void run_string(int op, uint32_t tag, int have, const char *what, int empty, int open) {
  uint8_t img[512]; size_t n = image(img, have, tag), len = strlen(what); begin();
  uint8_t *bytes = hold(what, len, 1);
  if (!len) bytes = empty == E_NULL ? NULL : empty == E_END ? area[1] + AREA : bytes;
  if (form == F_EDGE && !len && empty == E_PTR) bytes = area[1] + AREA;
  pb_string_t sv = { bytes, len }, two[2] = { sv, sv }; const pb_string_t *s = hold(op == O_ENC2 ? two : &sv, op == O_ENC2 ? sizeof two : sizeof sv, 8);
  uint32_t path_[] = { T_SUB, tag }; const pb_tag_t *path = hold(path_, sizeof path_, 4);
  static uint8_t room[1024]; uint8_t *at = room + 16 + (open >= I_OFFSET ? open - I_OFFSET : 0); if (n) memcpy(at, img, n);
  SAY("op %d tag %u: ", op, tag);
  if (op == O_ENC1 || op == O_ENC2) {
    pb_encoder_t e = pb_encoder_create(&sc_desc); seal(); pb_error_t r = pb_encoder_encode(&e, tag, s, op == O_ENC2 ? 2 : 1); after();
    SAY("%d ", r); const pb_buffer_t *b = pb_encoder_buffer(&e); say_hex(pb_buffer_data(b), pb_buffer_size(b)); pb_encoder_destroy(&e); mc_step(); return;
  }
  pb_journal_t j = !n ? pb_journal_create_empty() : open == I_PLAIN ? pb_journal_create(at, n) : pb_journal_create_zero_copy(at, n);
  pb_message_t m = pb_message_create(&sc_desc, &j); pb_error_t r = 0; pb_string_t g = { NULL, 0 };
  switch (op) {
    case O_PUT: seal(); r = pb_message_put(&m, tag, s); after(); break;
    case O_MATCH: seal(); r = pb_message_match(&m, tag, s); after(); break;
    case O_FIELD: { pb_field_t f = pb_field_create(&m, tag); seal(); r = pb_field_put(&f, s); after(); SAY("get %d ", pb_field_get(&f, &g)); say_hex(g.data, g.size); pb_field_destroy(&f); break; }
    case O_FMATCH: { pb_field_t f = pb_field_create(&m, tag); seal(); r = pb_field_match(&f, s); after(); pb_field_destroy(&f); break; }
    case O_CURSOR: case O_UNSAFE: { pb_cursor_t c = op == O_CURSOR ? pb_cursor_create(&m, tag) : pb_cursor_create_unsafe(&m, tag); if (have >= 2 && tag == T_REPSTR) pb_cursor_next(&c);
      seal(); r = pb_cursor_put(&c, s); after(); SAY("get %d ", pb_cursor_get(&c, &g)); say_hex(g.data, g.size); pb_cursor_destroy(&c); break; }
    case O_SEEK: { pb_cursor_t c = pb_cursor_create(&m, tag); seal(); r = pb_cursor_match(&c, s); r |= pb_cursor_seek(&c, s) << 1; after(); SAY("valid %d err %d ", pb_cursor_valid(&c), pb_cursor_error(&c)); pb_cursor_destroy(&c); break; }
    case O_NESTED: seal(); r = pb_message_nested_put(&m, path, 2, s); after(); break;
    case O_NMATCH: seal(); r = pb_message_nested_match(&m, path, 2, s); after(); break;
    default: { seal(); pb_field_t f = pb_field_create_nested(&m, path, 2); r = pb_field_error(&f); if (!r) r = pb_field_put(&f, s); after(); pb_field_destroy(&f); }
  }
  mc_step(); SAY("result %d ", r);
  if (tag != T_REPSTR) { SAY("has %d ", pb_message_has(&m, tag)); g.size = 0; SAY("get %d ", pb_message_get(&m, tag, &g)); say_hex(g.data, g.size); SAY("get nested %d ", pb_message_nested_get(&m, path_, 2, &g)); say_hex(g.data, g.size); }
  look(&j);
  pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void strings(void) {
  int op = mc_choose(O_LAST), t = mc_choose(6), have = mc_choose(4), v = mc_choose(NVAL);
  if (!mc_shard()) return;
  uint32_t tag = stag[t]; const char *what = val[v]; int rep = tag == T_REPSTR;
  if (rep && (op == O_PUT || op == O_MATCH || op == O_FIELD || op == O_FMATCH || op == O_NESTED || op == O_NMATCH || op == O_CREATE)) return;
  if (!rep && op == O_ENC2) return;
  int f = mc_choose(F_LAST), e = *what ? 0 : mc_choose(E_LAST), open = op >= O_ENC1 || !have ? I_PLAIN : mc_choose(I_OFFSET + 16);
  mc_trace("string call %d on field %u (%s), value \"%s\", form %d, empty as %d, image as %d", op, tag, (const char *[]){ "no fields", "empty", "abc", "abc and nested" }[have], what, f, e, open);
  form = F_PLAIN; tr = out0; trn = 0; run_string(op, tag, have, what, E_PTR, open == I_PLAIN ? I_PLAIN : I_ZERO);
  form = f; tr = out1; trn = 0; run_string(op, tag, have, what, e, open);
  mc_check(!strcmp(out0, out1), "the same value in another form gives\n  %s\ninstead of\n  %s", out1, out0);
  /* and it is the right thing: after a write which says it worked, the value is there */
  if (op == O_PUT || op == O_FIELD || (op == O_CURSOR && have)) {
    form = f; begin(); char want[200], hex[120]; size_t k = 0; for (const char *p = what; *p; p++) k += sprintf(hex + k, "%02x", *p); hex[k] = 0;
    snprintf(want, sizeof want, op == O_PUT ? "result 0 has 1 get 0 %s " : "get 0 %s result 0", hex);
    mc_check(open >= I_ZERO || strstr(out1, want), "the value is not there: %s, expected %s", out1, want);
  }
  mc_state(mc_hash(out1, trn, op * 8 + f)); mc_outcome(mc_hash(out1, trn, 0));
}

/* -- numbers ------------------------------------------------------------------------- */

static const uint32_t ntag[] = { T_U32, T_F64, T_SI, T_ENUM, T_BOOL, T_F32, T_UD, T_XX, T_OA, T_PA, T_REP, T_PACK, T_PF32, T_RI64, T_EXT };
static void run_number(int op, uint32_t tag, int have, uint64_t x, int count, int open) {
  const pb_field_descriptor_t *d = tag == T_EXT ? &sc_extf[0] : ref_lookup(&sc_desc, tag); size_t size = ref_size(d->type), n = 0, k, q; begin();
  uint8_t raw[64], img[256], t[64]; for (int i = 0; i < count; i++) { uint64_t y = x + (d->type == PB_TYPE_BOOL || d->type == PB_TYPE_ENUM ? 0 : i); memcpy(raw + i * size, &y, size); }
  const void *v = hold(raw, size * count, size); uint32_t path_[] = { T_SUB, tag }; const pb_tag_t *path = hold(path_, 8, 4);
  uint64_t one[2] = { 1, 0 }; int packed = d->label == PB_LABEL_REPEATED && (d->flags & PB_FLAG_PACKED);
  if (have) {
    n = put_b(img, T_STR, "ab", 2); q = 0;
    if (packed) { for (int i = 0; i < 3; i++) q += ref_scalar(d->type, one, t + q); n += put_b(img + n, tag, t, q); }
    else for (int i = 0; i < (d->label == PB_LABEL_REPEATED ? 3 : 1); i++) { n += ref_tag(img + n, tag, ref_wiretype(d->type)); n += ref_scalar(d->type, one, img + n); }
    if (have > 1) { memcpy(t, img, n); k = n; n += put_b(img + n, T_SUB, t, k); }
  }
  SAY("op %d tag %u: ", op, tag);
  if (op >= O_ENC1) {
    pb_encoder_t e = pb_encoder_create(&sc_desc); seal(); pb_error_t r = pb_encoder_encode(&e, tag, v, count); after();
    SAY("%d ", r); const pb_buffer_t *b = pb_encoder_buffer(&e); say_hex(pb_buffer_data(b), pb_buffer_size(b)); pb_encoder_destroy(&e); mc_step(); return;
  }
  static uint8_t room[1024]; uint8_t *at = room + 16 + (open >= I_OFFSET ? open - I_OFFSET : 0); if (n) memcpy(at, img, n);
  pb_journal_t j = !n ? pb_journal_create_empty() : open == I_PLAIN ? pb_journal_create(at, n) : pb_journal_create_zero_copy(at, n);
  pb_message_t m = pb_message_create(&sc_desc, &j); pb_error_t r = 0; uint64_t g[2] = { 0, 0 };
  switch (op) {
    case O_PUT: seal(); r = pb_message_put(&m, tag, v); after(); break;
    case O_MATCH: seal(); r = pb_message_match(&m, tag, v); after(); break;
    case O_FIELD: { pb_field_t f = pb_field_create(&m, tag); seal(); r = pb_field_put(&f, v); after(); SAY("get %d ", pb_field_get(&f, g)); say_hex((void *)g, size); pb_field_destroy(&f); break; }
    case O_FMATCH: { pb_field_t f = pb_field_create(&m, tag); seal(); r = pb_field_match(&f, v); after(); pb_field_destroy(&f); break; }
    case O_CURSOR: case O_UNSAFE: { pb_cursor_t c = op == O_CURSOR ? pb_cursor_create(&m, tag) : pb_cursor_create_unsafe(&m, tag); if (have && d->label == PB_LABEL_REPEATED) pb_cursor_next(&c);
      seal(); r = pb_cursor_put(&c, v); after(); SAY("get %d ", pb_cursor_get(&c, g)); say_hex((void *)g, size); pb_cursor_destroy(&c); break; }
    case O_SEEK: { pb_cursor_t c = pb_cursor_create(&m, tag); seal(); r = pb_cursor_match(&c, v); r |= pb_cursor_seek(&c, v) << 1; after(); SAY("valid %d err %d ", pb_cursor_valid(&c), pb_cursor_error(&c)); pb_cursor_destroy(&c); break; }
    case O_NESTED: seal(); r = pb_message_nested_put(&m, path, 2, v); after(); break;
    case O_NMATCH: seal(); r = pb_message_nested_match(&m, path, 2, v); after(); break;
    default: { seal(); pb_field_t f = pb_field_create_nested(&m, path, 2); r = pb_field_error(&f); if (!r) r = pb_field_put(&f, v); after(); pb_field_destroy(&f); }
  }
  mc_step(); SAY("result %d ", r);
  if (d->label != PB_LABEL_REPEATED) {
    /* what is read goes to the end of memory: nothing behind the value may be written */
    uint8_t *e = area[1] + AREA - size; memset(e, 0, size); SAY("has %d get %d ", pb_message_has(&m, tag), pb_message_get(&m, tag, e)); say_hex(e, size);
    memset(e, 0, size); SAY("get nested %d ", pb_message_nested_get(&m, path_, 2, e)); say_hex(e, size);
  } else { pb_cursor_t c = pb_cursor_create(&m, tag); uint8_t *e = area[1] + AREA - size; while (pb_cursor_valid(&c)) { memset(e, 0, size); SAY("get %d ", pb_cursor_get(&c, e)); say_hex(e, size); if (!pb_cursor_next(&c)) break; } pb_cursor_destroy(&c); }
  look(&j);
  pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void numbers(void) {
  static const uint64_t xs[] = { 0, 1, 0x7f, 0x80, 0x12345678, 0xffffffff, 0x0102030405060708ull, ~0ull };
  int op = mc_choose(O_LAST), t = mc_choose(15), have = mc_choose(3), x = mc_choose(8);
  if (!mc_shard()) return;
  uint32_t tag = ntag[t]; const pb_field_descriptor_t *d = tag == T_EXT ? &sc_extf[0] : ref_lookup(&sc_desc, tag); int rep = d->label == PB_LABEL_REPEATED;
  if (rep && (op == O_PUT || op == O_MATCH || op == O_FIELD || op == O_FMATCH || op == O_NESTED || op == O_NMATCH || op == O_CREATE)) return;
  if (!rep && op == O_ENC2) return;
  if ((d->type == PB_TYPE_BOOL || d->type == PB_TYPE_ENUM) && xs[x] > 1) return;
  int f = mc_choose(F_LAST), count = op == O_ENC2 ? 2 + mc_choose(3) : 1, open = op >= O_ENC1 || !have ? I_PLAIN : mc_choose(I_OFFSET + 16);
  mc_trace("number call %d on field %u (%d), value %lx, form %d, image as %d", op, tag, have, (unsigned long)xs[x], f, open);
  form = F_PLAIN; tr = out0; trn = 0; run_number(op, tag, have, xs[x], count, open == I_PLAIN ? I_PLAIN : I_ZERO);
  form = f; tr = out1; trn = 0; run_number(op, tag, have, xs[x], count, open);
  mc_check(!strcmp(out0, out1), "the same value in another form gives\n  %s\ninstead of\n  %s", out1, out0);
  begin(); mc_state(mc_hash(out1, trn, op * 8 + f)); mc_outcome(mc_hash(out1, trn, 0));
}

/* -- messages ------------------------------------------------------------------------- */

static const uint8_t full[] = { 0x08, 0x07, 0x12, 0x02, 'h', 'i' };
/* one call that takes a message, which is empty (or not) in the way how says */
enum { M_PUT, M_CURSOR, M_NESTED, M_FIELDS, M_ENC, M_ENC2, M_LAST };
static void run_message(int op, uint32_t tag, int have, int filled, int how, int open) {
  uint8_t img[256], t[64], simg[64]; size_t n = 0, k, sn = 0; begin();
  if (have) { n = put_u(img, T_U32, 1); k = have == 1 ? 0 : put_b(t, T_STR, "abc", 3); for (int i = 0; i < (tag == T_REPSUB ? 3 : 1); i++) n += put_b(img + n, tag, t, k);
    if (have == 3) n += put_b(img + n, T_SUB, full, sizeof full);
    n += put_u(img + n, T_BOOL, 1); }
  SAY("op %d tag %u: ", op, tag);
  if (op >= M_ENC) {                          /* an encoder within an encoder */
    pb_encoder_t in[2], e = pb_encoder_create(&sc_desc); uint32_t u = 7; pb_string_t hi = bs_("hi", 2);
    for (int i = 0; i < 2; i++) {
      in[i] = pb_encoder_create(&sc_desc);
      if (filled) { pb_error_t r = pb_encoder_encode(&in[i], T_U32, &u, 1); if (!r) r = pb_encoder_encode(&in[i], T_STR, &hi, 1); if (r) SAY("%d ", r); }
    }
    form = how == S_ZERO ? F_READONLY : how == S_SUB ? F_EDGE : F_PLAIN; const pb_encoder_t *v = hold(in, sizeof *in * (op == M_ENC2 ? 2 : 1), 8); seal();
    SAY("%d ", pb_encoder_encode(&e, tag, v, op == M_ENC2 ? 2 : 1)); after(); const pb_buffer_t *b = pb_encoder_buffer(&e); say_hex(pb_buffer_data(b), pb_buffer_size(b));
    for (int i = 0; i < 2; i++) pb_encoder_destroy(&in[i]); pb_encoder_destroy(&e); mc_step(); return;
  }
  static uint8_t room[1024]; uint8_t *at = room + 16 + (open >= I_OFFSET ? open - I_OFFSET : 0); if (n) memcpy(at, img, n);
  pb_journal_t j = !n ? pb_journal_create_empty() : open == I_PLAIN ? pb_journal_create(at, n) : pb_journal_create_zero_copy(at, n);
  /* the source */
  pb_journal_t sj; pb_message_t sr, s; uint32_t u = 7; pb_string_t hi = bs_("hi", 2); static uint8_t sroom[64]; pb_error_t e = 0;
  const uint8_t *want = filled ? full : simg; size_t wn = filled ? sizeof full : 0;
  switch (how) {
    case S_NEW: sj = wn ? pb_journal_create(want, wn) : pb_journal_create_empty(); break;
    case S_ERASED: case S_CLEARED: sn = wn; if (wn) memcpy(simg, want, wn); sn += put_u(simg + sn, T_F32 - 1, 1); sj = pb_journal_create(simg, sn); break;
    case S_ZERO: memcpy(sroom + 5, full, sizeof full); sj = pb_journal_create_zero_copy(sroom + 5, filled ? sizeof full : 0); break;
    default: sn = put_u(simg, T_U32, 9); sn += put_b(simg + sn, T_SUB, filled ? full : (void *)"", wn); sn += put_u(simg + sn, T_BOOL, 1); sj = pb_journal_create(simg, sn);
  }
  sr = pb_message_create(&sc_desc, &sj); s = how == S_SUB ? pb_message_create_within(&sr, T_SUB) : pb_message_copy(&sr);
  if (how == S_ERASED) e = pb_message_erase(&s, T_BOOL);
  if (how == S_CLEARED) { e = pb_message_clear(&s); pb_message_destroy(&s); s = pb_message_create(&sc_desc, &sj); if (!e && filled) e = pb_message_put(&s, T_U32, &u); if (!e && filled) { e = pb_message_put(&s, T_STR, &hi); } }
  SAY("%d ", e);
  pb_message_t m = pb_message_create(&sc_desc, &j); uint32_t path_[] = { T_SUB, tag }; pb_error_t r = 0; const pb_message_t *v = hold(&s, sizeof s, 8);
  switch (op) {
    case M_PUT: seal(); r = pb_message_put(&m, tag, v); after(); break;
    case M_CURSOR: { pb_cursor_t c = pb_cursor_create(&m, tag); if (have >= 2 && tag == T_REPSUB) pb_cursor_next(&c); seal(); r = pb_cursor_put(&c, v); after(); pb_cursor_destroy(&c); break; }
    case M_NESTED: seal(); r = pb_message_nested_put(&m, path_, 2, v); after(); break;
    default: {                                /* and a copy field by field: everything read is given on as it is */
      pb_message_t d = pb_message_create_within(&m, tag); r = pb_message_error(&d); uint32_t x; pb_string_t y;
      if (!r && pb_message_has(&s, T_U32) && !(r = pb_message_get(&s, T_U32, &x))) r = pb_message_put(&d, T_U32, &x);
      if (!r && pb_message_has(&s, T_STR) && !(r = pb_message_get(&s, T_STR, &y))) r = pb_message_put(&d, T_STR, &y);
      pb_message_destroy(&d);
    }
  }
  mc_step(); SAY("result %d ", r);
  if (tag != T_REPSUB) SAY("has %d ", pb_message_has(&m, tag));
  look(&j);
  pb_message_destroy(&m); pb_message_destroy(&s); pb_message_destroy(&sr); pb_journal_destroy(&sj); pb_journal_destroy(&j);
}
static void messages(void) {
  int op = mc_choose(M_LAST), t = mc_choose(3), have = mc_choose(4), filled = mc_choose(2);
  if (!mc_shard()) return;
  uint32_t tag = (uint32_t[]){ T_SUB, T_REPSUB, T_OC }[t];
  if (tag == T_REPSUB && (op == M_PUT || op == M_NESTED || op == M_FIELDS)) return;
  if (tag != T_REPSUB && op == M_ENC2) return;
  int f = mc_choose(F_LAST), how = mc_choose(S_LAST), open = op >= M_ENC || !have ? I_PLAIN : mc_choose(I_OFFSET + 16);
  if (f == F_SCRIBBLE || f == F_ODD) return;                                    /* a handle is not a value to be thrown away */
  if (op >= M_ENC && f) return;
  if (how == S_ZERO && !filled && op < M_ENC) return;                           /* there is no zero-copy journal of no bytes */
  mc_trace("message call %d on field %u (%d), %s message made as %d, form %d, image as %d", op, tag, have, filled ? "a full" : "an empty", how, f, open);
  form = F_PLAIN; tr = out0; trn = 0; run_message(op, tag, have, filled, S_NEW, open == I_PLAIN ? I_PLAIN : I_ZERO);
  form = f; tr = out1; trn = 0; run_message(op, tag, have, filled, how, open);
  mc_check(!strcmp(out0, out1), "the same message made otherwise gives\n  %s\ninstead of\n  %s", out1, out0);
  form = F_PLAIN; begin(); mc_state(mc_hash(out1, trn, op * 8 + f)); mc_outcome(mc_hash(out1, trn, 0));
}

/* -- buffers ----------------------------------------------------------------------------- */

static void buffers(void) {
  static const uint8_t doc[] = { 0x08, 0x87, 0x01, 0x12, 0x00, 0x12, 0x02, 'h', 'i', 0x22, 0x03, 0x01, 0x80, 0x01, 0x59, 1, 2, 3, 4, 5, 6, 7, 8, 0x2a, 0x02, 0x08, 0x05, 0x2a, 0x00, 0x78, 0x01, 0x85, 0x01, 1, 2, 3, 4 };
  int n = 1 + mc_choose(sizeof doc), where = mc_choose(20), kind = mc_choose(4);
  if (!mc_shard()) return;
  mc_trace("%d bytes, at place %d, opened as %d", n, where, kind);
  char *o[2] = { out0, out1 };
  for (int a = 0; a < 2; a++) {
    tr = o[a]; trn = 0; form = F_PLAIN; begin();
    uint8_t *d; static uint8_t room[256];
    if (!a) memcpy(d = room, doc, n);
    else if (where < 16) { d = area[1] + AREA - 64 - n + where; memcpy(d, doc, n); memset(d + n, 0xff, area[1] + AREA - d - n); }
    else if (where == 16) memcpy(d = area[1] + AREA - n, doc, n);
    else if (where == 17) { d = area[1] + AREA - n; memcpy(d, doc, n); mprotect(area[1], AREA, PROT_READ); }
    else if (where == 18) { d = area[1] + 4096 - n / 2; memcpy(d, doc, n); }
    else { d = area[1] + AREA - n - 1; memcpy(d, doc, n); d[n] = 0x80; }
    pb_journal_t j; int k = a ? kind : 0;
    if (k == 0) j = pb_journal_create_zero_copy(d, n);
    else if (k == 1) j = pb_journal_create(d, n);
    else if (k == 2) { j = pb_journal_create_empty(); pb_journal_destroy(&j); j = pb_journal_create_zero_copy(d, n); }
    else { j = pb_journal_create(d, n); if (where != 17) memset(d, 0xee, n); }  /* the copy is a copy */
    SAY("valid %d ", pb_journal_error(&j)); look(&j);
    pb_message_t m = pb_message_create(&sc_desc, &j); SAY("%d ", pb_message_error(&m)); static const uint32_t tags[] = { T_U32, T_STR, T_F64, T_BOOL, T_F32, T_SI };
    for (int i = 0; i < 6; i++) { uint64_t v[2] = { 0, 0 }; pb_error_t e = pb_message_get(&m, tags[i], v); SAY("%u: has %d get %d ", tags[i], pb_message_has(&m, tags[i]), e); if (!e) { if (tags[i] == T_STR) { pb_string_t s; memcpy(&s, v, sizeof s); say_hex(s.data, s.size); } else say_hex((void *)v, 8); } }
    for (int i = 0; i < 2; i++) { pb_cursor_t c = pb_cursor_create(&m, i ? T_PACK : T_SUB); int q = 0; while (pb_cursor_valid(&c)) { q++; if (i) { uint32_t u = 0; SAY("get %d ", pb_cursor_get(&c, &u)); SAY("%u ", u); } if (!pb_cursor_next(&c)) break; } SAY("%d, error %d ", q, pb_cursor_error(&c)); pb_cursor_destroy(&c); }
    pb_message_destroy(&m); pb_journal_destroy(&j); mc_step();
  }
  begin();
  mc_check(!strcmp(out0, out1), "the same bytes elsewhere give\n  %s\ninstead of\n  %s", out1, out0);
  mc_state(mc_hash(out1, trn, where * 4 + kind)); mc_outcome(mc_hash(out1, trn, 0));
}

static mc_scenario list[] = {
  { "strings", MC_DFS, strings, .bound = "12 calls, 6 fields that are absent, empty, set or nested, 6 values, in 6 kinds of memory, 3 ways to say empty, 18 ways to open the message" },
  { "numbers", MC_DFS, numbers, .bound = "12 calls, 15 fields, 8 values, in 6 kinds of memory, 18 ways to open the message" },
  { "messages", MC_DFS, messages, .bound = "6 calls, 3 fields, an empty or full message made in 5 ways, in 4 kinds of memory, 18 ways to open the message" },
  { "buffers", MC_DFS, buffers, .bound = "every prefix of a message of 37 bytes, at 20 places, opened in 4 ways" },
  { NULL }
};
static void setup(int th) { sc_setup(); thorough = th; areas(); }
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
