/* Memory goes through the object's own allocator and comes back exactly once.
   Three heaps: two allocators that keep books (falloc.h) and the system's,
   whose functions are renamed in the library. Every history of the stated
   blocks, every request of one step failing, every order of destruction; after
   each step only the heap of the object worked on may have been asked. */
#include "schema.h"
#include "falloc.h"
#include <protobluff/util.h>
#include "message/buffer.h"

/* -- heaps -------------------------------------------------------------------- */

static fa H[3];                                          /* A, B and the system */
void *mc_malloc(size_t n) { return fa_alloc(&H[2], n); }
void *mc_realloc(void *p, size_t n) { return fa_resize(&H[2], p, n); }
void mc_free(void *p) { if (p) fa_free(&H[2], p); }
void *mc_calloc(size_t a, size_t b) { void *p = mc_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static int seen[3][2];
static void mark(void) { for (int i = 0; i < 3; i++) { seen[i][0] = H[i].requests; seen[i][1] = H[i].live; } }
static void only(int h, const char *what) {              /* since mark(), only heap h was used (-1: none) */
  for (int i = 0; i < 3; i++) if (i != h)
    mc_check(H[i].requests == seen[i][0] && H[i].live == seen[i][1], "%s: %s", what,
      i == 2 ? "memory is taken from or given to the system behind the allocator's back" : "memory is taken from or given to another object's allocator");
}
static void begin(void) { for (int i = 0; i < 3; i++) { for (int k = 0; k < 64; k++) free(H[i].blk[k].p); fa_init(&H[i]); } }
static void finish(void) {
  for (int i = 0; i < 3; i++) mc_check(!H[i].live, "%d blocks of the %s allocator are never given back", H[i].live, i == 0 ? "first" : i == 1 ? "second" : "default");
}
/* the fault: request k of step s fails, alone or with all later ones of the step */
static int f_step, f_k, f_all, depth = 3;
static void draw_fault(int steps, int ks) {
  int x = mc_choose(1 + steps * ks * 2); f_step = -1;
  if (x) { x--; f_step = x / (ks * 2); f_k = x / 2 % ks; f_all = x & 1; }
}
static void arm(int step) {
  for (int i = 0; i < 3; i++) { fa_arm(&H[i], step == f_step && !f_all ? f_k : -1); H[i].fail_from = step == f_step && f_all ? H[i].requests + f_k : -1; }
}

/* -- messages ----------------------------------------------------------------- */

static const uint8_t full[] = { 0x08, 5, 0x12, 2, 'a', 'b', 0x18, 1, 0x18, 2, 0x22, 3, 1, 0xac, 2, 0x2a, 4, 0x08, 9, 0x38, 1, 0x42, 1, 'q', 0x78, 1, 0xa0, 6, 1 };
static uint8_t zc[64];
typedef struct tree { int heap; pb_journal_t j; pb_message_t m, s; pb_field_t f; pb_cursor_t c; pb_oneof_t o; int hs, hf, hc, ho; } tree;
static tree W[3];
static void plant(tree *t, int heap, int img) {
  memset(t, 0, sizeof *t); t->heap = heap;
  if (img == 2) { memcpy(zc, full, sizeof full); t->j = pb_journal_create_zero_copy(zc, sizeof full); t->heap = -1; }
  else if (heap == 2) t->j = img ? pb_journal_create(full, sizeof full) : pb_journal_create_empty();
  else t->j = img ? pb_journal_create_with_allocator(&H[heap].a, full, sizeof full) : pb_journal_create_empty_with_allocator(&H[heap].a);
  t->m = pb_message_create(&sc_desc, &t->j);
}
static void drop(tree *t, int order) {
  for (int i = 0; i < 6; i++) switch (order ? 5 - i : i) {
    case 0: if (t->hc) pb_cursor_destroy(&t->c); t->hc = 0; break;
    case 1: if (t->hf) pb_field_destroy(&t->f); t->hf = 0; break;
    case 2: if (t->ho) pb_oneof_destroy(&t->o); t->ho = 0; break;
    case 3: if (t->hs) pb_message_destroy(&t->s); t->hs = 0; break;
    default: break;
  }
}
static void fell(tree *t, int order) {
  drop(t, order); pb_message_destroy(&t->m); pb_journal_destroy(&t->j);
}
static pb_error_t deaf(const pb_field_descriptor_t *f, const void *v, void *u) {
  if (f->type == PB_TYPE_MESSAGE) return pb_decoder_decode(v, deaf, u);
  return ++*(int *)u == 3 ? PB_ERROR_EOM : PB_ERROR_NONE; }
enum { OPS = 20 };
static const char *oname[] = { "put integer", "put string", "append", "append packed", "erase string", "open submessage", "write in submessage", "put the other message", "create defaulted field",
  "put through field", "clear field", "open cursor and erase", "put through cursor", "nested put", "put oneof member", "clear oneof", "clear submessage", "read, decode and validate", "destroy handles", "start over" };
static void step(tree *t, tree *u, int op, int img) {
  uint32_t w = 70000, x = 1; uint64_t v[2]; pb_string_t s = { (uint8_t *)"quite a long string for this field", 34 }, e = { (uint8_t *)"", 0 };
  pb_tag_t path[] = { T_SUB, T_SUB, T_STR };
  switch (op) {
    case 0: (void)!pb_message_put(&t->m, T_U32, &w); break;
    case 1: (void)!pb_message_put(&t->m, T_STR, &s); break;
    case 2: (void)!pb_message_put(&t->m, T_REP, &w); break;
    case 3: (void)!pb_message_put(&t->m, T_PACK, &x); break;
    case 4: (void)!pb_message_erase(&t->m, T_STR); break;
    case 5: if (t->hs) pb_message_destroy(&t->s); t->s = pb_message_create_within(&t->m, T_SUB); t->hs = 1; break;
    case 6: if (t->hs) { (void)!pb_message_put(&t->s, T_STR, &s); (void)!pb_message_put(&t->s, T_PACK, &w); } break;
    case 7: (void)!pb_message_put(&t->m, T_REPSUB, &u->m); break;
    case 8: if (t->hf) pb_field_destroy(&t->f); t->f = pb_field_create(&t->m, T_SD); t->hf = 1; break;
    case 9: if (t->hf) { (void)!pb_field_put(&t->f, &s); (void)!pb_field_put(&t->f, &e); } break;
    case 10: if (t->hf) (void)!pb_field_clear(&t->f); break;
    case 11: if (t->hc) pb_cursor_destroy(&t->c); t->c = pb_cursor_create(&t->m, T_PACK); t->hc = 1; (void)!pb_cursor_erase(&t->c); break;
    case 12: if (t->hc) { (void)!pb_cursor_next(&t->c); (void)!pb_cursor_put(&t->c, &w); } break;
    case 13: (void)!pb_message_nested_put(&t->m, path, 3, &s); break;
    case 14: (void)!pb_message_put(&t->m, T_OB, &s); break;
    case 15: if (t->ho) pb_oneof_destroy(&t->o); t->o = pb_oneof_create(sc_oneof, &t->m); t->ho = 1; (void)!pb_oneof_clear(&t->o); break;
    case 16: if (t->hs) (void)!pb_message_clear(&t->s); break;
    case 17: {                                           /* takes no memory at all */
      int n = 0; mark();
      (void)!pb_message_has(&t->m, T_STR); (void)!pb_message_get(&t->m, T_STR, v); (void)!pb_message_match(&t->m, T_U32, &w);
      (void)!pb_message_nested_get(&t->m, path, 3, v);
      pb_cursor_t c = pb_cursor_create(&t->m, T_REP); while (pb_cursor_valid(&c) && pb_cursor_next(&c)); pb_cursor_destroy(&c);
      pb_decoder_t d = pb_decoder_create(&sc_desc, &t->j.buffer); (void)!pb_decoder_decode(&d, deaf, &n); pb_decoder_destroy(&d);
      pb_validator_t k = pb_validator_create(&sc_desc); (void)!pb_validator_check(&k, &t->j.buffer); pb_validator_destroy(&k);
      only(-1, "reading"); break; }
    case 18: drop(t, 1); break;
    case 19: { int h = t->heap; fell(t, 0); plant(t, h, h < 0 ? 2 : img); break; }
  }
}
static void messages(void) {
  int img = mc_choose(3), img2 = mc_choose(2), n = depth, ops[8];
  begin();
  draw_fault(n, 4);
  for (int i = 0; i < n; i++) { ops[i] = mc_choose(OPS); if (i == 0 && !mc_shard()) return; }
  int sys = mc_choose(2), order = mc_choose(2);
  arm(-1);
  plant(&W[0], sys ? 2 : 0, img); plant(&W[1], 1, img2);
  for (int i = 0; i < n; i++) {
    tree *t = &W[0], *u = &W[1]; arm(i); mark();
    step(t, u, ops[i], img);
    if (ops[i] != 17) only(t->heap, oname[ops[i]]);      /* a zero copy message has none */
    mc_step();
    mc_trace("%s%s: %d, %d, %d blocks", oname[ops[i]], i == f_step ? " (out of memory)" : "", H[0].live, H[1].live, H[2].live);
  }
  arm(-1);
  if (order) { fell(&W[1], 0); fell(&W[0], 1); } else { fell(&W[0], 0); fell(&W[1], 0); }
  finish();
  mc_state(mc_hash(ops, sizeof(int) * n, img * 64 + img2 * 32 + sys * 16 + f_step * 4 + f_k)); mc_outcome(mc_hash((int []){ H[0].requests, H[1].requests, H[2].requests }, 12, 3));
}

/* -- encoders, buffers and journals by themselves ------------------------------- */

static pb_encoder_t E[3];
static pb_encoder_t enc(int h) { return h == 2 ? pb_encoder_create(&sc_desc) : pb_encoder_create_with_allocator(&H[h].a, &sc_desc); }
static void encoders(void) {
  int n = depth + 1, op[8], at[8]; begin(); draw_fault(n, 2);
  for (int i = 0; i < n; i++) { at[i] = mc_choose(3); op[i] = mc_choose(7); if (i == 0 && !mc_shard()) return; }
  arm(-1); for (int h = 0; h < 3; h++) E[h] = enc(h);
  uint32_t w[3] = { 1, 300, 70000 }; pb_string_t s = { (uint8_t *)"text", 4 };
  for (int i = 0; i < n; i++) {
    int h = at[i]; pb_encoder_t *e = &E[h]; arm(i); mark();
    switch (op[i]) {
      case 0: (void)!pb_encoder_encode(e, T_U32, w, 1); break;
      case 1: (void)!pb_encoder_encode(e, T_STR, &s, 1); break;
      case 2: (void)!pb_encoder_encode(e, T_PACK, w, 3); break;
      case 3: (void)!pb_encoder_encode(e, T_SUB, &E[(h + 1) % 3], 1); break;
      case 4: (void)!pb_encoder_encode(e, T_SUB, &E[(h + 2) % 3], 1); break;
      case 5: (void)!pb_encoder_encode(e, 9999, w, 1); break;
      case 6: pb_encoder_destroy(e); *e = enc(h); break;
    }
    only(h, "encoding"); mc_step();
    mc_trace("encoder %d, operation %d%s: %d, %d, %d blocks", h, op[i], i == f_step ? " (out of memory)" : "", H[0].live, H[1].live, H[2].live);
  }
  arm(-1); int order = mc_choose(3);
  for (int h = 0; h < 3; h++) pb_encoder_destroy(&E[(h + order) % 3]);
  finish();
  mc_state(mc_hash(op, sizeof(int) * n, mc_hash(at, sizeof(int) * n, f_step * 8 + f_k))); mc_outcome(mc_hash((int []){ H[0].requests, H[1].requests, H[2].requests }, 12, 4));
}
static void buffers(void) {
  int n = depth, op[8]; begin(); draw_fault(n + 1, 2);
  int kind = mc_choose(7), how = mc_choose(2);
  for (int i = 0; i < n; i++) { op[i] = mc_choose(9); if (i == 0 && !mc_shard()) return; }
  int h = kind == 6 ? -1 : kind / 3 ? 2 : 0, img = kind % 3; uint8_t own[16] = { 1, 2, 3, 4, 5, 6, 7, 8 };
  pb_journal_t j; memset(&j, 0, sizeof j);
  arm(0); mark();
  if (how) j = kind == 6 ? pb_journal_create_zero_copy(own, 8) : h ? img ? pb_journal_create(full, img * 9) : pb_journal_create_empty()
    : img ? pb_journal_create_with_allocator(&H[0].a, full, img * 9) : pb_journal_create_empty_with_allocator(&H[0].a);
  else j.buffer = kind == 6 ? pb_buffer_create_zero_copy(own, 8) : h ? img ? pb_buffer_create(full, img * 9) : pb_buffer_create_empty()
    : img ? pb_buffer_create_with_allocator(&H[0].a, full, img * 9) : pb_buffer_create_empty_with_allocator(&H[0].a);
  pb_buffer_t *b = &j.buffer; only(h, "creation");
  for (int i = 0; i < n; i++) {
    arm(i + 1); mark(); size_t m = pb_buffer_valid(b) ? pb_buffer_size(b) : 0, mid = m / 2;
    static const struct { int from, to, size; } W[] = { { 0, 0, 3 }, { 1, 1, 20 }, { 0, 1, 1 }, { 0, 1, 0 }, { 1, 2, 2 }, { 0, 2, 0 }, { 2, 2, 1 } };
    size_t pos[] = { 0, mid, m };
    if (op[i] < 7) {
      size_t s = pos[W[op[i]].from], e = pos[W[op[i]].to];
      if (W[op[i]].size == 0 && s == e) ;
      else if (how) (void)!(W[op[i]].size ? pb_journal_write(&j, s, s, e, full, W[op[i]].size) : pb_journal_clear(&j, s, s, e));
      else (void)!(W[op[i]].size ? pb_buffer_write(b, s, e, full, W[op[i]].size) : pb_buffer_clear(b, s, e));
    } else if (op[i] == 7) { if (pb_buffer_valid(b) && !how) { uint8_t *p = pb_buffer_grow(b, 5); if (p) memset(p, 1, 5); } }
    else if (pb_buffer_valid(b)) (void)!pb_buffer_write(b, m + 1, m + 2, full, 1);
    only(h, "an update"); mc_step();
    mc_trace("operation %d%s: %d, %d, %d blocks", op[i], i + 1 == f_step ? " (out of memory)" : "", H[0].live, H[1].live, H[2].live);
  }
  arm(-1);
  if (how) pb_journal_destroy(&j); else pb_buffer_destroy(b);
  finish();
  mc_state(mc_hash(op, sizeof(int) * n, kind * 2 + how + f_step * 64 + f_k * 32)); mc_outcome(mc_hash((int []){ H[0].requests, H[1].requests, H[2].requests }, 12, 5));
}
static mc_scenario list[] = {
  { "messages", MC_DFS, messages, .bound = "20 operations on two messages (a copy, an empty or a zero copy one on its own or the default allocator; one on another), every sequence of 3 (thorough: 4), each of 4 requests of any step failing, alone or with all behind it; two orders of destruction" },
  { "encoders", MC_DFS, encoders, .bound = "3 encoders on 3 allocators, 7 operations each with embedding across, every sequence of 4 (thorough: 5), each of 2 requests of any step failing; 3 orders of destruction" },
  { "buffers", MC_DFS, buffers, .bound = "buffers and journals created in 7 ways, 9 splices, every sequence of 3 (thorough: 4), each of 2 requests of any step failing, creation included" },
  { NULL }
};
static void setup(int thorough) { sc_setup(); depth = thorough ? 4 : 3; }
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
