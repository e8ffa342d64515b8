/* Errors propagate: a handle made from something invalid is invalid, and
   nothing done through an invalid handle does anything. Every way to build a
   handle from another one up to a depth, over images with and without the
   element asked for, with elements going away in between and memory running
   out; then every function on the handle and on what can be made from it. */
#include "schema.h"
#include "falloc.h"
#include "core/encoder.h"
#include "core/decoder.h"

static fa F; static pb_journal_t J; static int big_steps;

/* Where a handle points: gone once it or anything around it is removed */
typedef struct place { struct place *up; uint32_t tag; int nth, gone; } place;
static place P[64]; static int np;
static place *place_at(place *up, uint32_t tag, int nth) {
  for (int i = 0; i < np; i++) if (P[i].up == up && P[i].tag == tag && P[i].nth == nth && !P[i].gone) return &P[i];
  P[np] = (place){ up, tag, nth, 0 }; return &P[np++];
}
static int gone(const place *p) { for (; p; p = p->up) if (p->gone) return 1; return 0; }
static void remove_all(place *up, uint32_t tag) { for (int i = 0; i < np; i++) if (P[i].up == up && P[i].tag == tag) P[i].gone = 1; }

/* the element a cursor comes to, when it has passed those up to nth */
static place *element(place *up, uint32_t tag, int nth) {
  if (tag == T_SUB) return place_at(up, tag, 0);
  for (;; nth++) {
    int g = 0; for (int i = 0; i < np; i++) if (P[i].up == up && P[i].tag == tag && P[i].nth == nth && P[i].gone) g = 1;
    if (!g) return place_at(up, tag, nth);
  }
}
enum { MSG, FLD, CUR, ONE };
typedef struct { int kind, bad; place *at, *cur; uint32_t tag; union { pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o; }; char name[120]; } handle;
static handle H[8]; static int nh;
static int dead(const handle *h) { return h->bad || gone(h->at); }

static uint8_t before[4096]; static size_t bn;
static void snap(void) { bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn); }
static int same(void) { return sc_size(&J) == bn && (!bn || !memcmp(sc_data(&J), before, bn)); }

static int error_of(handle *h) {
  int e, v;
  switch (h->kind) {
    case MSG: e = pb_message_error(&h->m); v = pb_message_valid(&h->m); break;
    case FLD: e = pb_field_error(&h->f); v = pb_field_valid(&h->f); break;
    case CUR: e = pb_cursor_error(&h->c); v = pb_cursor_valid(&h->c); break;
    default: e = pb_oneof_error(&h->o); v = pb_oneof_valid(&h->o);
  }
  mc_check(!e == !!v, "%s: error %d, but valid says %d", h->name, e, v);
  return e;
}
static void drop(handle *h) {
  switch (h->kind) { case MSG: pb_message_destroy(&h->m); break; case FLD: pb_field_destroy(&h->f); break; case CUR: pb_cursor_destroy(&h->c); break; default: pb_oneof_destroy(&h->o); }
}

/* -- steps ------------------------------------------------------------------- */

enum { K_WITHIN_SUB, K_WITHIN_OC, K_WITHIN_UNK, K_NESTED, K_NESTED_UNK, K_FIELD_U32, K_FIELD_UD, K_FIELD_BYTES, K_FIELD_UNK, K_FIELD_NESTED,
  K_CUR_REPSUB, K_CUR_REP, K_CUR_PACK, K_CUR_UNK, K_CUR_NESTED, K_CUR_SUB, K_CUR_ANY, K_ONEOF, K_MSGS,
  K_FROM_CUR_MSG = K_MSGS, K_FROM_CUR_FLD, K_NEXT, K_REWIND, K_CURS, K_FROM_FLD = K_CURS, K_FLDS };
static const char *kname[] = { "submessage 5", "submessage 9", "submessage 100", "submessage 5.5", "submessage 100.5", "field 1", "field 18", "field 21", "field 100", "field 5.1",
  "cursor 6", "cursor 3", "cursor 4", "cursor 100", "cursor 5.3", "cursor 5", "cursor", "oneof", "submessage at", "field at", "next", "rewind", "message in" };
static uint32_t p55[] = { T_SUB, T_SUB }, pu5[] = { T_UNK, T_SUB }, p51[] = { T_SUB, T_U32 }, p53[] = { T_SUB, T_REP };

/* Builds handle number nh from h; what it must be goes into bad */
static void derive(handle *h, int k, handle *n) {
  int d = dead(h); n->bad = d; n->at = h->at; n->tag = 0; n->cur = NULL;
  snprintf(n->name, sizeof n->name, "%s of %.80s", kname[k], h->name);
  switch (k) {
    case K_WITHIN_SUB: n->kind = MSG; n->m = pb_message_create_within(&h->m, T_SUB); if (!d) n->at = place_at(h->at, T_SUB, 0); break;
    case K_WITHIN_OC: n->kind = MSG; n->m = pb_message_create_within(&h->m, T_OC); if (!d) n->at = place_at(h->at, T_OC, 0); break;
    case K_WITHIN_UNK: n->kind = MSG; n->m = pb_message_create_within(&h->m, T_UNK); n->bad = 1; break;
    case K_NESTED: n->kind = MSG; n->m = pb_message_create_nested(&h->m, p55, 2); if (!d) n->at = place_at(place_at(h->at, T_SUB, 0), T_SUB, 0); break;
    case K_NESTED_UNK: n->kind = MSG; n->m = pb_message_create_nested(&h->m, pu5, 2); n->bad = 1; break;
    case K_FIELD_U32: n->kind = FLD; n->f = pb_field_create(&h->m, T_U32); if (!d) n->at = place_at(h->at, T_U32, 0); break;
    case K_FIELD_UD: n->kind = FLD; n->f = pb_field_create(&h->m, T_UD); if (!d) n->at = place_at(h->at, T_UD, 0); break;
    case K_FIELD_BYTES: n->kind = FLD; n->f = pb_field_create(&h->m, T_BYTES); if (!d) n->at = place_at(h->at, T_BYTES, 0); n->tag = T_BYTES; break;
    case K_FIELD_UNK: n->kind = FLD; n->f = pb_field_create(&h->m, T_UNK); n->bad = 1; break;
    case K_FIELD_NESTED: n->kind = FLD; n->f = pb_field_create_nested(&h->m, p51, 2); if (!d) n->at = place_at(place_at(h->at, T_SUB, 0), T_U32, 0); break;
    case K_CUR_REPSUB: n->kind = CUR; n->c = pb_cursor_create(&h->m, n->tag = T_REPSUB); break;
    case K_CUR_REP: n->kind = CUR; n->c = pb_cursor_create(&h->m, n->tag = T_REP); break;
    case K_CUR_PACK: n->kind = CUR; n->c = pb_cursor_create(&h->m, n->tag = T_PACK); break;
    case K_CUR_SUB: n->kind = CUR; n->c = pb_cursor_create(&h->m, n->tag = T_SUB); break;
    case K_CUR_UNK: n->kind = CUR; n->c = pb_cursor_create(&h->m, T_UNK); n->bad = 1; break;
    case K_CUR_NESTED: n->kind = CUR; n->c = pb_cursor_create_nested(&h->m, p53, 2); n->tag = T_REP; if (!d) n->at = place_at(h->at, T_SUB, 0); break;
    case K_CUR_ANY: n->kind = CUR; n->c = pb_cursor_create_without_tag(&h->m); n->tag = T_XX; break;
    case K_ONEOF: n->kind = ONE; n->o = pb_oneof_create(sc_oneof, &h->m); break;
    case K_FROM_CUR_MSG: n->kind = MSG; n->bad = d || error_of(h) || gone(h->cur) || (h->tag != T_REPSUB && h->tag != T_SUB);
      n->m = pb_message_create_from_cursor(&h->c); if (!n->bad) n->at = h->cur; break;
    case K_FROM_CUR_FLD: n->kind = FLD; n->bad = d || error_of(h) || gone(h->cur) || h->tag == T_REPSUB || h->tag == T_SUB;
      n->f = pb_field_create_from_cursor(&h->c); if (!n->bad) n->at = h->cur; break;
    case K_FROM_FLD: n->kind = MSG; n->m = pb_message_create_from_field(&sc_desc, &h->f); break;
  }
  if (n->kind == CUR && !n->bad && !n->c.error) n->cur = element(n->at, n->tag, 0);
}
/* a place of its own for cursors over all fields is not tracked */
static int derivable(handle *h, int k) {
#ifndef NDEBUG
  if (!error_of(h) && (k == K_WITHIN_UNK || k == K_NESTED_UNK || k == K_FIELD_UNK || k == K_CUR_UNK)) return 0;
#endif
  if (h->kind == MSG) return k < K_MSGS;
  if (h->kind == CUR) return k >= K_MSGS && k < K_CURS && h->tag != T_XX;
  if (h->kind == FLD) return k == K_FROM_FLD && (h->tag == T_BYTES || (dead(h) && error_of(h)));
  return 0;
}

/* Every function on a handle that must be invalid */
static void refused(const handle *h0) {
  uint64_t v[4] = { 1, 0, 0, 0 }; pb_string_t s = { (uint8_t *)"x", 1 }; uint32_t *pp[] = { p51, p53 }; (void)pp;
  handle h; int e;
#define AGAIN() (h = *h0)
#define QUIET(what) mc_check(same(), "%s of %s changes %s into %s", what, h0->name, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)))
#define FAILS(call, what) do { for (int twice = 0; twice < 2; twice++) { if (!twice) AGAIN(); mc_step(); e = (call); mc_trace("  %s of %s: %d", what, h0->name, e); QUIET(what); mc_check(e, "%s of %s succeeds", what, h0->name); } } while (0)
#define FALSE(call, what) do { for (int twice = 0; twice < 2; twice++) { if (!twice) AGAIN(); mc_step(); e = (call); mc_trace("  %s of %s: %d", what, h0->name, e); QUIET(what); mc_check(!e, "%s of %s says %d", what, h0->name, e); } } while (0)
#define QUIETLY(call, what) do { AGAIN(); mc_step(); (call); QUIET(what); } while (0)
  switch (h0->kind) {
    case MSG: {
      pb_message_t other; pb_journal_t oj = pb_journal_create((const uint8_t *)"\x08\x01", 2); other = pb_message_create(&sc_desc, &oj);
      FALSE(pb_message_has(&h.m, T_U32), "has(1)"); FALSE(pb_message_has(&h.m, T_SUB), "has(5)");
      FALSE(pb_message_match(&h.m, T_U32, v), "match(1)"); FALSE(pb_message_match(&h.m, T_STR, &s), "match(2)");
      FAILS(pb_message_get(&h.m, T_U32, v), "get(1)"); FAILS(pb_message_get(&h.m, T_STR, v), "get(2)"); FAILS(pb_message_get(&h.m, T_UD, v), "get(18)");
      v[0] = 1;
      FAILS(pb_message_put(&h.m, T_U32, v), "put(1)"); FAILS(pb_message_put(&h.m, T_STR, &s), "put(2)"); FAILS(pb_message_put(&h.m, T_REP, v), "put(3)");
      FAILS(pb_message_put(&h.m, T_PACK, v), "put(4)"); FAILS(pb_message_put(&h.m, T_SUB, &other), "put(5)"); FAILS(pb_message_put(&h.m, T_OB, &s), "put(8)"); FAILS(pb_message_put(&h.m, T_BYTES, &s), "put(21)");
      QUIETLY(e = pb_message_erase(&h.m, T_U32), "erase(1)"); QUIETLY(e = pb_message_erase(&h.m, T_SUB), "erase(5)"); QUIETLY(e = pb_message_erase(&h.m, T_OA), "erase(7)");
      FAILS(pb_message_clear(&h.m), "clear");
      FALSE(pb_message_nested_has(&h.m, p51, 2), "has(5.1)"); FALSE(pb_message_nested_match(&h.m, p51, 2, v), "match(5.1)");
      FAILS(pb_message_nested_get(&h.m, p51, 2, v), "get(5.1)"); v[0] = 1;
      FAILS(pb_message_nested_put(&h.m, p51, 2, v), "put(5.1)"); QUIETLY(e = pb_message_nested_erase(&h.m, p51, 2), "erase(5.1)");
      pb_message_destroy(&other); pb_journal_destroy(&oj);
      /* as a value */
      pb_journal_t tj = pb_journal_create((const uint8_t *)"\x2a\x00", 2); pb_message_t tm = pb_message_create(&sc_desc, &tj);
      AGAIN(); e = pb_message_put(&tm, T_SUB, &h.m); mc_check(e, "put(%s) succeeds", h0->name);
      pb_cursor_t tc = pb_cursor_create(&tm, T_SUB); AGAIN(); e = pb_cursor_put(&tc, &h.m); mc_check(e, "cursor put(%s) succeeds", h0->name);
      mc_check(pb_journal_size(&tj) == 2, "putting %s changes the target", h0->name);
      pb_cursor_destroy(&tc); pb_message_destroy(&tm); pb_journal_destroy(&tj);
      break;
    }
    case FLD:
      FAILS(pb_field_get(&h.f, v), "get");
      v[0] = 1; if (h0->tag == T_BYTES) memcpy(v, &s, sizeof s);
      FALSE(pb_field_match(&h.f, v), "match"); FAILS(pb_field_put(&h.f, v), "put"); FAILS(pb_field_clear(&h.f), "clear");
      break;
    case CUR:
      FALSE(pb_cursor_next(&h.c), "next"); if (dead(h0)) FALSE(pb_cursor_rewind(&h.c), "rewind"); FALSE(pb_cursor_seek(&h.c, v), "seek"); FALSE(pb_cursor_match(&h.c, v), "match");
      FAILS(pb_cursor_get(&h.c, v), "get"); v[0] = 1;
      if (h0->tag != T_REPSUB && h0->tag != T_SUB && h0->tag != T_XX) FAILS(pb_cursor_put(&h.c, v), "put");
      FAILS(pb_cursor_erase(&h.c), "erase"); 
      break;
    case ONE:
      FALSE(pb_oneof_case(&h.o), "case"); QUIETLY(e = pb_oneof_clear(&h.o), "clear");
      break;
  }
  /* and all that is made from it */
  for (int k = 0; k < K_FLDS; k++) {
    AGAIN(); handle n;
    if (k == K_NEXT || k == K_REWIND || !derivable(&h, k)) continue;
    if (k == K_FROM_FLD && !error_of(&h) && h.tag != T_BYTES) continue;
    derive(&h, k, &n); mc_step(); QUIET(kname[k]);
    mc_trace("  %s: %d", n.name, error_of(&n));
    mc_check(error_of(&n), "%s is valid", n.name);
    drop(&n); QUIET("destroying what is made");
  }
  AGAIN(); drop(&h); QUIET("destroy");
}

/* -- images ------------------------------------------------------------------ */
static const char *images[] = { "", "08 05", "2a 02 0801 32 02 0802 32 04 1805 1806 18 01 18 02 22 02 0102", "2a 06 2a04 0801 1803 4a 02 0809 aa01 02 0801", "38 05 3a", "7a 01 08 05" };
enum { IMAGES = 6 };
static int garbled_image;

enum { E_ERASE_SUB = 100, E_CLEAR_ROOT, E_ERASE_REPSUB, E_PUT, E_ERASE_OC, E_CUR_ERASE, E_FLD_CLEAR, E_MSG_CLEAR, E_LAST };
static const int env[] = { E_ERASE_SUB, E_CLEAR_ROOT, E_ERASE_REPSUB, E_PUT, E_ERASE_OC };

static void run(int start, int steps) {
  int im = mc_choose(IMAGES), oom = start == 0 ? mc_choose(5) - 1 : -1; uint8_t d[64]; size_t n = 0;
  sc_bytes b = sc_rec(images[im], ""); memcpy(d, b.d, n = b.n); garbled_image = im >= 4;
  dom_reset(); fa_init(&F); np = nh = 0;
  place *root = place_at(NULL, 0, 0);
  if (start == 1) {                                      /* no memory for the journal itself */
    if (!n) { fa_done(&F); return; }
    fa_arm(&F, 0); J = pb_journal_create_with_allocator(&F.a, d, n); fa_arm(&F, -1);
    mc_check(!pb_journal_valid(&J) && pb_journal_error(&J), "a journal without memory is valid");
    mc_check(!pb_journal_size(&J) && pb_journal_empty(&J) && !pb_journal_data(&J), "a journal without memory has %zu bytes", pb_journal_size(&J));
  } else J = n ? pb_journal_create_with_allocator(&F.a, d, n) : pb_journal_create_empty_with_allocator(&F.a);
  H[0] = (handle){ .kind = MSG, .at = root, .m = pb_message_create(&sc_desc, &J), .bad = start == 1, .name = "the message" }; nh = 1;
  mc_check(start == 1 ? pb_message_error(&H[0].m) : !pb_message_error(&H[0].m), "the message: error %d", pb_message_error(&H[0].m));
  mc_trace("image %s", mc_hex(d, n));
  uint64_t obs = im;
  for (int s = 0; s < steps; s++) {
    /* which handle, and what with it */
    int hi = mc_choose(nh), opts[K_FLDS + 8], no = 0; handle *h = &H[hi];
    for (int k = 0; k < K_FLDS; k++) if (derivable(h, k)) opts[no++] = k;
    if (h->kind == CUR && !dead(h) && h->cur && h->tag != T_XX) opts[no++] = E_CUR_ERASE;
    if (h->kind == FLD && !dead(h)) opts[no++] = E_FLD_CLEAR;
    if (h->kind == MSG && hi && !dead(h)) opts[no++] = E_MSG_CLEAR;
    if (hi == 0 && start != 1) for (size_t i = 0; i < sizeof env / sizeof *env; i++) opts[no++] = env[i];
    if (!no) break;
    int k = opts[mc_choose(no)];
    if (s == 0 && !mc_shard()) return;
    int wasdead = dead(h), e; snap(); uint32_t one = 90000;
    fa_arm(&F, oom); mc_step();
    if (k < K_FLDS && k != K_NEXT && k != K_REWIND) {
      if (k == K_FROM_FLD && wasdead && h->tag != T_BYTES && !error_of(h)) break;
      handle *nw = &H[nh++]; derive(h, k, nw);
      int failed = F.failed;
      e = error_of(nw); mc_trace("%s: error %d%s -> %s", nw->name, e, failed ? " (out of memory)" : "", mc_hex(sc_data(&J), sc_size(&J)));
      if (nw->bad) mc_check(e, "%s is valid", nw->name);
      if (wasdead) mc_check(same(), "%s changes the message", nw->name);
      if (nw->kind == CUR && e && k != K_CUR_NESTED) mc_check(same(), "%s changes the message", nw->name);
      if (!nw->bad && !failed && !garbled_image && nw->kind != CUR && !(im == 5)) mc_check(!e, "%s: error %d", nw->name, e);
      if (e && !(nw->kind == CUR && e == PB_ERROR_EOM)) nw->bad = 1;                                /* whatever the reason, invalid is invalid */
    } else if (k == K_NEXT || k == K_REWIND) {
      int c = h->c.error, r = k == K_NEXT ? pb_cursor_next(&h->c) : pb_cursor_rewind(&h->c);
      mc_trace("%s of %s: %d", kname[k], h->name, r);
      if (wasdead) mc_check(!r, "%s of %s says %d", kname[k], h->name, r);
      mc_check(!r == !!error_of(h), "%s of %s says %d, but the error is %d", kname[k], h->name, r, error_of(h));
      mc_check(same(), "%s changes the message", kname[k]);
      if (r) h->cur = element(h->at, h->tag, k == K_NEXT ? h->cur->nth + 1 : 0); (void)c;
    } else {
      switch (k) {
        case E_ERASE_SUB: e = pb_message_erase(&H[0].m, T_SUB); if (!e) remove_all(root, T_SUB); break;
        case E_ERASE_REPSUB: e = pb_message_erase(&H[0].m, T_REPSUB); if (!e) remove_all(root, T_REPSUB); break;
        case E_ERASE_OC: e = pb_message_erase(&H[0].m, T_OA); if (!e) remove_all(root, T_OC); break;
        case E_CLEAR_ROOT: e = pb_message_clear(&H[0].m); if (!e) { root->gone = 1; } break;
        case E_PUT: e = pb_message_put(&H[0].m, T_U32, &one); break;
        case E_CUR_ERASE: e = pb_cursor_erase(&h->c); if (!e) {
h->cur->gone = 1; } break;
        case E_FLD_CLEAR: e = pb_field_clear(&h->f); if (!e && h->at) h->at->gone = 1; break;
        default: e = pb_message_clear(&h->m); if (!e && h->at) h->at->gone = 1; break;
      }
      mc_trace("%s %d: error %d -> %s", k >= E_CUR_ERASE ? h->name : "update", k - 100, e, mc_hex(sc_data(&J), sc_size(&J)));
      if (wasdead && k != E_CLEAR_ROOT) mc_check(same(), "an update through %s changes the message", h->name);
    }
    /* an update without memory may be half done, see P18 (oom-half-done) */
    if (F.failed && !same()) {
      for (int i = nh; i--; ) drop(&H[i]);
      pb_journal_destroy(&J); fa_arm(&F, -1); fa_done(&F); mc_outcome(mc_mix(obs + 1)); return;
    }
    fa_arm(&F, -1); oom = oom > 0 ? oom : -1;
    obs = mc_mix(obs * 31 + k * 7 + hi);
  }
  mc_state(mc_hash(sc_data(&J), sc_size(&J), obs));
  /* a cleared oneof has no member left, unless there is an error */
  snap();
  for (int i = 0; i < nh; i++) {
    handle *h = &H[i];
    int d = dead(h); if (h->kind == CUR && error_of(h) == PB_ERROR_EOM && !gone(h->at)) d = 1;
    obs = mc_mix(obs * 2 + d);
    if (d && !(h->kind == CUR && !error_of(h) && !gone(h->at))) refused(h);
    mc_check(same(), "looking at %s changes the message", h->name);
  }
  /* a oneof that is cleared without an error has no member left */
  for (int i = 0; i < nh; i++) if (H[i].kind == ONE && !dead(&H[i])) {
    pb_error_t e = pb_oneof_clear(&H[i].o); int c = pb_oneof_case(&H[i].o);
    mc_trace("clear of %s: %d, then case %d, error %d", H[i].name, e, c, pb_oneof_error(&H[i].o));
    mc_check(e || (!c && !pb_oneof_error(&H[i].o)), "%s is cleared, but has case %d, error %d", H[i].name, c, pb_oneof_error(&H[i].o));
    mc_check(!e || garbled_image, "clear of %s fails with %d", H[i].name, e);
    break;
  }
  mc_outcome(obs);
  for (int i = nh; i--; ) drop(&H[i]);
  pb_journal_destroy(&J); fa_done(&F);
}
static int deep;
static void chains(void) { run(0, deep ? 4 : 3); }
static void nomem(void) { run(1, deep ? 4 : 3); }

/* -- buffers, encoders, decoders ---------------------------------------------- */
static pb_error_t never(const pb_field_descriptor_t *f, const void *v, void *u) { mc_fail("the handler is called for an invalid buffer"); return PB_ERROR_NONE; }
static void buffers(void) {
  uint8_t d[4] = "\x08\x05\x10"; pb_buffer_t b;
  int how = mc_choose(3), twice = mc_choose(2);
  dom_reset(); fa_init(&F);
  if (how == 0) { fa_arm(&F, 0); b = pb_buffer_create_with_allocator(&F.a, d, 2); fa_arm(&F, -1); }
  else if (how == 1) { fa_arm(&F, 0); b = pb_buffer_create_with_allocator(&F.a, d, 1); fa_arm(&F, -1); }
  else b = pb_buffer_create_invalid();
  for (int i = 0; i <= twice; i++) {
    mc_check(!pb_buffer_valid(&b) && pb_buffer_error(&b), "a buffer without memory is valid");
    mc_check(!pb_buffer_size(&b) && pb_buffer_empty(&b) && !pb_buffer_data(&b), "a buffer without memory has content");
    pb_decoder_t dec = pb_decoder_create(&sc_desc, &b); mc_step();
    mc_check(pb_decoder_error(&dec) && !pb_decoder_valid(&dec), "the decoder over an invalid buffer is valid");
    mc_check(pb_decoder_decode(&dec, never, NULL), "decoding an invalid buffer succeeds");
    pb_decoder_destroy(&dec);
    pb_encoder_t e = pb_encoder_create_with_allocator(&F.a, &sc_desc); mc_step();
    pb_encoder_t sub = pb_encoder_create_invalid();
    mc_check(pb_encoder_error(&sub) && !pb_encoder_valid(&sub), "an invalid encoder is valid");
    uint32_t v = 1; mc_check(pb_encoder_encode(&sub, T_U32, &v, 1), "encoding with an invalid encoder succeeds");
    mc_check(pb_encoder_encode(&e, T_SUB, &sub, 1), "encoding an invalid encoder succeeds");
    mc_check(!pb_buffer_size(pb_encoder_buffer(&e)), "encoding an invalid encoder leaves %zu bytes", pb_buffer_size(pb_encoder_buffer(&e)));
    mc_check(!pb_encoder_encode(&e, T_U32, &v, 1) && pb_buffer_size(pb_encoder_buffer(&e)) == 2, "the encoder is of no use after that");
    pb_encoder_destroy(&e); pb_encoder_destroy(&sub);
    mc_outcome(how * 2 + i);
  }
  pb_buffer_destroy(&b); fa_done(&F);
}
static mc_scenario list[] = {
  { "chains", MC_DFS, chains, .bound = "6 images (2 garbled), <= 3 (thorough: 4) steps out of 23 ways to make a handle from any earlier one or to update, memory running out at a step; every function on every invalid handle and on what is made from it" },
  { "nomem", MC_DFS, nomem, .bound = "as chains, on a journal for which there was no memory" },
  { "buffers", MC_DFS, buffers, .bound = "invalid buffers with decoders and encoders" },
  { NULL }
};
static void setup(int th) { sc_setup(); deep = th; (void)big_steps; }
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
