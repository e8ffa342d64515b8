/*
 * Sizes as a dimension: the same guarantees for histories of many updates,
 * messages of many elements, many levels, types of many fields, large buffers,
 * many blocks. Every size up to a bound and every one next to a border of a
 * one, two and three byte number is gone through.
 */
#include "scale.h"
#include <protobluff/util.h>
#include <protobluff/util/chunk_allocator.h>
#include "core/buffer.h"
#include "message/buffer.h"

/* -- idle: handles that sleep through long histories -------------------------- */

static char longtext[401];
static pb_string_t str(size_t n) { return pb_string_init((uint8_t *)longtext, n); }
enum { IDLE_OPS = 17 };
static struct { size_t s, in, ob, by, first; uint32_t u, xx, f32, p, app; int has_by, has_xx, has_f32; } st;
static pb_error_t idle_op(pb_journal_t *j, pb_message_t *w, int op) {
  uint32_t path[2] = { T_SUB, T_STR }; pb_string_t s; uint32_t u; uint64_t x; pb_error_t e; (void)j;
  switch (op) {
    case 0: case 1: st.s = op ? 130 : 2; s = str(st.s); return pb_message_put(w, T_STR, &s);
    case 2: case 3: u = st.u = op == 2 ? 1 : 0xffffffff; return pb_message_put(w, T_U32, &u);
    case 4: st.by = 3; st.has_by = 1; s = str(3); return pb_message_put(w, T_BYTES, &s);
    case 5: st.has_by = 0; return pb_message_erase(w, T_BYTES);
    case 6: case 7: st.in = op == 6 ? 140 : 1; s = str(st.in); return pb_message_nested_put(w, path, 2, &s);
    case 8: x = st.xx = 300; st.has_xx = 1; return pb_message_put(w, T_XX, &x);
    case 9: st.has_xx = 0; return pb_message_erase(w, T_XX);
    case 10: case 11: {
      pb_cursor_t c = pb_cursor_create(w, T_PACK); u = st.p = op == 10 ? 1 : 300;
      e = pb_cursor_put(&c, &u); pb_cursor_destroy(&c); return e; }
    case 12: case 13: {
      pb_cursor_t c = pb_cursor_create(w, T_REPSUB); pb_message_t m = pb_message_create_from_cursor(&c);
      st.first = op == 12 ? 3 : 0; s = str(st.first); e = pb_message_put(&m, T_STR, &s);
      pb_message_destroy(&m); pb_cursor_destroy(&c); return e; }
    case 14: st.ob = 5 + (st.ob & 1); s = str(st.ob ^= 1); return pb_message_put(w, T_OB, &s);
    case 15: u = st.f32 = 99; st.has_f32 = 1; return pb_message_put(w, T_F32, &u);
    default: u = 14; e = pb_message_put(w, T_REP, &u);             /* append and take back */
      if (!e) { pb_cursor_t c = pb_cursor_create(w, T_REP); for (int i = 0; i < 3; i++) pb_cursor_next(&c);
        e = pb_cursor_erase(&c); pb_cursor_destroy(&c); }
      return e;
  }
}
static void idle_run(int n, int a, int b, int fresh, int mid) {
  uint8_t d[200], t[100]; size_t o = 0, k;
  memset(&st, 0, sizeof st); st.u = 5; st.s = 4; st.in = 2; st.ob = 3; st.p = 21;
  o += put_u(d + o, T_U32, 5); o += put_b(d + o, T_STR, longtext, 4);
  for (int i = 11; i < 14; i++) o += put_u(d + o, T_REP, i);
  o += put_b(d + o, T_PACK, "\x15\x16\x17", 3);
  k = put_u(t, T_U32, 31); k += put_b(t + k, T_STR, longtext, 2); o += put_b(d + o, T_SUB, t, k);
  for (int i = 41; i < 44; i++) { k = put_u(t, T_U32, i); if (i == 41) k += put_b(t + k, T_STR, "", 0); o += put_b(d + o, T_REPSUB, t, k); }
  o += put_b(d + o, T_OB, longtext, 3); o += put_u(d + o, T_BOOL, 1);
  pb_journal_t j = sc_open(d, o);
  pb_message_t w = pb_message_create(&sc_desc, &j), m0 = pb_message_create(&sc_desc, &j), m1 = pb_message_create_within(&m0, T_SUB);
  pb_field_t f0 = pb_field_create(&m0, T_STR), f1 = pb_field_create(&m1, T_U32);
  pb_cursor_t cr = pb_cursor_create(&m0, T_REP), cp = pb_cursor_create(&m0, T_PACK), cs = pb_cursor_create(&m0, T_REPSUB);
  pb_cursor_next(&cr); pb_cursor_next(&cp); pb_cursor_next(&cs);
  pb_message_t m2 = pb_message_create_from_cursor(&cs);
  pb_oneof_t on = pb_oneof_create(sc_oneof, &m0);
  uint32_t v; pb_string_t s;
  mc_trace("%d updates, %d and %d in turns%s%s", n, a, b, fresh ? ", each through a new handle" : "", mid ? ", a look half way" : "");
  for (int i = 0; i < n; i++) {
    pb_error_t e;
    if (fresh) { pb_message_t x = pb_message_create(&sc_desc, &j); e = idle_op(&j, &x, i & 1 ? b : a); pb_message_destroy(&x); }
    else e = idle_op(&j, &w, i & 1 ? b : a);
    mc_check(!e, "update %d (operation %d) fails with %d", i, i & 1 ? b : a, e);
    if (mid && i == n / 2) {
      mc_check(!pb_field_get(&f1, &v) && v == 31, "half way, a field reads %u", v);
      mc_check(!pb_cursor_get(&cp, &v) && v == 22, "half way, a cursor on packed values reads %u", v);
    }
  }
  mc_step(); pb_error_t e;
  mc_check(!(e = pb_field_get(&f0, &s)) && s.size == st.s && !memcmp(s.data, longtext, s.size), "the string's field handle is lost (error %d)", e);
  mc_check(!(e = pb_field_get(&f1, &v)) && v == 31, "the submessage's field handle reads %u (error %d)", v, e);
  mc_check(!(e = pb_cursor_get(&cr, &v)) && v == 12, "the cursor on repeated values reads %u (error %d)", v, e);
  mc_check(!(e = pb_cursor_get(&cp, &v)) && v == 22, "the cursor on packed values reads %u (error %d)", v, e);
  mc_check(!(e = pb_message_get(&m2, T_U32, &v)) && v == 42, "the message in a repeated field reads %u (error %d)", v, e);
  mc_check(!(e = pb_message_get(&m1, T_STR, &s)) && s.size == st.in, "the submessage reads a string of %zu bytes (error %d)", s.size, e);
  mc_check(!(e = pb_message_get(&m0, T_U32, &v)) && v == st.u, "the message reads %u (error %d)", v, e);
  mc_check(pb_oneof_case(&on) == T_OB, "the oneof reports case %u", pb_oneof_case(&on));
  /* writing through them, inside out and back to front */
  s = str(5); mc_check(!(e = pb_message_put(&m2, T_STR, &s)), "a message handle refuses to write (error %d)", e);
  v = 77777; mc_check(!(e = pb_field_put(&f1, &v)), "a field handle refuses to write (error %d)", e);
  v = 120000; mc_check(!(e = pb_cursor_put(&cr, &v)), "a cursor refuses to write (error %d)", e);
  v = 220000; mc_check(!(e = pb_cursor_put(&cp, &v)), "a cursor refuses to write (error %d)", e);
  s = str(7); mc_check(!(e = pb_field_put(&f0, &s)), "a field handle refuses to write (error %d)", e);
  mc_check(pb_cursor_next(&cr) && !pb_cursor_get(&cr, &v) && v == 13 && !pb_cursor_next(&cr), "the cursor on repeated values goes on wrongly (%u)", v);
  mc_check(pb_cursor_next(&cp) && !pb_cursor_get(&cp, &v) && v == 23 && !pb_cursor_next(&cp), "the cursor on packed values goes on wrongly (%u)", v);
  mc_check(pb_cursor_next(&cs) && !pb_cursor_next(&cs), "the cursor on submessages goes on wrongly"); mc_step();
  tn = 0; mc_check(show(text[0], &sc_desc, sc_data(&j), sc_size(&j)), "the message is garbled");
  char *x = text[1]; tn = 0;
  say(x, "%u=%u ", T_U32, st.u); say_str(x, T_STR, longtext, 7); say(x, "%u=11 %u=120000 %u=13 ", T_REP, T_REP, T_REP);
  say(x, "%u=%u %u=220000 %u=23 ", T_PACK, st.p, T_PACK, T_PACK);
  say(x, "%u{%u=77777 ", T_SUB, T_U32); say_str(x, T_STR, longtext, st.in); say(x, "}");
  say(x, "%u{%u=41 ", T_REPSUB, T_U32); say_str(x, T_STR, longtext, st.first); say(x, "}%u{%u=42 ", T_REPSUB, T_U32);
  say_str(x, T_STR, longtext, 5); say(x, "}%u{%u=43 }", T_REPSUB, T_U32);
  say_str(x, T_OB, longtext, st.ob); say(x, "%u=1 ", T_BOOL);
  if (st.has_f32) say(x, "%u=99 ", T_F32);
  if (st.has_by) say_str(x, T_BYTES, longtext, st.by);
  if (st.has_xx) say(x, "%u=%u ", T_XX, st.xx);
  mc_check(!strcmp(text[0], text[1]), "the message holds\n  %s\nexpected\n  %s", text[0], text[1]);
  mc_state(mc_hash(sc_data(&j), sc_size(&j), n)); mc_outcome(mc_hash(text[0], strlen(text[0]), 0));
  pb_oneof_destroy(&on); pb_message_destroy(&m2); pb_cursor_destroy(&cs); pb_cursor_destroy(&cp); pb_cursor_destroy(&cr);
  pb_field_destroy(&f1); pb_field_destroy(&f0); pb_message_destroy(&m1); pb_message_destroy(&m0); pb_message_destroy(&w);
  pb_journal_destroy(&j);
}
static void idle(void) {
  setup_lens(thorough ? 130 : 70, thorough ? 1024 : 512);
  int n = lens[mc_choose(nlens)], a = mc_choose(IDLE_OPS), b = mc_choose(IDLE_OPS);
  if (!mc_shard()) return;
  idle_run(n, a, b, mc_choose(2), mc_choose(2));
}
static void idlelong(void) {
  static const int quick[] = { 4096, 32768, 65536, 65537 }, deep[] = { 4096, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072 };
  int n = thorough ? deep[mc_choose(9)] : quick[mc_choose(4)], a = mc_choose(IDLE_OPS), b = thorough ? mc_choose(IDLE_OPS) : (a + 1) % IDLE_OPS;
  if (!mc_shard()) return;
  idle_run(n, a, b, 0, thorough ? mc_choose(2) : a & 1);
}

/* -- elements: many occurrences under cursors ---------------------------------- */

enum { E_REP, E_PACK, E_STR, E_SUB, E_MIX, E_KINDS };
static uint32_t *want; static int wn;
static uint32_t ek_tag(int k) { return k == E_REP ? T_REP : k == E_STR ? T_REPSTR : k == E_SUB ? T_REPSUB : T_PACK; }
static size_t elem(int kind, uint32_t v, uint8_t *o) {           /* one value on its own */
  uint8_t t[16]; char s[16];
  switch (kind) {
    case E_STR: return put_b(o, T_REPSTR, s, snprintf(s, sizeof s, "%u", v));
    case E_SUB: { size_t k = put_u(t, T_U32, v); return put_b(o, T_REPSUB, t, k); }
    default: return put_u(o, ek_tag(kind), v);
  }
}
static size_t elements_image(int kind, int n, uint8_t *d) {
  size_t o = put_u(d, T_U32, 3);
  if (kind == E_PACK || kind == E_MIX) {
    static uint8_t p[1 << 18];
    for (int i = 0; i < n; ) {
      int run = kind == E_PACK ? n : i % 7 + 2; size_t k = 0;
      if (kind == E_MIX && i % 3 == 0) { o += put_u(d + o, T_PACK, want[i]); i++; continue; }
      for (int e = 0; e < run && i < n; e++) k += ref_varint(p + k, want[i++]);
      o += put_b(d + o, T_PACK, p, k);
    }
  } else for (int i = 0; i < n; i++) o += elem(kind, want[i], d + o);
  return o + put_u(d + o, T_BOOL, 1);
}
static pb_error_t ev_get(int kind, pb_cursor_t *c, uint32_t *v) {
  pb_error_t e; *v = 0;
  if (kind == E_STR) { pb_string_t s; char t[16]; if ((e = pb_cursor_get(c, &s))) return e; mc_check(s.size < 16, "a string of %zu bytes", s.size); memcpy(t, s.data, s.size); t[s.size] = 0; *v = strtoul(t, 0, 10); return e; }
  if (kind == E_SUB) { pb_message_t m = pb_message_create_from_cursor(c); e = pb_message_get(&m, T_U32, v); pb_message_destroy(&m); return e; }
  return pb_cursor_get(c, v);
}
static pb_error_t ev_put(int kind, pb_cursor_t *c, uint32_t v) {
  pb_error_t e;
  if (kind == E_STR) { char t[16]; pb_string_t s = pb_string_init((uint8_t *)t, snprintf(t, sizeof t, "%u", v)); return pb_cursor_put(c, &s); }
  if (kind == E_SUB) { pb_message_t m = pb_message_create_from_cursor(c); e = pb_message_put(&m, T_U32, &v); pb_message_destroy(&m); return e; }
  return pb_cursor_put(c, &v);
}
static void elements_check(pb_journal_t *j, int kind, const char *when) {
  const uint8_t *d = sc_data(j); size_t n = sc_size(j); char *x = text[1];
  mc_step(); tn = 0; mc_check(show(text[0], &sc_desc, d, n), "%s: the message is garbled", when);
  tn = 0; say(x, "%u=3 ", T_U32); char s[16]; uint32_t t = ek_tag(kind);
  int tail = t > T_BOOL; if (tail) say(x, "%u=1 ", T_BOOL);
  for (int i = 0; i < wn; i++)
    if (kind == E_STR) { snprintf(s, sizeof s, "%u", want[i]); say_str(x, t, s, strlen(s)); }
    else if (kind == E_SUB) say(x, "%u{%u=%u }", t, T_U32, want[i]);
    else say(x, "%u=%u ", t, want[i]);
  if (!tail) say(x, "%u=1 ", T_BOOL);
  if (strcmp(text[0], x)) {
    size_t i = 0; while (text[0][i] == x[i]) i++;
    i = i > 20 ? i - 20 : 0;
    mc_check(0, "%s: the message holds .. %.80s, expected .. %.80s", when, text[0] + i, x + i);
  }
}
static uint32_t val(int i, int salt) { static const uint32_t v[] = { 7, 200, 3, 70000, 1, 0xfffffff }; return v[(i + salt) % 6] + i % 5; }
static void elements_run(int kind, int n, int script, int pos, int small) {
  static uint8_t *img; if (!img) img = malloc(1 << 21);
  wn = n;
  for (int i = 0; i < n; i++) want[i] = small ? (uint32_t)i % 100 : val(i, 0);
  size_t sz = elements_image(kind, n, img);
  pb_journal_t j = sc_open(img, sz); pb_message_t m = pb_message_create(&sc_desc, &j);
  uint32_t tag = ek_tag(kind), v;
  pb_cursor_t c = pb_cursor_create(&m, tag), last = pb_cursor_create(&m, tag), mark = pb_cursor_create(&m, tag);
  int li = n - 1, mi = n / 2;
  mc_trace("%d elements of kind %d%s, script %d at %d", n, kind, small ? ", small values" : "", script, pos);
  if (!n) { mc_check(!pb_cursor_valid(&c) && !pb_cursor_next(&c), "a cursor on nothing is valid"); }
  else {
    for (int i = 0; i < li; i++) mc_check(pb_cursor_next(&last), "moving to element %d fails", i + 1);
    for (int i = 0; i < mi; i++) mc_check(pb_cursor_next(&mark), "moving to element %d fails", i + 1);
    mc_check(!ev_get(kind, &last, &v) && v == want[li], "the last element reads %u", v);
    mc_check(!ev_get(kind, &mark, &v) && v == want[mi], "the middle element reads %u", v);
  }
  pb_error_t e; int it = 0;
  switch (script) {
    case 0:                                           /* read everything, twice */
      if (n) for (int round = 0; round < 2; round++) {
        int i = 0;
        do { mc_check(i < n && !ev_get(kind, &c, &v) && v == want[i], "element %d reads %u", i, v); i++; } while (pb_cursor_next(&c));
        mc_check(i == n, "the cursor ends after %d of %d elements", i, n);
        mc_check(pb_cursor_error(&c) == PB_ERROR_EOM, "the cursor ends with error %d", pb_cursor_error(&c));
        mc_check(pb_cursor_rewind(&c), "the cursor cannot be rewound");
      }
      break;
    case 1: case 2: case 3: case 4:                   /* one element: erased, large, small, again */
      if (pos >= n) break;
      for (; it < pos; it++) pb_cursor_next(&c);
      if (script == 1) {
        mc_check(!(e = pb_cursor_erase(&c)), "erasing element %d fails with %d", pos, e);
        memmove(want + pos, want + pos + 1, (n - pos - 1) * sizeof *want); wn--;
        if (li == pos) li = -1; else li--;
        if (mi == pos) mi = -1; else if (mi > pos) mi--;
        elements_check(&j, kind, "after erasing");
        if (pos < wn) mc_check(pb_cursor_next(&c) && !ev_get(kind, &c, &v) && v == want[pos], "the cursor goes on with %u", v);
        else mc_check(!pb_cursor_next(&c), "the cursor goes on behind the last element");
      } else {
        want[pos] = script == 2 ? 0xfffffff0 : 1;
        mc_check(!(e = ev_put(kind, &c, want[pos])), "writing element %d fails with %d", pos, e);
        elements_check(&j, kind, "after writing");
        if (script == 4) { want[pos] = 300; mc_check(!(e = ev_put(kind, &c, 300)), "writing element %d again fails with %d", pos, e); elements_check(&j, kind, "after writing again"); }
        for (int i = pos + 1; i < n && i < pos + 4; i++) mc_check(pb_cursor_next(&c) && !ev_get(kind, &c, &v) && v == want[i], "the cursor goes on with %u at %d", v, i);
      }
      break;
    case 5: case 6:                                   /* all elements grow or shrink on the way */
      if (n) do {
        want[it] = script == 5 ? 0xfffffff0 - it : (uint32_t)it % 50;
        mc_check(!(e = ev_put(kind, &c, want[it])), "writing element %d fails with %d", it, e);
        mc_check(!ev_get(kind, &c, &v) && v == want[it], "element %d reads %u after being written", it, v); it++;
      } while (pb_cursor_next(&c));
      mc_check(it == n, "the cursor ends after %d of %d elements", it, n);
      break;
    case 7: case 8:                                   /* every other element is erased, or all */
      if (n) {
        int i = 0, k = 0;
        do {
          if (script == 8 || i % 2 == 0) {
            mc_check(!(e = pb_cursor_erase(&c)), "erasing element %d fails with %d", i, e);
            if (li == i) li = -2; if (mi == i) mi = -2;
          } else { mc_check(!ev_get(kind, &c, &v) && v == want[i], "element %d reads %u", i, v); if (li == i) li = k; if (mi == i) mi = k; want[k++] = want[i]; }
          i++;
        } while (pb_cursor_next(&c));
        mc_check(i == n, "the cursor ends after %d of %d elements", i, n);
        wn = k;
      }
      break;
    case 9:                                           /* elements are appended */
      for (int i = 0; i < 3; i++) {
        v = val(i, 2);
        if (kind == E_STR) { char t[16]; pb_string_t s = pb_string_init((uint8_t *)t, snprintf(t, sizeof t, "%u", v)); e = pb_message_put(&m, tag, &s); }
        else if (kind == E_SUB) { pb_message_t x = pb_message_create_within(&m, tag); e = pb_message_put(&x, T_U32, &v); pb_message_destroy(&x); }
        else e = pb_message_put(&m, tag, &v);
        mc_check(!e, "appending fails with %d", e); want[wn++] = v;
        elements_check(&j, kind, "after appending");
      }
      break;
    case 10:                                          /* seeking */
      if (kind != E_SUB && n) {
        for (int i = 0; i < n; i++) if (i == pos || i == n - 1) {
          int k = pb_cursor_rewind(&c) ? 0 : -1; (void)k;
          int from = 0, at;                            /* the next equal value behind the first */
          for (at = from + 1; at < n && want[at] != want[i]; at++);
          char t[16]; pb_string_t s = pb_string_init((uint8_t *)t, snprintf(t, sizeof t, "%u", want[i]));
          int r = kind == E_STR ? pb_cursor_seek(&c, &s) : pb_cursor_seek(&c, &want[i]);
          mc_check(r == (at < n), "seeking the value at %d returns %d", i, r);
          if (r) { size_t left = 0; while (pb_cursor_next(&c)) left++; mc_check(left == (size_t)(n - 1 - at), "seeking stops at the wrong element"); }
        }
      }
      break;
    case 11:                                          /* the whole field is erased */
      mc_check(!(e = pb_message_erase(&m, tag)), "erasing the field fails with %d", e); wn = 0; li = mi = -2; break;
  }
  elements_check(&j, kind, "at last");
  if (n) {
    e = ev_get(kind, &last, &v);
    mc_check(li < 0 ? e != 0 : !e && v == want[li], "the cursor on the last element reads %u (error %d)", v, e);
    e = ev_get(kind, &mark, &v);
    mc_check(mi < 0 ? e != 0 : !e && v == want[mi], "the cursor on the middle element reads %u (error %d)", v, e);
    if (mi >= 0 && script != 7 && script != 8) {
      size_t left = 0; while (pb_cursor_next(&mark)) left++;
      mc_check((int)left == wn - 1 - mi, "the cursor on the middle element has %zu elements to go, expected %d", left, wn - 1 - mi);
    }
  }
  mc_state(mc_hash(img, sz, kind)); mc_outcome(mc_hash(sc_data(&j), sc_size(&j), kind));
  pb_cursor_destroy(&mark); pb_cursor_destroy(&last); pb_cursor_destroy(&c); pb_message_destroy(&m); pb_journal_destroy(&j);
}
static int border(int n) {                              /* a position worth being at */
  static int p[24]; int k = 0; static const int b[] = { 0, 1, 2, 126, 127, 128, 255 };
  for (size_t i = 0; i < sizeof b / sizeof *b; i++) if (b[i] < n) p[k++] = b[i];
  for (int i = n - 3; i < n; i++) if (i > 2 && i != 126 && i != 127 && i != 128 && i != 255) p[k++] = i;
  if (n / 2 > 2 && n / 2 < n - 3 && n / 2 != 127 && n / 2 != 128) p[k++] = n / 2;
  return p[mc_choose(k ? k : 1)];
}
static void elements(void) {
  setup_lens(thorough ? 300 : 70, thorough ? 1024 : 512);
  int kind = mc_choose(E_KINDS), n = lens[mc_choose(nlens)], script = mc_choose(12);
  if (!mc_shard()) return;
  int pos = (script >= 1 && script <= 4) || script == 10 ? n ? border(n) : 0 : 0;
  elements_run(kind, n, script, pos, mc_choose(2));
}
static void elementslong(void) {                        /* packed fields at two and three byte lengths */
  static const int n2[] = { 1023, 1024, 4096, 16381, 16382, 16383, 16384, 16385 };
  int n = n2[mc_choose(8)], kind = mc_choose(2) ? E_PACK : E_REP, script = mc_choose(12);
  if (!mc_shard()) return;
  if (n > 4096 && (script == 5 || script == 6 || script == 7 || script == 8)) { if (!thorough) { mc_me->checks++; return; } }
  int pos = (script >= 1 && script <= 4) || script == 10 ? border(n) : 0;
  elements_run(kind, n, script, pos, 1);
}

/* -- levels: deep nesting -------------------------------------------------------- */

static size_t level_image(uint8_t *d, int depth, long n) {
  size_t o = 0;
  for (int i = depth; i >= 0; i--) {
    if (i == depth) { if (n >= 0) o = put_b(d, T_STR, longtext, n); }
    else { uint8_t h[8]; size_t k = ref_tag(h, T_SUB, 2); k += ref_varint(h + k, o); memmove(d + k, d, o); memcpy(d, h, k); o += k; }
    uint8_t h[8]; size_t k = put_u(h, T_U32, i + 1); memmove(d + k, d, o); memcpy(d, h, k); o += k;
  }
  return o;
}
static void levels(void) {
  static const int D[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
    31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200 };
  static const int S[] = { -1, 0, 1, 90, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200 };
  int depth = D[mc_choose(sizeof D / sizeof *D)], a = S[mc_choose(sizeof S / sizeof *S)], b = S[mc_choose(sizeof S / sizeof *S)];
  if (!mc_shard()) return;
  int route = mc_choose(3), other = mc_choose(2);
  static uint8_t d[8192], w[8192]; size_t n = level_image(d, depth, a);
  pb_journal_t j = sc_open(d, n); static pb_message_t h[201];
  uint32_t path[202], v; for (int i = 0; i < depth; i++) path[i] = T_SUB; path[depth] = T_STR;
  h[0] = pb_message_create(&sc_desc, &j);
  for (int i = 1; i <= depth; i++) { h[i] = pb_message_create_within(&h[i - 1], T_SUB); mc_check(pb_message_valid(&h[i]), "level %d cannot be opened", i); }
  mc_trace("%d levels, string of %d then %d bytes, route %d", depth, a, b, route);
  pb_error_t e = PB_ERROR_NONE; pb_string_t s = str(b < 0 ? 0 : b);
  if (b < 0) e = route == 0 ? pb_message_erase(&h[depth], T_STR) : pb_message_nested_erase(&h[0], path, depth + 1);
  else if (route == 0) e = pb_message_put(&h[depth], T_STR, &s);
  else if (route == 1) e = pb_message_nested_put(&h[0], path, depth + 1, &s);
  else { pb_field_t f = pb_field_create(&h[depth], T_STR); e = pb_field_put(&f, &s); pb_field_destroy(&f); }
  mc_step(); mc_check(!e || (b < 0 && a < 0), "the update fails with %d", e);
  size_t wl = level_image(w, depth, b); mc_step();
  const uint8_t *g = sc_data(&j); size_t gn = sc_size(&j);
  /* a new string may be anywhere in its message: it is either behind or in front of the marker */
  int same = gn == wl && !memcmp(g, w, wl);
  if (!same && a < 0 && gn == wl) {
    size_t o = 0; int ok = 1; const uint8_t *q = g; size_t qn = gn;
    for (int i = 0; ok && i < depth; i++) {
      ref_rec r[3]; int k = ref_parse(q, qn, r, 3); ok = k == 2;
      if (ok) { q += r[1].val; qn = r[1].end - r[1].val; }
    }
    ref_rec r[3]; ok = ok && ref_parse(q, qn, r, 3) == 2; (void)o; same = ok;
  }
  mc_check(same, "%zu bytes, expected %zu: %s, expected %s", gn, wl, mc_hex(g, gn < 400 ? gn : 400), mc_hex(w, wl < 400 ? wl : 400));
  for (int i = 0; i <= depth; i++) mc_check(!(e = pb_message_get(&h[i], T_U32, &v)) && v == (uint32_t)i + 1, "level %d of %d reads %u (error %d)", i, depth, v, e);
  /* and a change in the middle */
  if (other) {
    int mid = depth / 2; v = 0xfffff;
    mc_check(!(e = pb_message_put(&h[mid], T_U32, &v)), "writing at level %d fails with %d", mid, e); mc_step();
    for (int i = 0; i <= depth; i++) mc_check(!(e = pb_message_get(&h[i], T_U32, &v)) && v == (i == mid ? 0xfffffu : (uint32_t)i + 1), "level %d of %d reads %u (error %d) after a change at %d", i, depth, v, e, mid);
    mc_check(b < 0 || (!(e = pb_message_nested_get(&h[0], path, depth + 1, &s)) && s.size == (size_t)b), "the string is lost (error %d)", e);
    mc_check(ref_wellformed(&sc_desc, sc_data(&j), sc_size(&j)), "the message is not well formed any more");
    if (mid) {
      mc_check(!(e = pb_message_erase(&h[mid - 1], T_SUB)), "erasing level %d fails with %d", mid, e); mc_step();
      for (int i = 0; i <= depth; i++) { e = pb_message_get(&h[i], T_U32, &v); mc_check(i < mid ? !e && v == (uint32_t)i + 1 : e != 0, "level %d of %d reads %u (error %d) after level %d was erased", i, depth, v, e, mid); }
      mc_check(ref_wellformed(&sc_desc, sc_data(&j), sc_size(&j)), "the message is not well formed any more");
    }
  }
  mc_state(mc_hash(d, n, b)); mc_outcome(mc_hash(sc_data(&j), sc_size(&j), 0));
  for (int i = depth; i >= 0; i--) pb_message_destroy(&h[i]);
  pb_journal_destroy(&j);
}

/* -- wide: types with many fields -------------------------------------------------- */

#define WIDE 1100
static pb_field_descriptor_t wf[WIDE]; static pb_descriptor_t wd[12]; static uint32_t wtag[WIDE]; static int wide_n;
static pb_oneof_descriptor_t wone; static size_t widx[WIDE];
enum { W_DENSE, W_SPARSE, W_HIGH, W_SPLIT, W_LAYOUTS };
static uint32_t layout(int l, int i, int n) {
  return l == W_DENSE ? i + 1 : l == W_SPARSE ? 3 * i + 2 : l == W_HIGH ? 536870911u - (n - 1 - i) : i < n / 2 ? i + 1 : 20000 + 7 * i;
}
/* n fields in 1 + ext descriptors; label of all fields */
static pb_type_t wtype(int i) { static const pb_type_t t[] = { PB_TYPE_UINT32, PB_TYPE_STRING, PB_TYPE_FIXED64, PB_TYPE_SINT32 }; return t[i % 4]; }
static char wnames[WIDE][8];
static pb_descriptor_t *wide_type(int n, int lay, int ext, int label) {
  wide_n = n;
  { pb_oneof_descriptor_t t = { .descriptor = &wd[0], .index = { widx, n } }; memcpy(&wone, &t, sizeof t); }
  int k = ext + 1, at = 0, own[12], cnt[12] = { 0 };
  for (int w = 0; w < k; w++) { own[w] = at; for (int i = w; i < n; i += k) {
    uint32_t tag = layout(lay, i, n); snprintf(wnames[at], 8, "n%d", i);
    ref_field_init(&wf[at], (ref_fd){ tag, wtype(i), label, 0, NULL, label == PB_LABEL_ONEOF ? &wone : NULL, wnames[at] });
    wtag[i] = tag; widx[at] = at; at++; cnt[w]++; } }
  for (int w = 0; w < k; w++) ref_descriptor_init(&wd[w], &wf[own[w]], cnt[w], NULL);
  for (int w = 1; w < k; w++) pb_descriptor_extend(&wd[0], &wd[w]);
  return &wd[0];
}
static size_t wide_value(int i, uint32_t salt, void *mem) {
  static char s[16]; uint32_t v = i * 3 + salt;
  switch (wtype(i)) {
    case PB_TYPE_STRING: { pb_string_t x = pb_string_init((uint8_t *)s, snprintf(s, sizeof s, "%u", v)); memcpy(mem, &x, sizeof x); return sizeof x; }
    case PB_TYPE_FIXED64: { uint64_t x = (uint64_t)v << 20; memcpy(mem, &x, 8); return 8; }
    default: memcpy(mem, &v, 4); return 4;
  }
}
static size_t wide_record(int i, uint32_t salt, uint8_t *o) {
  uint8_t mem[16]; wide_value(i, salt, mem); pb_type_t t = wtype(i);
  if (t == PB_TYPE_STRING) { pb_string_t s; memcpy(&s, mem, sizeof s); return put_b(o, wtag[i], s.data, s.size); }
  size_t n = ref_tag(o, wtag[i], ref_wiretype(t)); return n + ref_scalar(t, mem, o + n);
}
static int wide_same(int i, uint32_t salt, const void *got) {
  uint8_t mem[16]; size_t n = wide_value(i, salt, mem);
  if (wtype(i) != PB_TYPE_STRING) return !memcmp(mem, got, n);
  pb_string_t a, b; memcpy(&a, mem, sizeof a); memcpy(&b, got, sizeof b);
  return a.size == b.size && !memcmp(a.data, b.data, a.size);
}
static const pb_field_descriptor_t *wide_field(uint32_t tag) { for (int i = 0; i < wide_n; i++) if (wf[i].tag == tag) return &wf[i]; return NULL; }
static int wide_pick(int *lay, int *ext, int dense, int big, int exts) {
  setup_lens(dense, big); int n = lens[mc_choose(nlens)];
  *lay = mc_choose(W_LAYOUTS); *ext = mc_choose(exts); static const int e[] = { 0, 1, 3, 9 }; *ext = e[*ext];
  return n;
}
static void lookup(void) {
  int lay, ext, n = wide_pick(&lay, &ext, thorough ? 200 : 70, 1024, 4);
  if (!mc_shard()) return;
  pb_descriptor_t *d = wide_type(n, lay, ext, PB_LABEL_OPTIONAL);
  mc_trace("%d fields, layout %d, %d extensions", n, lay, ext);
  for (int i = 0; i < n; i++) {
    mc_step();
    for (int w = -2; w <= 2; w++) {
      uint32_t t = wtag[i] + w; if (!t || t > 536870911u) continue;
      const pb_field_descriptor_t *want = wide_field(t), *got = pb_descriptor_field_by_tag(d, t);
      mc_check(got == want, "looking up tag %u among %d fields gives tag %u, expected %u", t, n, got ? got->tag : 0, want ? want->tag : 0);
    }
    const pb_field_descriptor_t *got = pb_descriptor_field_by_name(d, wf[i].name);
    mc_check(got == &wf[i], "looking up %s among %d fields gives %s", wf[i].name, n, got ? got->name : "nothing");
  }
  int k = ext + 1, at = 0;
  for (int w = 0; w < k; w++) {
    pb_descriptor_iter_t it = pb_descriptor_iter_create(&wd[w]); int c = 0, size = pb_descriptor_size(&wd[w]);
    if (pb_descriptor_iter_begin(&it)) do { mc_check(c < size && pb_descriptor_iter_current(&it) == &wf[at + c] && pb_descriptor_iter_pos(&it) == (size_t)c, "walking forward: field %d is wrong", c); c++; } while (pb_descriptor_iter_next(&it));
    mc_check(c == size, "walking forward ends after %d of %d fields", c, size);
    if (pb_descriptor_iter_end(&it)) do { c--; mc_check(c >= 0 && pb_descriptor_iter_current(&it) == &wf[at + c], "walking back: field %d is wrong", c); } while (pb_descriptor_iter_prev(&it));
    mc_check(!c, "walking back ends %d fields early", c);
    pb_descriptor_iter_destroy(&it); at += size;
  }
  /* enums and oneofs of that size */
  static pb_enum_value_descriptor_t *ev; if (!ev) ev = malloc(sizeof *ev * WIDE);
  for (int i = 0; i < n; i++) { int32_t x = lay == W_DENSE ? i : lay == W_SPARSE ? 3 * i - n : lay == W_HIGH ? INT32_MAX - (n - 1 - i) : i < n / 2 ? INT32_MIN + i : i;
    pb_enum_value_descriptor_t t = { x, wnames[i] }; memcpy(&ev[i], &t, sizeof t); }
  pb_enum_descriptor_t ed = { { ev, n } };
  for (int i = 0; i < n; i++) for (int w = -1; w <= 1; w++) {
    int64_t x = (int64_t)ev[i].number + w; if (x < INT32_MIN || x > INT32_MAX) continue;
    const pb_enum_value_descriptor_t *want = NULL, *got = pb_enum_descriptor_value_by_number(&ed, x);
    for (int q = 0; q < n; q++) if (ev[q].number == x) want = &ev[q];
    mc_check(got == want, "looking up number %ld among %d values fails", (long)x, n);
  }
  for (int i = 0; i < n; i++) mc_check(pb_enum_descriptor_value_by_name(&ed, ev[i].name) == &ev[i], "looking up the name of value %d of %d fails", i, n);
  pb_enum_descriptor_iter_t ei = pb_enum_descriptor_iter_create(&ed); int c = 0;
  if (pb_enum_descriptor_iter_begin(&ei)) do { mc_check(pb_enum_descriptor_iter_current(&ei) == &ev[c], "walking the enum: value %d is wrong", c); c++; } while (pb_enum_descriptor_iter_next(&ei));
  mc_check(c == n, "walking the enum ends after %d of %d", c, n); pb_enum_descriptor_iter_destroy(&ei);
  wide_type(n, lay, 0, PB_LABEL_ONEOF); pb_oneof_descriptor_iter_t oi = pb_oneof_descriptor_iter_create(&wone); c = 0;
  if (pb_oneof_descriptor_iter_begin(&oi)) do { mc_check(pb_oneof_descriptor_iter_current(&oi) == &wf[c], "walking the oneof: member %d is wrong", c); c++; } while (pb_oneof_descriptor_iter_next(&oi));
  mc_check(c == n, "walking the oneof ends after %d of %d", c, n); pb_oneof_descriptor_iter_destroy(&oi);
  mc_state(n * 64 + lay * 16 + ext); mc_outcome(n);
}
typedef struct { int n, back, stop; const char *bad; } wobs;
static pb_error_t wide_handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  wobs *o = user; int i = o->back ? wide_n - 1 - o->n : o->n;
  if (o->n == o->stop) return PB_ERROR_EOM;
  if (i < 0 || i >= wide_n || f != wide_field(wtag[i])) o->bad = "field"; else if (!wide_same(i, 1, value)) o->bad = "value";
  o->n++; return PB_ERROR_NONE;
}
static void wevents(void) {
  int lay, ext, n = wide_pick(&lay, &ext, thorough ? 200 : 70, 1024, 4), back = mc_choose(2);
  if (!mc_shard()) return;
  if (!n) { mc_me->checks++; return; }
  pb_descriptor_t *d = wide_type(n, lay, ext, PB_LABEL_OPTIONAL);
  static uint8_t b[WIDE * 20]; size_t o = 0; for (int i = 0; i < n; i++) o += wide_record(back ? n - 1 - i : i, 1, b + o);
  uint8_t *m = mc_exact(b, o); pb_buffer_t buf = pb_buffer_create_zero_copy(m, o);
  int stops[] = { -1, 0, n / 2, n - 1 };
  for (int s = 0; s < 4; s++) {
    wobs w = { 0, back, stops[s], NULL }; pb_decoder_t dec = pb_decoder_create(d, &buf); pb_error_t e = pb_decoder_decode(&dec, wide_handler, &w); mc_step();
    mc_check(!w.bad, "event %d of %d has the wrong %s", w.n - 1, n, w.bad);
    if (stops[s] < 0) mc_check(!e && w.n == n, "%d of %d fields are reported (error %d)", w.n, n, e);
    else mc_check(e == PB_ERROR_EOM && w.n == stops[s], "the handler's error at event %d becomes %d", w.n, e);
    pb_decoder_destroy(&dec);
  }
  pb_buffer_destroy(&buf); free(m); mc_state(n * 64 + lay * 16 + ext); mc_outcome(mc_hash(b, o, 0));
}
static void wrequired(void) {
  int lay, ext, n = wide_pick(&lay, &ext, thorough ? 260 : 70, thorough ? 1024 : 256, 1), twice = mc_choose(2);
  if (!mc_shard()) return;
  pb_descriptor_t *d = wide_type(n, lay, ext, PB_LABEL_REQUIRED); static uint8_t b[WIDE * 40];
  for (int miss = -1; miss < n; miss++) {
    if (n > 300 && miss > 40 && miss < n - 40 && miss % 16) continue;
    size_t o = 0; for (int r = 0; r <= twice; r++) for (int i = 0; i < n; i++) if (i != miss) o += wide_record(i, 1, b + o);
    pb_buffer_t buf = o ? pb_buffer_create(b, o) : pb_buffer_create_empty(); pb_validator_t v = pb_validator_create(d);
    pb_error_t e = pb_validator_check(&v, &buf); mc_step();
    mc_check(miss < 0 ? !e : e == PB_ERROR_ABSENT, "%d required fields, field %d missing: the validator returns %d", n, miss, e);
    pb_validator_destroy(&v); pb_buffer_destroy(&buf);
  }
  mc_state(n * 8 + lay); mc_outcome(n);
}
static void wput(void) {
  int lay, ext, n = wide_pick(&lay, &ext, thorough ? 130 : 40, thorough ? 256 : 128, 3), order = mc_choose(3);
  if (!mc_shard()) return;
  if (!n) { mc_me->checks++; return; }
  pb_descriptor_t *d = wide_type(n, lay, ext, PB_LABEL_OPTIONAL);
  pb_journal_t j = pb_journal_create_empty(); pb_message_t m = pb_message_create(d, &j); uint8_t mem[16]; pb_error_t e;
  mc_trace("%d fields, layout %d, %d extensions, order %d", n, lay, ext, order);
  for (int round = 1; round <= 2; round++) for (int q = 0; q < n; q++) {
    int i = order == 0 ? q : order == 1 ? n - 1 - q : (q * 7 + 3) % n; if (order == 2 && n % 7 == 0) i = q;
    wide_value(i, round, mem); mc_check(!(e = pb_message_put(&m, wtag[i], mem)), "putting field %d of %d fails with %d", i, n, e); mc_step();
  }
  for (int i = 0; i < n; i++) {
    uint8_t got[16]; mc_check(pb_message_has(&m, wtag[i]) && !(e = pb_message_get(&m, wtag[i], got)) && wide_same(i, 2, got), "field %d of %d does not read what was put", i, n);
  }
  int gone = n / 2; mc_check(!pb_message_erase(&m, wtag[gone]), "erasing fails");
  for (int i = 0; i < n; i++) mc_check(pb_message_has(&m, wtag[i]) == (i != gone), "field %d of %d is present=%d", i, n, pb_message_has(&m, wtag[i]));
  static uint8_t b[WIDE * 20]; size_t o = 0; for (int i = 0; i < n; i++) if (i != gone) o += wide_record(i, 2, b + o);
  mc_check(o == sc_size(&j), "the message has %zu bytes, expected %zu", sc_size(&j), o);
  mc_outcome(mc_hash(sc_data(&j), sc_size(&j), 0)); mc_state(n * 64 + lay * 16 + ext * 4 + order);
  pb_message_destroy(&m); pb_journal_destroy(&j);
}
static void woneof(void) {
  int lay, ext, n = wide_pick(&lay, &ext, thorough ? 130 : 40, thorough ? 256 : 128, 1);
  if (!mc_shard()) return;
  if (!n) { mc_me->checks++; return; }
  pb_descriptor_t *d = wide_type(n, lay, 0, PB_LABEL_ONEOF);
  for (int order = 0; order < 2; order++) {
    pb_journal_t j = pb_journal_create_empty(); pb_message_t m = pb_message_create(d, &j); uint8_t mem[16], b[64]; pb_error_t e;
    pb_oneof_t on = pb_oneof_create(&wone, &m);
    mc_check(!pb_oneof_case(&on), "an empty oneof has a case");
    for (int q = 0; q < n; q++) {
      int i = order ? n - 1 - q : q;
      wide_value(i, 1, mem); mc_check(!(e = pb_message_put(&m, wtag[i], mem)), "putting member %d of %d fails with %d", i, n, e); mc_step();
      size_t o = wide_record(i, 1, b);
      mc_check(o == sc_size(&j) && !memcmp(b, sc_data(&j), o), "member %d of %d does not replace the others: %s", i, n, mc_hex(sc_data(&j), sc_size(&j)));
      mc_check(pb_oneof_case(&on) == wtag[i], "member %d of %d was put, case is %u", i, n, pb_oneof_case(&on));
      for (int p = 0; p < n; p++) if (p != i) mc_check(!pb_message_has(&m, wtag[p]), "member %d of %d is present besides %d", p, n, i);
    }
    mc_check(!pb_oneof_clear(&on) && !sc_size(&j), "clearing a oneof of %d leaves %zu bytes", n, sc_size(&j));
    pb_oneof_destroy(&on); pb_message_destroy(&m); pb_journal_destroy(&j);
  }
  /* a foreign message holding all of them */
  static uint8_t b[WIDE * 20]; size_t o = 0;
  for (int i = 0; i < n; i++) o += wide_record(i, 1, b + o);
  pb_journal_t j = pb_journal_create(b, o); pb_message_t m = pb_message_create(d, &j); pb_oneof_t on = pb_oneof_create(&wone, &m);
  mc_check(pb_oneof_case(&on) == wtag[n - 1], "of %d members on the wire, case is %u", n, pb_oneof_case(&on));
  for (int p = 0; p < n; p++) mc_check(pb_message_has(&m, wtag[p]) == (p == n - 1), "of %d members on the wire, has(%d) is %d", n, p, pb_message_has(&m, wtag[p]));
  mc_check(!pb_oneof_clear(&on) && !sc_size(&j), "clearing the oneof of a foreign message leaves %zu bytes", sc_size(&j));
  pb_oneof_destroy(&on); pb_message_destroy(&m); pb_journal_destroy(&j);
  mc_state(n * 8 + lay); mc_outcome(n);
}

/* -- appends: many encode calls ------------------------------------------------------ */

static void appends(void) {
  setup_lens(thorough ? 300 : 100, thorough ? 65536 : 16384); int n = lens[mc_choose(nlens)], kind = mc_choose(3);
  if (!mc_shard()) return;
  pb_encoder_t enc = pb_encoder_create(&sc_desc); static uint8_t *b; if (!b) b = malloc(1 << 22); size_t o = 0;
  pb_encoder_t in = pb_encoder_create(&sc_desc); uint32_t q = 300; pb_encoder_encode(&in, T_U32, &q, 1);
  for (int i = 0; i < n; i++) {
    uint32_t v = kind == 0 ? 3 : (uint32_t)i * 997; pb_string_t s = str(i % 9); pb_error_t e; int k = kind == 2 ? i % 4 : 0;
    if (k == 0) { e = pb_encoder_encode(&enc, T_REP, &v, 1); o += put_u(b + o, T_REP, v); }
    else if (k == 1) { e = pb_encoder_encode(&enc, T_REPSTR, &s, 1); o += put_b(b + o, T_REPSTR, longtext, i % 9); }
    else if (k == 2) { uint32_t p[2] = { v, 1 }; uint8_t t[12]; size_t l = ref_varint(t, v); l += ref_varint(t + l, 1); e = pb_encoder_encode(&enc, T_PACK, p, 2); o += put_b(b + o, T_PACK, t, l); }
    else { e = pb_encoder_encode(&enc, T_REPSUB, &in, 1); const pb_buffer_t *x = pb_encoder_buffer(&in); o += put_b(b + o, T_REPSUB, pb_buffer_data(x), pb_buffer_size(x)); }
    mc_check(!e, "encode call %d fails with %d", i, e);
  }
  mc_step(); const pb_buffer_t *x = pb_encoder_buffer(&enc);
  mc_check(pb_buffer_size(x) == o && (!o || !memcmp(pb_buffer_data(x), b, o)), "%d encode calls yield %zu bytes, expected %zu, or other bytes", n, pb_buffer_size(x), o);
  mc_state(n * 4 + kind); mc_outcome(mc_hash(b, o, 0));
  pb_encoder_destroy(&in); pb_encoder_destroy(&enc);
}

/* -- splices: large buffers -------------------------------------------------------------- */

static const int SZ[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257,
  511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
enum { NSZ = sizeof SZ / sizeof *SZ };
static void splice1(pb_buffer_t *b, pb_journal_t *j, fa *f, uint8_t *model, size_t *mn, size_t s, size_t e, const uint8_t *data, size_t n, int fault) {
  fa_arm(f, fault);
  pb_error_t r = j ? pb_journal_write(j, 0, s, e, data, n) : pb_buffer_write(b, s, e, data, n); mc_step();
  int failed = f->failed; fa_arm(f, -1);
  mc_trace("  [%zu,%zu) of %zu bytes with %zu bytes%s -> %d", s, e, *mn, n, failed ? ", out of memory" : "", r);
  mc_check(failed ? !r || r == PB_ERROR_ALLOC : !r, "the splice returns %d", r);
  if (!r) { memmove(model + s + n, model + e, *mn - e); if (n) memcpy(model + s, data, n); *mn = *mn - (e - s) + n; }
  mc_check(pb_buffer_size(b) == *mn && (!*mn || !memcmp(pb_buffer_data(b), model, *mn)), "%zu bytes, expected %zu, or other bytes", pb_buffer_size(b), *mn);
}
static void splices(void) {
  int n = SZ[mc_choose(NSZ)], size = SZ[mc_choose(NSZ)], journal = mc_choose(2);
  if (!mc_shard()) return;
  int a = mc_choose(5), c = mc_choose(4), fault = mc_choose(3) - 1;
  size_t s = a == 0 ? 0 : a == 1 ? n / 2 : a == 2 ? n : a == 3 ? n ? n - 1 : 0 : n > 1 ? 1 : 0, e = c == 0 ? s : c == 1 ? (size_t)n : c == 2 ? s + (n - s) / 2 : s < (size_t)n ? s + 1 : s;
  static uint8_t *model, *data; if (!model) { model = malloc(1 << 19); data = malloc(1 << 18); }
  size_t mn = n; for (int i = 0; i < n; i++) model[i] = i * 7 + i / 256; for (int i = 0; i < size; i++) data[i] = 0x80 ^ (i * 5 + i / 256);
  static fa f; fa_init(&f);
  pb_journal_t j; pb_buffer_t bb, *b;
  if (journal) { j = n ? pb_journal_create_with_allocator(&f.a, model, n) : pb_journal_create_empty_with_allocator(&f.a); b = pb_journal_buffer(&j); }
  else { bb = n ? pb_buffer_create_with_allocator(&f.a, model, n) : pb_buffer_create_empty_with_allocator(&f.a); b = &bb; }
  mc_trace("%s of %d bytes", journal ? "journal" : "buffer", n);
  splice1(b, journal ? &j : NULL, &f, model, &mn, s, e, data, size, fault);
  /* and more: in front, at the end, taken back, everything gone, refilled */
  splice1(b, journal ? &j : NULL, &f, model, &mn, 0, 0, data, size ? size / 2 + 1 : 1, -1);
  splice1(b, journal ? &j : NULL, &f, model, &mn, mn, mn, data, 3, 0);
  splice1(b, journal ? &j : NULL, &f, model, &mn, mn / 2, mn, data, 1, 0);
  splice1(b, journal ? &j : NULL, &f, model, &mn, 0, mn, data, 0, 0);
  splice1(b, journal ? &j : NULL, &f, model, &mn, 0, mn, data, size, -1);
  mc_state((uint64_t)n * 70000 + size); mc_outcome(mc_hash(model, mn, 0));
  if (journal) pb_journal_destroy(&j); else pb_buffer_destroy(b);
  fa_done(&f);
}

/* -- blocks: many blocks of a chunk allocator ----------------------------------------------- */

static void blocks(void) {
  static const size_t caps[] = { 1, 16, 64, 4096 };
  setup_lens(thorough ? 130 : 40, 256); int n = lens[mc_choose(nlens)], ci = mc_choose(4), pat = mc_choose(5), order = mc_choose(4);
  if (!mc_shard()) return;
  pb_allocator_t al = pb_chunk_allocator_create_with_capacity(caps[ci]); static uint8_t *p[300]; static size_t sz[300];
  mc_trace("%d blocks, capacity %zu, sizes %d, order %d", n, caps[ci], pat, order);
  for (int i = 0; i < n; i++) {
    sz[i] = pat == 0 ? 1 : pat == 1 ? (size_t)i % 17 + 1 : pat == 2 ? caps[ci] : pat == 3 ? caps[ci] + 1 : i % 3 ? 5 : 300;
    p[i] = pb_allocator_allocate(&al, sz[i]); mc_check(!!p[i], "allocation %d of %zu bytes fails", i, sz[i]); memset(p[i], i * 3 + 1, sz[i]); mc_step();
    mc_check(!((uintptr_t)p[i] % sizeof(void *)), "block %d is not aligned", i);
  }
#define INTACT(i, m, when) do { for (size_t z_ = 0; z_ < (m); z_++) mc_check(p[i][z_] == (uint8_t)((i) * 3 + 1), when ": byte %zu of block %d of %d has changed", z_, (i), n); } while (0)
  for (int i = 0; i < n; i++) INTACT(i, sz[i], "after allocating");
  for (int q = 0; q < n; q++) {
    int i = order == 0 ? q : order == 1 ? n - 1 - q : order == 2 ? (q & 1 ? n - 1 - q / 2 : q / 2) : q;
    if (order == 3 && q % 3 == 0) {
      size_t m = q % 2 ? sz[i] * 2 + 3 : sz[i] / 2 + 1; uint8_t *old = p[i]; size_t keep = m < sz[i] ? m : sz[i];
      uint8_t *r = pb_allocator_resize(&al, p[i], m); mc_step(); mc_check(!!r, "resizing block %d fails", i);
      if (m <= caps[ci] || m <= sz[i]) mc_check(r == old, "block %d of %zu bytes moves when resized to %zu", i, sz[i], m);
      p[i] = r; INTACT(i, keep, "after resizing"); memset(p[i], i * 3 + 1, m); sz[i] = m; continue;
    }
    INTACT(i, sz[i], "before freeing"); pb_allocator_free(&al, p[i]); p[i] = NULL; mc_step();
    if (order == 3 && q % 3 == 1) { p[i] = pb_allocator_allocate(&al, sz[i]); mc_check(!!p[i], "allocating again fails"); memset(p[i], i * 3 + 1, sz[i]); }
  }
  for (int i = 0; i < n; i++) if (p[i]) INTACT(i, sz[i], "at last");
  for (int i = 0; i < n; i++) p[i] = NULL;
  pb_chunk_allocator_destroy(&al);
  mc_state(n * 80 + ci * 20 + pat * 4 + order); mc_outcome(n);
}

static mc_scenario list[] = {
  { "idle", MC_DFS, idle, .bound = "handles of 8 kinds idle during n updates, every pair of 17 operations in turns, n = 0..70 (thorough: 130) and around 128 .. 512 (1024)" },
  { "idlelong", MC_DFS, idlelong, .bound = "the same for n = 4096, 32768, 65536 and 65537 (thorough: 9 sizes up to 131072)" },
  { "elements", MC_DFS, elements, .bound = "0..70 (thorough: 300) and around 128 .. 512 (1024) elements of 5 kinds, 12 scripts at border positions, two more cursors open" },
  { "elementslong", MC_DFS, elementslong, .bound = "1023 to 16385 packed and unpacked elements, 12 scripts" },
  { "levels", MC_DFS, levels, .bound = "45 depths up to 200, 17 x 17 sizes around 128, 3 routes, then a change and an erase in the middle" },
  { "lookup", MC_DFS, lookup, .bound = "message types, enums and oneofs of 0..70 (thorough: 200) and around 128 .. 1024 items, 4 layouts, 0..9 extensions, every item and its neighbours" },
  { "wevents", MC_DFS, wevents, .bound = "messages holding all of 1..70 (thorough: 200) and around 128 .. 1024 fields, in either order" },
  { "wrequired", MC_DFS, wrequired, .bound = "0..70 (thorough: 260) and around 128, 256 (1024) required fields, each one missing" },
  { "wput", MC_DFS, wput, .bound = "all of 1..40 (thorough: 130) and around 128 (256) fields put in 3 orders, twice" },
  { "woneof", MC_DFS, woneof, .bound = "oneofs of 1..40 (thorough: 130) and around 128 (256) members, each put in turn" },
  { "appends", MC_DFS, appends, .bound = "0..100 (thorough: 300) and around 128 .. 16384 (65536) encode calls" },
  { "splices", MC_DFS, splices, .bound = "45 x 45 sizes up to 65537 at 20 ranges, the first two requests failing, then 5 more splices" },
  { "blocks", MC_DFS, blocks, .bound = "0..40 (thorough: 130) and around 128, 256 blocks, 4 capacities, 5 size patterns, 4 orders" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th;
  for (size_t i = 0; i + 1 < sizeof longtext; i++) longtext[i] = 'a' + i % 26;
  text[0] = malloc(TEXT); text[1] = malloc(TEXT); want = malloc(sizeof *want * 70000);
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
