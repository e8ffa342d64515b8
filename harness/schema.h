/*
 * schema.h - the message type the message-level drivers work on, with helpers
 * to name operations and to read everything through the public API.
 */
#ifndef SCHEMA_H
#define SCHEMA_H
#include "dom.h"
/* pb_cursor_create_unsafe / without_tag and pb_message_nested_* are what the
   repository's own tests and generated code use */
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/nested.h"
#include "message/oneof.h"

static uint32_t sc_def_u32 = 7;
static pb_string_t sc_def_str = { (uint8_t *)"dflt", 4 };
static uint64_t sc_def_u64 = 0x1122334455667788ull;

/* Tags */
enum { T_U32 = 1, T_STR = 2, T_REP = 3, T_PACK = 4, T_SUB = 5, T_REPSUB = 6,
  T_OA = 7, T_OB = 8, T_OC = 9, T_F64 = 11, T_PF32 = 12, T_SI = 13, T_ENUM = 14,
  T_BOOL = 15, T_F32 = 16, T_REPSTR = 17, T_UD = 18, T_SD = 19, T_RI64 = 20, T_BYTES = 21,
  T_PA = 22, T_PB = 23,
  T_XX = 2048, T_EXT = 4000, T_UNK = 100, T_UNK2 = 3 << 10 };

static pb_descriptor_t sc_desc, sc_ext;
static pb_oneof_descriptor_t *sc_oneof, *sc_oneof2;
static pb_field_descriptor_t sc_field[32], sc_extf[2];

static void sc_setup(void) {
  static const size_t idx[] = { 6, 7, 8 };
  static pb_oneof_descriptor_t one;
  pb_oneof_descriptor_t t = { .descriptor = &sc_desc, .index = { idx, 3 } };
  memcpy(&one, &t, sizeof t); sc_oneof = &one;
  static const size_t idx2[] = { 20, 21 };
  static pb_oneof_descriptor_t two;
  pb_oneof_descriptor_t t2 = { .descriptor = &sc_desc, .index = { idx2, 2 } };
  memcpy(&two, &t2, sizeof t2); sc_oneof2 = &two;
  ref_fd fd[] = {
    { T_U32, PB_TYPE_UINT32, PB_LABEL_OPTIONAL },
    { T_STR, PB_TYPE_STRING, PB_LABEL_OPTIONAL },
    { T_REP, PB_TYPE_UINT32, PB_LABEL_REPEATED },
    { T_PACK, PB_TYPE_UINT32, PB_LABEL_REPEATED, 1 },
    { T_SUB, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, &sc_desc },
    { T_REPSUB, PB_TYPE_MESSAGE, PB_LABEL_REPEATED, 0, &sc_desc },
    { T_OA, PB_TYPE_UINT32, PB_LABEL_ONEOF, 0, NULL, &one },
    { T_OB, PB_TYPE_STRING, PB_LABEL_ONEOF, 0, NULL, &one },
    { T_OC, PB_TYPE_MESSAGE, PB_LABEL_ONEOF, 0, &sc_desc, &one },
    { T_F64, PB_TYPE_FIXED64, PB_LABEL_OPTIONAL, 0, NULL, &sc_def_u64 },
    { T_PF32, PB_TYPE_FIXED32, PB_LABEL_REPEATED, 1 },
    { T_SI, PB_TYPE_SINT32, PB_LABEL_OPTIONAL },
    { T_ENUM, PB_TYPE_ENUM, PB_LABEL_OPTIONAL, 0, &ref_enum },
    { T_BOOL, PB_TYPE_BOOL, PB_LABEL_REQUIRED },
    { T_F32, PB_TYPE_FIXED32, PB_LABEL_OPTIONAL },
    { T_REPSTR, PB_TYPE_STRING, PB_LABEL_REPEATED },
    { T_UD, PB_TYPE_UINT32, PB_LABEL_OPTIONAL, 0, NULL, &sc_def_u32 },
    { T_SD, PB_TYPE_STRING, PB_LABEL_OPTIONAL, 0, NULL, &sc_def_str },
    { T_RI64, PB_TYPE_INT64, PB_LABEL_REPEATED },
    { T_BYTES, PB_TYPE_BYTES, PB_LABEL_OPTIONAL },
    { T_PA, PB_TYPE_UINT64, PB_LABEL_ONEOF, 0, NULL, &two },
    { T_PB, PB_TYPE_BYTES, PB_LABEL_ONEOF, 0, NULL, &two },
    { T_XX, PB_TYPE_UINT64, PB_LABEL_OPTIONAL },
  };
  size_t n = sizeof fd / sizeof *fd;
  for (size_t i = 0; i < n; i++) ref_field_init(&sc_field[i], fd[i]);
  ref_fd ex[] = { { T_EXT, PB_TYPE_UINT32, PB_LABEL_OPTIONAL } };
  ref_field_init(&sc_extf[0], ex[0]);
  ref_descriptor_init(&sc_ext, sc_extf, 1, NULL);
  ref_descriptor_init(&sc_desc, sc_field, n, &sc_ext);
}

/* -- building records ------------------------------------------------------ */

typedef struct sc_bytes { int n; uint8_t d[60]; const char *name; } sc_bytes;
__attribute__((unused)) static sc_bytes sc_rec(const char *hex, const char *name) {
  sc_bytes b = { .name = name };
  while (*hex) {
    if (*hex == ' ') { hex++; continue; }
    unsigned x; sscanf(hex, "%2x", &x); b.d[b.n++] = x; hex += 2;
  }
  return b;
}

/* -- values ---------------------------------------------------------------- */

/* In-memory value for the API, and its wire content */
typedef struct sc_value {
  pb_type_t type;
  union { uint32_t u32; uint64_t u64; uint8_t b; pb_string_t s; uint8_t raw[16]; } m;
  int vl; uint8_t v[300 < 10 ? 10 : 300];
} sc_value;
__attribute__((unused)) static sc_value sc_scalar(pb_type_t t, uint64_t x) {
  sc_value r; memset(&r, 0, sizeof r); r.type = t;
  if (ref_size(t) == 1) r.m.b = (uint8_t)x;
  else if (ref_size(t) == 4) r.m.u32 = (uint32_t)x;
  else r.m.u64 = x;
  r.vl = ref_scalar(t, &r.m, r.v);
  return r;
}
static uint8_t sc_text[1 << 16];
__attribute__((unused)) static void sc_value_str(sc_value *r, pb_type_t t, const uint8_t *d, int n) {
  memset(r, 0, sizeof *r); r->type = t;
  r->m.s.data = (uint8_t *)d; r->m.s.size = n;
  r->vl = n;
}
/* Wire content of a value (strings are kept by reference) */
static const uint8_t *sc_wire(const sc_value *v) {
  return v->type >= PB_TYPE_STRING ? v->m.s.data : v->v;
}

/* -- reference reads ------------------------------------------------------- */

/* Expected result of reading an occurrence node into memory. Returns 1 if the
   value decodes, 0 if reading must fail. */
static int sc_decode(const dn *x, void *mem) {
  pb_type_t t = x->f->type;
  if (ref_wiretype(t) == 2) {
    pb_string_t s = { (uint8_t *)x->v, x->vl };
    memcpy(mem, &s, sizeof s); return 1;
  }
  return ref_unscalar(t, x->v, x->vl, mem) == (size_t)x->vl;
}
static int sc_equal(pb_type_t t, const void *a, const void *b) {
  if (ref_wiretype(t) == 2) {
    const pb_string_t *x = a, *y = b;
    return x->size == y->size && (!x->size || !memcmp(x->data, y->data, x->size));
  }
  return !memcmp(a, b, ref_size(t));
}
static const char *sc_show(pb_type_t t, const void *a) {
  if (ref_wiretype(t) == 2) { const pb_string_t *s = a; return s->size > 300 ? "(long)" : mc_hex(s->data, s->size); }
  return mc_hex(a, ref_size(t));
}

/* -- the object under test ------------------------------------------------- */

static pb_journal_t sc_open(const uint8_t *d, size_t n) {
  return n ? pb_journal_create(d, n) : pb_journal_create_empty();
}
static const uint8_t *sc_data(pb_journal_t *j) { return pb_buffer_data(&j->buffer); }
static size_t sc_size(pb_journal_t *j) { return pb_buffer_size(&j->buffer); }

/* Reads everything below message node m through the API and compares */
static void sc_read_all(pb_message_t *msg, const dn *m, int depth, uint64_t *obs) {
  for (const pb_descriptor_t *ds = m->desc; ds; ds = ds->extension)
  for (size_t i = 0; i < ds->field.size; i++) {
    const pb_field_descriptor_t *f = &ds->field.data[i];
    pb_type_t t = f->type; uint32_t tag = f->tag;
    dn *x = dom_visible(m, tag);
    if (x && x->kind == D_PACK) {                /* packed: any live element */
      dn *o[1]; if (!dom_occ(m, tag, o, 1, 0)) x = NULL;
    }
    dn *occ[256]; int n = dom_occ(m, tag, occ, 256, 0);
    if (f->label == PB_LABEL_REPEATED) x = n ? occ[0] : NULL;
    int has = pb_message_has(msg, tag); mc_step();
    mc_check(has == !!x, "has(%u) = %d, the message %s it", tag, has, x ? "contains" : "does not contain");
    *obs = mc_mix(*obs ^ (has + 2 * tag));
    if (t != PB_TYPE_MESSAGE) {
      /* match: true for every occurrence's value, false for others */
      uint64_t want[2], got[2]; int ok = 0;
      if (x) ok = sc_decode(x, want);
      if (ok) {
        mc_check(pb_message_match(msg, tag, want), "match(%u) fails for the value it holds (%s)", tag, sc_show(t, want));
        mc_step();
        if (ref_wiretype(t) == 2) {
          pb_string_t *s = (pb_string_t *)want, o;
          uint8_t tmp[300]; size_t z = s->size;
          if (z < 290) {
            if (z) memcpy(tmp, s->data, z);
            tmp[z] = 'Z'; o.data = tmp; o.size = z + 1;
            int in = 0;
            for (int k = 0; k < n && f->label == PB_LABEL_REPEATED; k++) {
              pb_string_t y = { (uint8_t *)occ[k]->v, occ[k]->vl };
              in |= sc_equal(t, &y, &o);
            }
            mc_check(pb_message_match(msg, tag, &o) == in, "match(%u) holds for a longer string than stored", tag);
            if (z) {
              o.size = z - 1; in = 0;
              for (int k = 0; k < n && f->label == PB_LABEL_REPEATED; k++) {
                pb_string_t y = { (uint8_t *)occ[k]->v, occ[k]->vl };
                in |= sc_equal(t, &y, &o);
              }
              mc_check(pb_message_match(msg, tag, &o) == in, "match(%u) holds for a shorter string than stored", tag);
            }
          }
        } else {
          uint64_t other[2]; memcpy(other, want, sizeof other);
          ((uint8_t *)other)[0] ^= 0x55;
          int in = 0;
          for (int k = 0; k < n && f->label == PB_LABEL_REPEATED; k++) {
            uint64_t y[2];
            if (sc_decode(occ[k], y) && sc_equal(t, y, other)) in = 1;
          }
          mc_check(pb_message_match(msg, tag, other) == in, "match(%u) for %s should be %d", tag, sc_show(t, other), in);
        }
      } else if (!x) {
        uint64_t z[2] = { 0, 0 }; pb_string_t s = { (uint8_t *)"", 0 };
        mc_check(!pb_message_match(msg, tag, ref_wiretype(t) == 2 ? (void *)&s : (void *)z),
          "match(%u) holds for an absent field", tag);
      }
      if (f->label != PB_LABEL_REPEATED) {
        memset(got, 0xa5, sizeof got);
        pb_error_t e = pb_message_get(msg, tag, got); mc_step();
        const void *def = f->label == PB_LABEL_ONEOF ? NULL : f->value;
        if (x && ok) {
          mc_check(!e && sc_equal(t, got, want), "get(%u) = %s (error %d), stored %s", tag,
            e ? "-" : sc_show(t, got), e, sc_show(t, want));
        } else if (x) mc_check(e, "get(%u) succeeds on a garbled value", tag);
        else if (def) mc_check(!e && sc_equal(t, got, def), "get(%u) of an absent field: error %d, value %s, default %s",
          tag, e, e ? "-" : sc_show(t, got), sc_show(t, def));
        else mc_check(e == PB_ERROR_ABSENT, "get(%u) of an absent field returns %d", tag, e);
        *obs = mc_mix(*obs ^ e);
      }
    }
    /* cursor */
    if (f->label == PB_LABEL_REPEATED) {
      pb_cursor_t c = pb_cursor_create(msg, tag); int k = 0;
      if (pb_cursor_valid(&c)) do {
        mc_step();
        mc_check(k < n, "cursor on %u finds more than the %d occurrences", tag, n);
        mc_check(pb_cursor_tag(&c) == tag, "cursor on %u reports tag %u", tag, pb_cursor_tag(&c));
        mc_check(c.pos == (size_t)k, "cursor on %u reports position %zu at occurrence %d", tag, c.pos, k);
        if (t != PB_TYPE_MESSAGE) {
          uint64_t want[2], got[2]; int ok = sc_decode(occ[k], want);
          pb_error_t e = pb_cursor_get(&c, got);
          mc_check(ok ? !e && sc_equal(t, got, want) : !!e, "cursor on %u: occurrence %d reads %s (error %d), stored %s",
            tag, k, e ? "-" : sc_show(t, got), e, ok ? sc_show(t, want) : "garbled");
        } else {
          pb_message_t sub = pb_message_create_from_cursor(&c);
          mc_check(pb_message_valid(&sub), "cursor on %u: no submessage at occurrence %d", tag, k);
          if (depth) sc_read_all(&sub, occ[k], depth - 1, obs);
          pb_message_destroy(&sub);
        }
        k++;
      } while (pb_cursor_next(&c));
      mc_check(k == n, "cursor on %u ends after %d of %d occurrences", tag, k, n);
      mc_check(pb_cursor_error(&c) == PB_ERROR_EOM, "cursor on %u ends with error %d", tag, pb_cursor_error(&c));
      pb_cursor_destroy(&c);
    } else {
      pb_cursor_t c = pb_cursor_create(msg, tag);
      mc_check(pb_cursor_valid(&c) == !!x, "cursor on %u valid=%d, field %s", tag, pb_cursor_valid(&c), x ? "present" : "absent");
      if (x && t == PB_TYPE_MESSAGE) {
        pb_message_t sub = pb_message_create_from_cursor(&c);
        mc_check(pb_message_valid(&sub), "no submessage at %u", tag);
        if (depth) sc_read_all(&sub, x, depth - 1, obs);
        pb_message_destroy(&sub);
      }
      pb_cursor_destroy(&c);
    }
  }
  /* oneof */
  for (int g = 0; g < 2; g++) {
    pb_oneof_t o = pb_oneof_create(g ? sc_oneof2 : sc_oneof, msg);
    dn *a = dom_active(m, g ? sc_oneof2 : sc_oneof);
    pb_tag_t cs = pb_oneof_case(&o); mc_step();
    mc_check(cs == (a ? a->tag : 0), "oneof case is %u, active member %u", cs, a ? a->tag : 0);
    pb_oneof_destroy(&o);
  }
  /* every field in order */
  dn *occ[512]; int n = dom_occ(m, 0, occ, 512, 0), k = 0;
  pb_cursor_t c = pb_cursor_create_without_tag(msg);
  if (pb_cursor_valid(&c)) do {
    mc_check(k < n, "cursor over all fields finds more than %d", n);
    mc_check(pb_cursor_tag(&c) == occ[k]->tag, "cursor over all fields: %d is tag %u, expected %u", k, pb_cursor_tag(&c), occ[k]->tag);
    k++;
  } while (pb_cursor_next(&c));
  mc_check(k == n, "cursor over all fields ends after %d of %d", k, n);
  pb_cursor_destroy(&c);
}

/* Operation on a possibly nested field */
typedef struct sc_op {
  int what; uint32_t path[4]; int depth; uint32_t tag; sc_value v; const char *note;
  int plain;                        /* use nested functions even for depth 0 */
} sc_op;

static pb_error_t sc_run(pb_message_t *msg, const sc_op *o) {
  uint32_t tags[5]; memcpy(tags, o->path, sizeof o->path); tags[o->depth] = o->tag;
  const void *val = &o->v.m; pb_error_t e;
  pb_journal_t sj; pb_message_t sm; int sub = o->what == OP_PUT && o->v.type == PB_TYPE_MESSAGE;
  if (sub) {
    sj = sc_open(o->v.m.s.data, o->v.m.s.size);
    sm = pb_message_create(&sc_desc, &sj); val = &sm;
  }
  mc_step();
  if (o->what == OP_PUT)
    e = o->depth ? pb_message_nested_put(msg, tags, o->depth + 1, val) : pb_message_put(msg, o->tag, val);
  else if (o->what == OP_ERASE)
    e = o->depth ? pb_message_nested_erase(msg, tags, o->depth + 1) : pb_message_erase(msg, o->tag);
  else {
    pb_message_t s = o->depth ? pb_message_create_nested(msg, tags, o->depth + 1) : pb_message_create_within(msg, o->tag);
    e = pb_message_error(&s); pb_message_destroy(&s);
  }
  if (sub) {
    mc_check(pb_message_valid(&sm) && sc_size(&sj) == o->v.m.s.size &&
      (!o->v.m.s.size || !memcmp(sc_data(&sj), o->v.m.s.data, o->v.m.s.size)), "putting a submessage changed its source");
    pb_message_destroy(&sm); pb_journal_destroy(&sj);
  }
  return e;
}
static const char *sc_name(const sc_op *o) {
  static char b[200]; int n = sprintf(b, "%s ", o->what == OP_PUT ? "put" : o->what == OP_ERASE ? "erase" : "create");
  for (int i = 0; i < o->depth; i++) n += sprintf(b + n, "%u.", o->path[i]);
  n += sprintf(b + n, "%u", o->tag);
  if (o->what == OP_PUT) snprintf(b + n, sizeof b - n, " = %.80s", mc_hex(sc_wire(&o->v), o->v.vl));
  return b;
}
/* Runs o on the library and the model and compares */
static void sc_step(pb_journal_t *j, pb_message_t *msg, dn *root, dn *at, const sc_op *o) {
  static uint8_t before[1 << 17]; size_t bn = sc_size(j);
  if (bn) memcpy(before, sc_data(j), bn);
  mc_trace("%s", sc_name(o));
  pb_error_t e = sc_run(msg, o);
  mc_check(!e, "%s fails with error %d on %s", sc_name(o), e, mc_hex(before, bn));
  dom_op d = { .root = root, .after = sc_data(j), .after_size = sc_size(j), .path = o->path,
    .depth = o->depth, .what = o->what, .tag = o->tag, .v = sc_wire(&o->v), .vl = o->v.vl };
  mc_trace("  -> %s", mc_hex(sc_data(j), sc_size(j)));
  (void)at;
  mc_check(dom_apply(&d), "%s turns %s into %s, which is none of the results it may have", sc_name(o),
    mc_hex(before, bn), mc_hex(sc_data(j), sc_size(j)));
}

#endif
