/*
 * ref.h - reference model of the Protocol Buffers wire format and of the
 * semantics protobluff promises on top of it. Deliberately plain: byte at a
 * time, no tables shared with the library.
 */
#ifndef REF_H
#define REF_H

#include <protobluff/core.h>
#include <protobluff/descriptor.h>
#include <protobluff/message.h>
#include <protobluff/util.h>
#include "mc.h"

/* -- scalar types ---------------------------------------------------------- */

#define NTYPES 17                                  /* PB_TYPE_INT32 .. MESSAGE */

static const char *const ref_type_name[] = { "undefined", "int32", "int64",
  "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
  "sfixed64", "bool", "enum", "float", "double", "string", "bytes", "message" };

__attribute__((unused)) static int ref_wiretype(pb_type_t t) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_INT64: case PB_TYPE_UINT32:
    case PB_TYPE_UINT64: case PB_TYPE_SINT32: case PB_TYPE_SINT64:
    case PB_TYPE_BOOL: case PB_TYPE_ENUM: return 0;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return 2;
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return 5;
    default: return -1;
  }
}

/* Bytes a scalar occupies in memory */
__attribute__((unused)) static size_t ref_size(pb_type_t t) {
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_UINT32: case PB_TYPE_SINT32:
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_ENUM:
    case PB_TYPE_FLOAT: return 4;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64:
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 8;
    case PB_TYPE_BOOL: return 1;
    default: return sizeof(pb_string_t);
  }
}

__attribute__((unused)) static size_t ref_varint(uint8_t *out, uint64_t v) {
  size_t n = 0;
  do {
    uint8_t b = v % 128; v /= 128;
    out[n++] = v ? b + 128 : b;
  } while (v);
  return n;
}

/* Reads a varint of at most max bytes. Returns its length, or 0 if there is
   none within left bytes (truncated or too long). */
__attribute__((unused)) static size_t ref_unvarint(const uint8_t *d,
    size_t left, size_t max, uint64_t *v) {
  uint64_t r = 0;
  for (size_t i = 0; i < left && i < max; i++) {
    if (i < 10) r |= (uint64_t)(d[i] & 127) << (7 * i);
    if (!(d[i] & 128)) { *v = r; return i + 1; }
  }
  return 0;
}

/* Encodes the scalar at value (not strings); returns the length */
__attribute__((unused)) static size_t ref_scalar(pb_type_t t,
    const void *value, uint8_t *out) {
  int32_t i32; int64_t i64; uint32_t u32; uint64_t u64; uint8_t b;
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM:
      memcpy(&i32, value, 4); return ref_varint(out, (uint64_t)(int64_t)i32);
    case PB_TYPE_INT64:
      memcpy(&i64, value, 8); return ref_varint(out, (uint64_t)i64);
    case PB_TYPE_UINT32:
      memcpy(&u32, value, 4); return ref_varint(out, u32);
    case PB_TYPE_UINT64:
      memcpy(&u64, value, 8); return ref_varint(out, u64);
    case PB_TYPE_SINT32:
      memcpy(&i32, value, 4);
      u32 = i32 < 0 ? 2 * (uint32_t)(-(int64_t)i32) - 1 : 2 * (uint32_t)i32;
      return ref_varint(out, u32);
    case PB_TYPE_SINT64:
      memcpy(&i64, value, 8);
      u64 = i64 < 0 ? 2 * (uint64_t)(-(i64 + 1)) + 1 : 2 * (uint64_t)i64;
      return ref_varint(out, u64);
    case PB_TYPE_BOOL:
      memcpy(&b, value, 1); return ref_varint(out, b);
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT:
      memcpy(&u32, value, 4);
      for (int i = 0; i < 4; i++) out[i] = u32 >> (8 * i);
      return 4;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE:
      memcpy(&u64, value, 8);
      for (int i = 0; i < 8; i++) out[i] = u64 >> (8 * i);
      return 8;
    default: return 0;
  }
}

/* Decodes the scalar element at d; returns the bytes used, 0 if malformed */
__attribute__((unused)) static size_t ref_unscalar(pb_type_t t,
    const uint8_t *d, size_t left, void *value) {
  uint64_t v = 0; size_t n; uint32_t u32; uint8_t b;
  switch (t) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM: case PB_TYPE_UINT32:
      if (!(n = ref_unvarint(d, left, 10, &v))) return 0;
      u32 = (uint32_t)v; memcpy(value, &u32, 4); return n;
    case PB_TYPE_INT64: case PB_TYPE_UINT64:
      if (!(n = ref_unvarint(d, left, 10, &v))) return 0;
      memcpy(value, &v, 8); return n;
    case PB_TYPE_SINT32: {
      if (!(n = ref_unvarint(d, left, 10, &v))) return 0;
      uint32_t w = (uint32_t)v;
      int64_t s = w & 1 ? -(int64_t)(w / 2) - 1 : (int64_t)(w / 2);
      int32_t r = (int32_t)s; memcpy(value, &r, 4); return n;
    }
    case PB_TYPE_SINT64: {
      if (!(n = ref_unvarint(d, left, 10, &v))) return 0;
      int64_t r = v & 1 ? -(int64_t)(v / 2) - 1 : (int64_t)(v / 2);
      memcpy(value, &r, 8); return n;
    }
    case PB_TYPE_BOOL:
      if (!(n = ref_unvarint(d, left, 10, &v))) return 0;
      b = (uint8_t)v; memcpy(value, &b, 1); return n;
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT:
      if (left < 4) return 0;
      u32 = 0; for (int i = 3; i >= 0; i--) u32 = u32 << 8 | d[i];
      memcpy(value, &u32, 4); return 4;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE:
      if (left < 8) return 0;
      v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | d[i];
      memcpy(value, &v, 8); return 8;
    default: return 0;
  }
}

/* -- descriptors ----------------------------------------------------------- */

/* The library's descriptor structures have const members: build them in
   writable storage once and hand out const views. */
typedef struct ref_fd {
  pb_tag_t tag; pb_type_t type; pb_label_t label; int packed;
  const void *refer; const void *value; const char *name;
} ref_fd;

__attribute__((unused)) static void ref_field_init(pb_field_descriptor_t *f,
    ref_fd d) {
  static char names[4096][16]; static int k;
  if (!d.name) { k = (k + 1) % 4096; snprintf(names[k], 16, "f%u", d.tag); d.name = names[k]; }
  pb_field_descriptor_t t = { .tag = d.tag, .name = d.name, .type = d.type,
    .label = d.label, .refer = d.refer, .value = d.value,
    .flags = d.packed ? PB_FLAG_PACKED : 0 };
  memcpy(f, &t, sizeof t);
}
__attribute__((unused)) static void ref_descriptor_init(pb_descriptor_t *d,
    const pb_field_descriptor_t *f, size_t n, pb_descriptor_t *ext) {
  pb_descriptor_t t = { .field = { .data = f, .size = n }, .extension = ext };
  memcpy(d, &t, sizeof t);
}
__attribute__((unused)) static pb_descriptor_t *ref_descriptor(
    const ref_fd *fd, size_t n) {
  pb_field_descriptor_t *f = calloc(n ? n : 1, sizeof *f);
  for (size_t i = 0; i < n; i++) ref_field_init(&f[i], fd[i]);
  pb_descriptor_t *d = calloc(1, sizeof *d);
  ref_descriptor_init(d, f, n, NULL);
  return d;
}

/* Field lookup by plain scan, extensions included */
__attribute__((unused)) static const pb_field_descriptor_t *ref_lookup(
    const pb_descriptor_t *d, uint32_t tag) {
  for (; d; d = d->extension)
    for (size_t i = 0; i < d->field.size; i++)
      if (d->field.data[i].tag == tag) return &d->field.data[i];
  return NULL;
}

/* An enum that contains every value the drivers use */
static const pb_enum_value_descriptor_t ref_enum_values[] = {
  { 0, "E0" }, { 1, "E1" }, { 2, "E2" }, { 127, "E127" }, { 128, "E128" },
  { 300, "E300" }, { INT32_MAX, "EMAX" } };
static const pb_enum_descriptor_t ref_enum = {
  { ref_enum_values, sizeof ref_enum_values / sizeof *ref_enum_values } };

/* -- wire records ---------------------------------------------------------- */

typedef struct ref_rec {
  uint32_t tag; int wt;
  size_t start, val, end;       /* record start, value start (after any length
                                   prefix), record end */
} ref_rec;

/* Splits d into records. Returns their number, -1 if malformed, -2 if the
   array is too small. Groups and reserved wire types count as malformed. */
__attribute__((unused)) static int ref_parse(const uint8_t *d, size_t n,
    ref_rec *out, int max) {
  size_t o = 0; int k = 0;
  while (o < n) {
    uint64_t v; size_t s;
    if (k == max) return -2;
    ref_rec *r = &out[k];
    r->start = o;
    if (!(s = ref_unvarint(d + o, n - o, 5, &v))) return -1;
    o += s;
    r->wt = v & 7; r->tag = (uint32_t)(v >> 3);
    if (v >> 32 || !r->tag) return -1;
    r->val = o;
    switch (r->wt) {
      case 0:
        if (!(s = ref_unvarint(d + o, n - o, 10, &v))) return -1;
        o += s; break;
      case 1: if (n - o < 8) return -1; o += 8; break;
      case 5: if (n - o < 4) return -1; o += 4; break;
      case 2:
        if (!(s = ref_unvarint(d + o, n - o, 5, &v))) return -1;
        o += s;
        if (v > n - o) return -1;
        r->val = o; o += v; break;
      default: return -1;
    }
    r->end = o; k++;
  }
  return k;
}

/* Well-formed with respect to a descriptor: every record parses, submessages
   parse recursively, packed payloads split exactly, wire types match. */
__attribute__((unused)) static int ref_wellformed(const pb_descriptor_t *desc,
    const uint8_t *d, size_t n) {
  ref_rec *r = malloc(sizeof *r * (n / 2 + 2));
  int k = ref_parse(d, n, r, n / 2 + 2), ok = k >= 0;
  for (int i = 0; ok && i < k; i++) {
    const pb_field_descriptor_t *f = ref_lookup(desc, r[i].tag);
    if (!f) continue;
    int wt = ref_wiretype(f->type);
    if (f->type == PB_TYPE_MESSAGE) {
      ok = r[i].wt == 2 && ref_wellformed(f->refer, d + r[i].val, r[i].end - r[i].val);
    } else if (r[i].wt == wt) {
      uint64_t tmp;
      if (wt != 2) ok = ref_unscalar(f->type, d + r[i].val, r[i].end - r[i].val, &tmp) ==
        r[i].end - r[i].val;
    } else if (r[i].wt == 2 && f->label == PB_LABEL_REPEATED) {
      for (size_t o = r[i].val; ok && o < r[i].end; ) {
        uint64_t tmp; size_t s = ref_unscalar(f->type, d + o, r[i].end - o, &tmp);
        if (!s) ok = 0; o += s;
      }
    } else ok = 0;
  }
  free(r);
  return ok;
}

/* Appends a record header (tag, wire type) */
__attribute__((unused)) static size_t ref_tag(uint8_t *o, uint32_t tag, int wt) {
  return ref_varint(o, (uint64_t)tag << 3 | wt);
}

#endif
