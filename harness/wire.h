/*
 * wire.h - what decoding an arbitrary byte string has to produce.
 *
 * GOOD   the element has exactly one meaning
 * BAD    no reading exists (truncated, too long, value exceeds its type, a
 *        length beyond the end): decoding must end here with an error
 * LOOSE  the format leaves room (non-minimal integers, integers that 32-bit
 *        writers encode in several ways): an error or the value, both accepted
 * OPEN   anything may follow (wire type of a known field does not fit, tag
 *        zero, tag beyond 29 bits): comparison ends
 */
#ifndef WIRE_H
#define WIRE_H
#include "ref.h"

enum { W_GOOD, W_LOOSE, W_OPEN, W_BAD };

static int wi_varint(const uint8_t *d, size_t n, uint64_t *v, size_t *len) {
  *v = 0; *len = 0;
  for (size_t i = 0; i < n && i < 10; i++) {
    uint64_t b = d[i] & 127;
    if (i == 9 && b > 1) { if (!(d[i] & 128)) return W_BAD; }
    *v |= b << (7 * i);
    if (!(d[i] & 128)) {
      *len = i + 1;
      return i && !b ? W_LOOSE : W_GOOD;
    }
  }
  return W_BAD;
}
/* a value in the unsigned 32-bit range, such as a tag or a length */
static int wi_u32(const uint8_t *d, size_t n, uint32_t *v, size_t *len) {
  uint64_t x; int r = wi_varint(d, n, &x, len);
  *v = (uint32_t)x;
  if (r != W_BAD && x >> 32) return W_BAD;
  return r;
}
/* one scalar of type t */
static int wi_scalar(pb_type_t t, const uint8_t *d, size_t n, void *val, size_t *len) {
  uint64_t x; int r;
  switch (ref_wiretype(t)) {
    case 1: *len = 8; return n < 8 ? W_BAD : (memcpy(val, d, 8), W_GOOD);
    case 5: *len = 4; return n < 4 ? W_BAD : (memcpy(val, d, 4), W_GOOD);
  }
  r = wi_varint(d, n, &x, len);
  if (r == W_BAD) return r;
  if (!ref_unscalar(t, d, n, val)) return W_BAD;
  switch (t) {
    case PB_TYPE_BOOL:
      if (x > 255) return W_BAD;
      if (x > 1) return W_LOOSE;
      break;
    case PB_TYPE_UINT32: case PB_TYPE_SINT32: if (x >> 32) return W_BAD; break;
    case PB_TYPE_INT32: case PB_TYPE_ENUM:
      if ((int64_t)x < INT32_MIN || (int64_t)x > UINT32_MAX) return W_BAD;
      if ((int64_t)x > INT32_MAX) return W_LOOSE;
      break;
    default: break;
  }
  return r;
}

/* -- expected events ------------------------------------------------------- */

typedef struct wi_event {
  int depth, verdict; uint32_t tag; pb_type_t type; int open_sub;
  uint64_t val; const uint8_t *d; size_t n;        /* n, d: strings, submessages */
} wi_event;
enum { WI_MAX = 4096 };
typedef struct wi_list { int n, end; wi_event e[WI_MAX]; int over; size_t work; } wi_list;

/* Appends the events of d; the verdict of how it ends */
static int wi_decode(const pb_descriptor_t *desc, const uint8_t *d, size_t n, int depth, wi_list *l) {
  size_t o = 0;
  int loose = 0;
  while (o < n) {
    uint32_t key, len; size_t s; int r = wi_u32(d + o, n - o, &key, &s);
    l->work++;
    if (r == W_BAD) return W_BAD;
    if (r == W_LOOSE) return W_OPEN;
    o += s;
    uint32_t tag = key >> 3; int wt = key & 7;
    if (!tag) return W_OPEN;
    const pb_field_descriptor_t *f = ref_lookup(desc, tag);
    int want = f ? ref_wiretype(f->type) : -1;
    if (wt == 3 || wt == 4 || wt > 5) return f ? W_OPEN : W_BAD;
    if (f && wt != want && wt != 2) return W_OPEN;
    if (wt == 2) {
      r = wi_u32(d + o, n - o, &len, &s);
      if (r == W_BAD) return W_BAD;
      if (r == W_LOOSE) return W_OPEN;
      o += s;
      if (len > n - o) {
        /* packed: values in front of the fault may or may not be delivered */
        return W_BAD;
      }
    }
    if (!f) {
      uint64_t x;
      if (wt == 0) {
        if (wi_varint(d + o, n - o, &x, &s) == W_BAD) {
          /* too large for 64 bits: skipping it is as good */
          size_t k = 0; while (k < n - o && k < 10 && d[o + k] & 128) k++;
          return k < n - o && k < 10 ? W_OPEN : W_BAD;
        }
        o += s;
      } else if (wt == 2) o += len;
      else { s = wt == 1 ? 8 : 4; if (n - o < s) return W_BAD; o += s; }
      continue;
    }
    if (l->n >= WI_MAX - 1) { l->over = 1; return W_OPEN; }
    if (want == 2) {
      wi_event *e = &l->e[l->n++];
      *e = (wi_event){ .depth = depth, .tag = tag, .type = f->type, .d = d + o, .n = len };
      if (f->type == PB_TYPE_MESSAGE) {
        r = wi_decode(f->refer, d + o, len, depth + 1, l);
        if (r >= W_OPEN) return r;
        if (r == W_LOOSE) loose = 1;
      }
      o += len;
    } else {
      size_t end = wt == 2 ? o + len : n;
      do {
        if (wt == 2 && o == end) break;
        if (l->n >= WI_MAX - 1) { l->over = 1; return W_OPEN; }
        wi_event e = { .depth = depth, .tag = tag, .type = f->type };
        r = wi_scalar(f->type, d + o, end - o, &e.val, &s);
        if (r == W_BAD) return W_BAD;
        if (r == W_LOOSE) loose = 1;
        e.verdict = r;
        l->e[l->n++] = e;
        o += s;
      } while (wt == 2);
    }
  }
  return loose ? W_LOOSE : W_GOOD;
}
static int wi_expect(const pb_descriptor_t *desc, const uint8_t *d, size_t n, wi_list *l) {
  l->n = 0; l->over = 0; l->work = 0;
  return l->end = wi_decode(desc, d, n, 0, l);
}
/* All required fields present at every level (of a message that decodes) */
static int wi_complete(const pb_descriptor_t *desc, const uint8_t *d, size_t n) {
  static int dummy; (void)dummy;
  size_t o = 0; uint32_t key, len; size_t s; uint64_t x;
  uint8_t seen[64] = { 0 };
  while (o < n) {
    if (wi_u32(d + o, n - o, &key, &s) == W_BAD) return 0;
    o += s;
    const pb_field_descriptor_t *f = ref_lookup(desc, key >> 3);
    int packed_empty = 0;
    switch (key & 7) {
      case 0: if (wi_varint(d + o, n - o, &x, &s) == W_BAD) return 0; o += s; break;
      case 1: o += 8; break;
      case 5: o += 4; break;
      default:
        if (wi_u32(d + o, n - o, &len, &s) == W_BAD) return 0;
        o += s;
        if (f && f->type == PB_TYPE_MESSAGE && !wi_complete(f->refer, d + o, len)) return 0;
        if (f && ref_wiretype(f->type) != 2 && !len) packed_empty = 1;
        o += len;
    }
    if (f && !packed_empty && f >= desc->field.data && f < desc->field.data + desc->field.size)
      seen[f - desc->field.data] = 1;
  }
  for (size_t i = 0; i < desc->field.size; i++)
    if (desc->field.data[i].label == PB_LABEL_REQUIRED && !seen[i]) return 0;
  return 1;
}

/* -- observed events ------------------------------------------------------- */

typedef struct wi_obs { wi_list *l; int n, depth, stop_at, deny, bad; char why[300]; const uint8_t *lo, *hi; } wi_obs;

#define wi_bad(o, ...) do { if (!(o)->bad) { (o)->bad = 1; snprintf((o)->why, sizeof (o)->why, __VA_ARGS__); } return PB_ERROR_INVALID; } while (0)

static pb_error_t wi_handler(const pb_field_descriptor_t *f, const void *value, void *user) {
  wi_obs *o = user; mc_step();
  pb_tag_t tag = pb_field_descriptor_tag(f); pb_type_t t = pb_field_descriptor_type(f);
  if (o->deny) wi_bad(o, "handler called again after it had returned an error");
  int i = o->n++;
  if (ref_wiretype(t) == 2 && t != PB_TYPE_MESSAGE) {
    const pb_string_t *s = value;
    /* must be safe to look at, whatever the input */
    if (s->size && (s->data < o->lo || s->data + s->size > o->hi || s->data + s->size < s->data))
      wi_bad(o, "string of tag %u lies outside the input", tag);
    volatile uint8_t sum = 0; for (size_t k = 0; k < s->size; k++) sum += s->data[k];
  }
  if (i < o->l->n) {
    wi_event *e = &o->l->e[i];
    if (e->tag != tag || e->type != t || e->depth != o->depth)
      wi_bad(o, "value %d is tag %u at depth %d, expected tag %u at depth %d", i, tag, o->depth, e->tag, e->depth);
    if (t == PB_TYPE_MESSAGE) {
      const pb_buffer_t *b = pb_decoder_buffer(value);
      if (pb_buffer_size(b) != e->n || (e->n && memcmp(pb_buffer_data(b), e->d, e->n)))
        wi_bad(o, "submessage %u holds %zu bytes, expected %zu", tag, pb_buffer_size(b), e->n);
    } else if (ref_wiretype(t) == 2) {
      const pb_string_t *s = value;
      if (s->size != e->n || (e->n && memcmp(s->data, e->d, e->n)))
        wi_bad(o, "string of tag %u has %zu bytes, expected %zu", tag, s->size, e->n);
    } else if (t == PB_TYPE_BOOL && e->verdict == W_LOOSE) {
      if (!*(const uint8_t *)value != !e->val) wi_bad(o, "bool of tag %u is %d, encoded %d", tag, *(const uint8_t *)value, (int)e->val);
    } else if (memcmp(value, &e->val, ref_size(t)))
      wi_bad(o, "tag %u yields %s, encoded %s", tag, mc_hex(value, ref_size(t)), mc_hex(&e->val, ref_size(t)));
  } else if (o->l->end != W_OPEN) wi_bad(o, "value %d (tag %u) delivered, only %d are encoded", i, tag, o->l->n);
  if (i == o->stop_at) { o->deny = 1; return PB_ERROR_EOM; }
  if (t == PB_TYPE_MESSAGE && o->depth < 1200) {
    o->depth++;
    pb_error_t e = pb_decoder_decode(value, wi_handler, user);
    o->depth--;
    return e;
  }
  return PB_ERROR_NONE;
}
#endif
