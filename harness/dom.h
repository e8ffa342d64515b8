/*
 * dom.h - abstract model of a message: the tree of fields a wire image denotes,
 * with element identities that survive updates. Operations of the real library
 * are mirrored on the tree; where the API leaves a placement open, the model
 * enumerates the permitted results and the real bytes must equal one of them.
 */
#ifndef DOM_H
#define DOM_H
#include "ref.h"

enum { D_ROOT, D_SCALAR, D_STR, D_MSG, D_PACK, D_ELEM, D_UNK };

typedef struct dn {
  int id, kind, dead, mark;
  uint32_t tag;
  const pb_field_descriptor_t *f;
  const pb_descriptor_t *desc;                /* ROOT and MSG */
  int hl; uint8_t h[6];                       /* raw tag bytes */
  int ll; uint8_t l[10];                      /* raw length prefix, if it still applies */
  int vl; const uint8_t *v;                   /* raw value of a leaf */
  struct dn **kid; int nk, cap;
  struct dn *up;
} dn;

static int dom_raw;                           /* some prefix is not canonical */
static uint8_t dom_arena[32 << 20]; static size_t dom_used; static int dom_ids;
static void *dom_alloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (dom_used + n > sizeof dom_arena) { fprintf(stderr, "dom arena\n"); _exit(3); }
  void *p = dom_arena + dom_used; dom_used += n;
  memset(p, 0, n);
  return p;
}
__attribute__((unused)) static void dom_reset(void) { dom_used = 0; dom_ids = 0; dom_raw = 0; }

static dn *dom_node(int kind, dn *up) {
  dn *x = dom_alloc(sizeof *x);
  x->kind = kind; x->up = up; x->id = dom_ids++;
  return x;
}

/* -- undo trail ------------------------------------------------------------ */

typedef struct { int what; dn *x; int i; int vl; const uint8_t *v; } dom_undo;
static dom_undo dom_trail[65536]; static int dom_tn;
static dom_undo *dom_log(int what, dn *x) {
  if (dom_tn == 65536) { fprintf(stderr, "dom trail\n"); _exit(3); }
  dom_undo *u = &dom_trail[dom_tn++]; u->what = what; u->x = x; return u;
}
static void dom_insert(dn *p, int idx, dn *x) {
  if (p->nk == p->cap) {
    int cap = p->cap ? 2 * p->cap : 8;
    dn **k = dom_alloc(sizeof *k * cap);
    if (p->nk) memcpy(k, p->kid, sizeof *k * p->nk);
    p->kid = k; p->cap = cap;
  }
  memmove(p->kid + idx + 1, p->kid + idx, sizeof *p->kid * (p->nk - idx));
  p->kid[idx] = x; p->nk++; x->up = p;
  dom_log(0, p)->i = idx;
}
static void dom_kill(dn *x) {
  if (!x->dead) { x->dead = 1; dom_log(1, x); }
}
static void dom_value(dn *x, const uint8_t *v, int vl) {
  dom_undo *u = dom_log(2, x); u->v = x->v; u->vl = x->vl;
  uint8_t *c = dom_alloc(vl ? vl : 1);
  if (vl) memcpy(c, v, vl);
  x->v = c; x->vl = vl;
}
static void dom_back(int mark) {
  while (dom_tn > mark) {
    dom_undo *u = &dom_trail[--dom_tn]; dn *x = u->x;
    if (u->what == 0) {
      memmove(x->kid + u->i, x->kid + u->i + 1, sizeof *x->kid * (x->nk - u->i - 1));
      x->nk--;
    } else if (u->what == 1) x->dead = 0;
    else { x->v = u->v; x->vl = u->vl; }
  }
}

/* -- bytes ----------------------------------------------------------------- */

static int dom_fill(dn *x, const uint8_t *d, size_t n);
static dn *dom_record(dn *up, const pb_descriptor_t *desc, const uint8_t *d, ref_rec *r) {
  const pb_field_descriptor_t *f = ref_lookup(desc, r->tag);
  dn *x = dom_node(D_UNK, up);
  uint64_t t; int hl = ref_unvarint(d + r->start, r->end - r->start, 5, &t);
  x->tag = r->tag; x->f = f; x->hl = hl; memcpy(x->h, d + r->start, hl);
  if (f && r->wt == 2) {
    uint8_t t[10]; x->ll = r->val - r->start - hl; memcpy(x->l, d + r->start + hl, x->ll);
    if (x->ll != ref_varint(t, r->end - r->val)) dom_raw = 1;
  }
  const uint8_t *v = d + r->val; int vl = r->end - r->val;
  if (!f) { v = d + r->start + hl; vl = r->end - r->start - hl; }
  else if (r->wt == ref_wiretype(f->type))
    x->kind = r->wt != 2 ? D_SCALAR : f->type == PB_TYPE_MESSAGE ? D_MSG : D_STR;
  else if (r->wt == 2) x->kind = D_PACK;
  else return NULL;
  if (x->kind == D_MSG) {
    x->desc = f->refer;
    return dom_fill(x, v, vl) ? x : NULL;
  }
  if (x->kind == D_PACK) {
    for (int o = 0; o < vl; ) {
      uint64_t tmp; size_t s = ref_unscalar(f->type, v + o, vl - o, &tmp);
      if (!s) return NULL;
      dn *e = dom_node(D_ELEM, x);
      e->tag = x->tag; e->f = f;
      uint8_t *c = dom_alloc(s); memcpy(c, v + o, s); e->v = c; e->vl = s;
      dom_insert(x, x->nk, e);
      o += s;
    }
    return x;
  }
  uint8_t *c = dom_alloc(vl ? vl : 1);
  if (vl) memcpy(c, v, vl);
  x->v = c; x->vl = vl;
  return x;
}
static int dom_fill(dn *x, const uint8_t *d, size_t n) {
  int max = n > 100000 ? 5000 : n / 2 + 2;
  ref_rec *r = dom_alloc(sizeof *r * max);
  int k = ref_parse(d, n, r, max);
  if (k < 0) return 0;
  for (int i = 0; i < k; i++) {
    dn *y = dom_record(x, x->desc, d, &r[i]);
    if (!y) return 0;
    dom_insert(x, x->nk, y);
  }
  return 1;
}
__attribute__((unused)) static dn *dom_parse(const pb_descriptor_t *desc,
    const uint8_t *d, size_t n) {
  dn *x = dom_node(D_ROOT, NULL);
  x->desc = desc;
  int ok = dom_fill(x, d, n);
  dom_tn = 0;
  return ok ? x : NULL;
}

/* The length prefix: as found when the length still is what it says (a prefix
   need not be minimal), else the canonical one. Where an update changed the
   content without changing its size it may be either. */
static int dom_canon, dom_epoch; static size_t dom_content(const dn *x);
static int dom_prefix(const dn *x, size_t n, uint8_t *out) {
  uint64_t v;
  if (x->ll && ref_unvarint(x->l, x->ll, 5, &v) && v == n && !(dom_canon && x->mark == dom_epoch)) { memcpy(out, x->l, x->ll); return x->ll; }
  return ref_varint(out, n);
}
static size_t dom_size(const dn *x) {
  if (x->dead) return 0;
  size_t n = dom_content(x); uint8_t t[10];
  if (x->kind == D_STR || x->kind == D_MSG || x->kind == D_PACK) n += dom_prefix(x, n, t);
  return n + x->hl;
}
static size_t dom_content(const dn *x) {
  if (x->kind == D_ROOT || x->kind == D_MSG || x->kind == D_PACK) {
    size_t n = 0;
    for (int i = 0; i < x->nk; i++) n += dom_size(x->kid[i]);
    return n;
  }
  return x->vl;
}
static uint8_t *dom_write(const dn *x, uint8_t *o) {
  if (x->dead) return o;
  memcpy(o, x->h, x->hl); o += x->hl;
  if (x->kind == D_STR || x->kind == D_MSG || x->kind == D_PACK)
    o += dom_prefix(x, dom_content(x), o);
  if (x->kind == D_ROOT || x->kind == D_MSG || x->kind == D_PACK) {
    for (int i = 0; i < x->nk; i++) o = dom_write(x->kid[i], o);
    return o;
  }
  if (x->vl) memcpy(o, x->v, x->vl);
  return o + x->vl;
}
#ifndef DOM_BUF
#define DOM_BUF (1 << 18)
#endif
static uint8_t dom_buf[DOM_BUF];
static int dom_same1(const dn *root, const uint8_t *d, size_t n) {
  if (dom_size(root) != n) return 0;
  dom_write(root, dom_buf);
  return !n || !memcmp(dom_buf, d, n);
}
static int dom_same(const dn *root, const uint8_t *d, size_t n) {
  int ok = dom_same1(root, d, n);
  if (!dom_raw) return ok;
  dom_epoch++;                                /* what the update changed, and all around it */
  for (int i = 0; i < dom_tn; i++)
    for (dn *x = dom_trail[i].x; x; x = x->up) x->mark = dom_epoch;
  if (!ok) { dom_canon = 1; ok = dom_same1(root, d, n); }
  if (ok) for (int i = 0; i < dom_tn; i++)    /* prefixes that were rewritten stay so */
    for (dn *x = dom_trail[i].x; x; x = x->up) {
      uint64_t v;
      if (x->ll && (dom_canon || !ref_unvarint(x->l, x->ll, 5, &v) || v != dom_content(x))) x->ll = 0;
    }
  dom_canon = 0;
  return ok;
}
__attribute__((unused)) static int dom_alive(const dn *x) {
  for (; x; x = x->up) if (x->dead) return 0;
  return 1;
}

/* -- structure ------------------------------------------------------------- */

static const void *dom_group(const pb_field_descriptor_t *f) {
  return f && f->label == PB_LABEL_ONEOF ? f->value : NULL;
}
/* Last live record of a tag, hidden oneof members included */
static dn *dom_last(const dn *m, uint32_t tag) {
  for (int i = m->nk - 1; i >= 0; i--)
    if (!m->kid[i]->dead && m->kid[i]->tag == tag) return m->kid[i];
  return NULL;
}
static dn *dom_active(const dn *m, const void *group) {
  for (int i = m->nk - 1; i >= 0; i--)
    if (!m->kid[i]->dead && m->kid[i]->f && dom_group(m->kid[i]->f) == group)
      return m->kid[i];
  return NULL;
}
/* The visible record of a tag: what reads see. The last element if packed. */
__attribute__((unused)) static dn *dom_visible(const dn *m, uint32_t tag) {
  const pb_field_descriptor_t *f = ref_lookup(m->desc, tag);
  if (!f) return NULL;
  dn *x = dom_last(m, tag);
  if (x && dom_group(f) && dom_active(m, dom_group(f)) != x) return NULL;
  return x;
}
/* All live occurrences of a tag in order (tag 0: every known field), packed
   elements one by one. `dead` keeps tombstones too. */
static int dom_occ(const dn *m, uint32_t tag, dn **out, int max, int dead) {
  int n = 0;
  for (int i = 0; i < m->nk; i++) {
    dn *x = m->kid[i];
    if (!x->f || (tag && x->tag != tag)) continue;
    if (x->kind == D_PACK) {
      for (int j = 0; j < x->nk; j++)
        if (dead || (!x->dead && !x->kid[j]->dead)) { if (n < max) out[n] = x->kid[j]; n++; }
    } else if (dead || !x->dead) { if (n < max) out[n] = x; n++; }
  }
  return n;
}
__attribute__((unused)) static dn *dom_message_of(dn *x) {
  x = x->up;
  while (x && x->kind == D_PACK) x = x->up;
  return x;
}

/* -- operations ------------------------------------------------------------ */

/* A new record of field f holding v (content for length-delimited) */
static dn *dom_new(dn *m, const pb_field_descriptor_t *f, const uint8_t *v, int vl,
    int packed) {
  int wt = packed ? 2 : ref_wiretype(f->type);
  dn *x = dom_node(packed ? D_PACK : wt != 2 ? D_SCALAR :
    f->type == PB_TYPE_MESSAGE ? D_MSG : D_STR, m);
  x->tag = f->tag; x->f = f;
  x->hl = ref_tag(x->h, f->tag, wt);
  if (packed) {
    dn *e = dom_node(D_ELEM, x); e->tag = f->tag; e->f = f;
    dom_insert(x, 0, e); dom_value(e, v, vl);
  } else if (x->kind == D_MSG) {
    x->desc = f->refer;
    if (!dom_fill(x, v, vl)) { fprintf(stderr, "dom: bad submessage\n"); _exit(3); }
  } else dom_value(x, v, vl);
  return x;
}

/* Continuation: is there a permitted way to finish? */
typedef struct dom_op {
  dn *root; const uint8_t *after; size_t after_size;      /* the real result */
  const uint32_t *path; int depth;                        /* submessages */
  int what;                                               /* PUT/ERASE/TOUCH */
  uint32_t tag; const uint8_t *v; int vl;
  dn *hit;                                                /* touched node */
} dom_op;
enum { OP_PUT, OP_ERASE, OP_TOUCH };

static int dom_finish(dom_op *o, dn *hit) {
  if (!dom_same(o->root, o->after, o->after_size)) return 0;
  o->hit = hit;
  return 1;
}
static int dom_try(dom_op *o, dn *m, int depth);
static int dom_rest(dom_op *o, dn *x, int depth) {
  return depth < o->depth ? dom_try(o, x, depth + 1) : dom_finish(o, x);
}
/* Every way to keep or drop oneof members in front of position idx, with all
   members behind it (other than keep) dropped */
static int dom_drop(dom_op *o, dn *m, const void *g, int idx, dn *keep,
    int (*then)(dom_op *, dn *, int, int, const pb_field_descriptor_t *, dn *), int depth,
    const pb_field_descriptor_t *f) {
  int mark = dom_tn, pre[16], np = 0;
  if (g) for (int i = 0; i < m->nk; i++) {
    dn *x = m->kid[i];
    if (x->dead || x == keep || dom_group(x->f) != g || x->tag == f->tag) continue;
    if (i >= idx) dom_kill(x);
    else if (np < 16) pre[np++] = i;
  }
  for (int s = 0; s < 1 << np; s++) {
    int mk = dom_tn;
    for (int b = 0; b < np; b++) if (s >> b & 1) dom_kill(m->kid[pre[b]]);
    if (then(o, m, depth, idx, f, keep)) return 1;
    dom_back(mk);
  }
  dom_back(mark);
  return 0;
}
static int dom_then_new(dom_op *o, dn *m, int depth, int idx,
    const pb_field_descriptor_t *f, dn *keep) {
  int mark = dom_tn;
  (void)keep;
  dn *x = depth < o->depth || o->what == OP_TOUCH ? dom_new(m, f, NULL, 0, 0)
                                                  : dom_new(m, f, o->v, o->vl, 0);
  dom_insert(m, idx, x);
  if (dom_rest(o, x, depth)) return 1;
  dom_back(mark);
  return 0;
}
static void dom_replace(dn *x, const uint8_t *v, int vl) {
  if (x->kind == D_MSG) {
    int n = x->nk;
    for (int i = 0; i < n; i++) dom_kill(x->kid[i]);
    if (!dom_fill(x, v, vl)) { fprintf(stderr, "dom: bad submessage\n"); _exit(3); }
  } else dom_value(x, v, vl);
}
static int dom_then_old(dom_op *o, dn *m, int depth, int idx,
    const pb_field_descriptor_t *f, dn *x) {
  int mark = dom_tn;
  if (depth == o->depth && o->what == OP_PUT) dom_replace(x, o->v, o->vl);
  if (dom_rest(o, x, depth)) return 1;
  dom_back(mark);
  return 0;
}
static int dom_try(dom_op *o, dn *m, int depth) {
  int leaf = depth == o->depth, mark = dom_tn;
  uint32_t tag = leaf ? o->tag : o->path[depth];
  const pb_field_descriptor_t *f = ref_lookup(m->desc, tag);
  if (o->what == OP_ERASE) {
    if (!leaf) {
      dn *x = dom_visible(m, tag);
      return x ? dom_try(o, x, depth + 1) : dom_finish(o, NULL);
    }
    /* a packed record that loses all elements may stay as an empty one */
    dn *pk[12]; int np = 0, was = 0;                     /* was: empty before */
    for (int i = 0; i < m->nk; i++) {
      dn *x = m->kid[i];
      if (!x->f || !(x->tag == tag || (dom_group(f) && dom_group(x->f) == dom_group(f)))) continue;
      if (x->kind == D_PACK && !x->dead && np < 12) { if (!dom_content(x)) was |= 1 << np; pk[np++] = x; }
      if (x->kind == D_PACK) for (int j = 0; j < x->nk; j++) dom_kill(x->kid[j]);
      else dom_kill(x);
    }
    for (int t = (1 << np); t >= 0; t--) {
      int mk = dom_tn, s = t == 1 << np ? t - 1 - was : t;
      for (int b = 0; b < np; b++) if (s >> b & 1) dom_kill(pk[b]);
      if (dom_finish(o, NULL)) return 1;
      dom_back(mk);
    }
    dom_back(mark);
    return 0;
  }
  if (f->label == PB_LABEL_REPEATED) {
    int from = 0;
    for (int i = 0; i < m->nk; i++)
      if (m->kid[i]->tag == tag && !m->kid[i]->dead &&
          (m->kid[i]->kind != D_PACK || dom_content(m->kid[i]))) from = i + 1;
    if (ref_wiretype(f->type) != 2) {
      for (int i = m->nk - 1; i >= 0 && i >= from - 1; i--) {
        dn *p = m->kid[i];
        if (p->kind != D_PACK || p->dead || p->tag != tag) continue;
        dn *e = dom_node(D_ELEM, p); e->tag = tag; e->f = f;
        dom_insert(p, p->nk, e); dom_value(e, o->v, o->vl);
        if (dom_finish(o, e)) return 1;
        dom_back(mark);
      }
      for (int i = m->nk; i >= from; i--) {
        dn *x = dom_new(m, f, o->v, o->vl, 1);
        dom_insert(m, i, x);
        if (dom_finish(o, x->kid[0])) return 1;
        dom_back(mark);
      }
    }
    for (int i = m->nk; i >= from; i--) {
      if (dom_then_new(o, m, depth, i, f, NULL)) return 1;
      dom_back(mark);
    }
    return 0;
  }
  const void *g = dom_group(f);
  dn *x = dom_last(m, tag);
  if (x && g && dom_active(m, g) != x) {         /* superseded values never come back */
    for (int i = 0; i < m->nk; i++) if (m->kid[i]->tag == tag) dom_kill(m->kid[i]);
    x = NULL;
  }
  if (x) {
    int idx = 0; while (m->kid[idx] != x) idx++;
    return dom_drop(o, m, g, idx + 1, x, dom_then_old, depth, f);
  }
  mark = dom_tn;
  for (int i = m->nk; i >= 0; i--) {
    if (dom_drop(o, m, g, i, NULL, dom_then_new, depth, f)) return 1;
    dom_back(mark);
  }
  return 0;
}
/* Applies the operation to the tree so that it denotes the real result.
   Returns 0 if no permitted result does. */
__attribute__((unused)) static int dom_apply(dom_op *o) {
  int ok = dom_try(o, o->root, 0);
  dom_tn = 0;
  return ok;
}

/* Removes one occurrence (a record, or an element of a packed record) */
__attribute__((unused)) static int dom_erase_one(dn *root, dn *x,
    const uint8_t *after, size_t n) {
  int mark = dom_tn;
  dom_kill(x);
  if (dom_same(root, after, n)) { dom_tn = 0; return 1; }
  if (x->kind == D_ELEM && !dom_content(x->up)) {
    dom_kill(x->up);
    if (dom_same(root, after, n)) { dom_tn = 0; return 1; }
  }
  dom_back(mark);
  return 0;
}
__attribute__((unused)) static void dom_print(const dn *x, int ind) {
  static const char *k[] = { "root", "scalar", "string", "message", "packed", "element", "unknown" };
  mc_trace("%*s#%d %s tag=%u%s %s", ind, "", x->id, k[x->kind], x->tag, x->dead ? " DEAD" : "",
    x->vl ? mc_hex(x->v, x->vl) : "");
  for (int i = 0; i < x->nk; i++) dom_print(x->kid[i], ind + 2);
}

#endif
