/* Every type, label, default and tag size: what a field reads as while it is
   absent, after it was written, erased, or opened; at several depths and with
   neighbours on either side. */
#include "schema.h"

static pb_oneof_descriptor_t *grp;
static pb_descriptor_t *D; static const pb_field_descriptor_t *X; static uint32_t tag, sub_tag; static int depth, thorough;
static uint8_t text[200];

/* value i of type t; the last one returns its count through n */
static sc_value value(pb_type_t t, int i, int *n) {
  static const uint64_t num[] = { 0, 1, 0x7f, 0x80, 0xffffffffffffffffull, 0x8000000080000000ull, 0x3fff, 0x4000 };
  static const uint64_t en[] = { 0, 127, 128, 300, 0x7fffffff, 1, 2 };
  sc_value v;
  if (t == PB_TYPE_BOOL) { *n = 2; return sc_scalar(t, i); }
  if (t == PB_TYPE_ENUM) { *n = 5; return sc_scalar(t, en[i]); }
  if (t >= PB_TYPE_STRING) {
    static const int len[] = { 0, 1, 127, 128, 5 };
    *n = 5; sc_value_str(&v, t, text + i, len[i]); return v;
  }
  *n = 6;
  if (ref_size(t) == 4) return sc_scalar(t, i == 5 ? 0x80000000u : num[i]);
  return sc_scalar(t, i == 5 ? 1ull << 63 : num[i]);
}

static pb_journal_t J; static dn *root;
static uint8_t before[1 << 12]; static size_t bn;
static void snapshot(void) { bn = sc_size(&J); if (bn) memcpy(before, sc_data(&J), bn); }
static int unchanged(void) { return sc_size(&J) == bn && (!bn || !memcmp(sc_data(&J), before, bn)); }
static uint32_t path[4];
static dn *home(void) { dn *m = root; for (int i = 0; m && i < depth; i++) m = dom_visible(m, sub_tag); return m; }

static void look(pb_message_t *msg, const char *when) {
  dn *m = home(), *x = NULL, *occ[8]; int n = 0; uint64_t a[2], g[2]; pb_type_t t = X->type;
  if (m) {
    n = dom_occ(m, tag, occ, 8, 0);
    x = X->label == PB_LABEL_REPEATED ? (n ? occ[0] : NULL) : dom_visible(m, tag);
  }
  const void *def = X->label == PB_LABEL_ONEOF ? NULL : X->value;
  path[depth] = tag; mc_step();
  int has = depth ? pb_message_nested_has(msg, path, depth + 1) : pb_message_has(msg, tag);
  mc_check(has == !!x, "%s: has says %d, the field is %s", when, has, x ? "present" : "absent");
  if (X->label != PB_LABEL_REPEATED) {
    memset(g, 0x5a, sizeof g);
    pb_error_t e = depth ? pb_message_nested_get(msg, path, depth + 1, g) : pb_message_get(msg, tag, g);
    if (x) {
      mc_check(sc_decode(x, a), "reference");
      mc_check(!e && sc_equal(t, a, g), "%s: %s reads %s (error %d), holds %s", when, ref_type_name[t], e ? "-" : sc_show(t, g), e, sc_show(t, a));
      if (ref_wiretype(t) != 2) { uint8_t *b = (uint8_t *)g + ref_size(t);
        mc_check(b[0] == 0x5a && b[1] == 0x5a, "%s: reading a %s writes beyond it", when, ref_type_name[t]); }
    } else if (def && (m || !e)) mc_check(!e && sc_equal(t, g, def), "%s: absent %s reads %s (error %d), the default is %s", when, ref_type_name[t], e ? "-" : sc_show(t, g), e, sc_show(t, def));
    else mc_check(e == PB_ERROR_ABSENT, "%s: reading an absent %s returns %d", when, ref_type_name[t], e);
  }
  int nv; value(t, 0, &nv);
  for (int i = 0; i < nv; i++) {
    sc_value v = value(t, i, &nv); int in = 0;
    for (int k = 0; k < n; k++)
      if ((X->label == PB_LABEL_REPEATED || occ[k] == x) && sc_decode(occ[k], a) && sc_equal(t, a, &v.m)) in = 1;
    int r = depth ? pb_message_nested_match(msg, path, depth + 1, &v.m) : pb_message_match(msg, tag, &v.m);
    mc_check(r == in, "%s: match(%s) says %d, should say %d", when, sc_show(t, &v.m), r, in);
  }
  if (X->label == PB_LABEL_REPEATED && m) {
    pb_message_t s = !depth ? pb_message_copy(msg) : depth == 1 ? pb_message_create_within(msg, sub_tag) : pb_message_create_nested(msg, path, depth);
    pb_cursor_t c = pb_cursor_create(&s, tag); int k = 0;
    if (pb_cursor_valid(&c)) do {
      mc_check(k < n && sc_decode(occ[k], a), "%s: cursor finds more than %d", when, n);
      pb_error_t e = pb_cursor_get(&c, g);
      mc_check(!e && sc_equal(t, a, g), "%s: cursor reads %s (error %d), holds %s", when, e ? "-" : sc_show(t, g), e, sc_show(t, a));
      k++;
    } while (pb_cursor_next(&c));
    mc_check(k == n && pb_cursor_error(&c) == PB_ERROR_EOM, "%s: cursor ends after %d of %d", when, k, n);
    pb_cursor_destroy(&c); pb_message_destroy(&s);
  }
  mc_check(unchanged(), "%s: reading changed the message", when);
}

static size_t wrap(uint8_t *d, size_t n) {
  uint8_t t[2048]; size_t o = ref_tag(t, sub_tag, 2);
  o += ref_varint(t + o, n); memcpy(t + o, d, n); o += n;
  memcpy(d, t, o); return o;
}
static const uint32_t tags[] = { 5, 16, 2048, 536870911, 15, 2047, 262143, 262144, 33554431, 33554432 };
static void types(void) {
  pb_type_t t = PB_TYPE_INT32 + mc_choose(16);
  static const pb_label_t labels[] = { PB_LABEL_OPTIONAL, PB_LABEL_REQUIRED, PB_LABEL_ONEOF, PB_LABEL_REPEATED, PB_LABEL_REPEATED };
  int l = mc_choose(ref_wiretype(t) == 2 ? 4 : 5), ndef, nv; pb_label_t label = labels[l];
  value(t, 0, &nv); ndef = l < 2 ? nv + 1 : 1;
  int def = mc_choose(ndef) - 1;
  if (def > 0 && def < nv - 1 && !thorough && def != 2) return;
  tag = tags[mc_choose(t == PB_TYPE_UINT32 || t == PB_TYPE_STRING ? 10 : 4)];
  depth = mc_choose(thorough ? 4 : 3);
  if (!thorough && depth && tag != 5 && (tag != 2048 || depth > 1)) return;
  int pre = mc_choose(2), post = mc_choose(2), had = mc_choose(nv + 1) - 1;
  if (!mc_shard()) return;
  /* schema */
  dom_reset(); dom_tn = 0;
  sc_value dv; const void *dp = NULL; static pb_string_t ds; static uint64_t dn64;
  if (def >= 0) { dv = value(t, def, &nv); if (t >= PB_TYPE_STRING) { ds = dv.m.s; dp = &ds; } else { memcpy(&dn64, dv.m.raw, 8); dp = &dn64; } }
  static pb_descriptor_t desc; static pb_field_descriptor_t fd[6]; D = &desc;
  sub_tag = tag == 16 ? 3 : 30;
  ref_fd all[] = { { 1, PB_TYPE_UINT32, PB_LABEL_OPTIONAL }, { 2, PB_TYPE_UINT32, PB_LABEL_ONEOF, 0, NULL, grp }, { 9, PB_TYPE_STRING, PB_LABEL_OPTIONAL },
    { sub_tag, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, 0, D }, { tag, t, label, l == 4, t == PB_TYPE_ENUM ? &ref_enum : NULL, l == 2 ? grp : dp } };
  int order[5] = { 0, 1, 2, 3, 4 };
  for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) if (all[order[j]].tag < all[order[i]].tag) { int s = order[i]; order[i] = order[j]; order[j] = s; }
  static size_t idx[2]; int ni = 0;
  for (int i = 0; i < 5; i++) {
    ref_field_init(&fd[i], all[order[i]]);
    if (all[order[i]].label == PB_LABEL_ONEOF) idx[ni++] = i;
    if (order[i] == 4) X = &fd[i];
  }
  ref_descriptor_init(D, fd, 5, NULL);
  pb_oneof_descriptor_t gi = { .descriptor = D, .index = { idx, ni } }; memcpy((void *)grp, &gi, sizeof gi);
  /* image */
  uint8_t img[2048]; size_t n = 0;
  if (pre) { n += ref_tag(img + n, 1, 0); img[n++] = 7; }
  if (had >= 0) {
    sc_value v = value(t, had, &nv);
    n += ref_tag(img + n, tag, l == 4 ? 2 : ref_wiretype(t));
    if (l == 4 || t >= PB_TYPE_STRING) n += ref_varint(img + n, v.vl);
    memcpy(img + n, sc_wire(&v), v.vl); n += v.vl;
  }
  if (post) { memcpy(img + n, "\x4a\x01k", 3); n += 3; }
  int real = depth;
  if (n || mc_thorough) for (int i = 0; i < depth; i++) n = wrap(img, n);
  for (int i = 0; i < depth; i++) path[i] = sub_tag;
  int ops = 2 * nv + 6, a = mc_choose(ops), b = mc_choose(ops);
  root = dom_parse(D, img, n);
  if (!root || !dom_same(root, img, n)) { fprintf(stderr, "bad image %s\n", mc_hex(img, n)); _exit(3); }
  J = sc_open(img, n);
  pb_message_t msg = pb_message_create(D, &J);
  mc_trace("%s tag %u label %d default %d depth %d: %s", ref_type_name[t], tag, label, def, real, mc_hex(img, n));
  snapshot();
  if (!a && !b) look(&msg, "at first");
  for (int s = 0; s < 2; s++) {
    int k = s ? b : a, what = OP_PUT; sc_value v; pb_error_t e; char note[60]; memset(&v, 0, sizeof v);
    snapshot(); mc_step();
    path[depth] = tag;
    if (k < nv) {                                        /* put */
      v = value(t, k, &nv); sprintf(note, "after putting value %d", k);
      e = depth ? pb_message_nested_put(&msg, path, depth + 1, &v.m) : pb_message_put(&msg, tag, &v.m);
    } else if (k == nv) {                                /* erase */
      what = OP_ERASE; sprintf(note, "after erasing");
      e = depth ? pb_message_nested_erase(&msg, path, depth + 1) : pb_message_erase(&msg, tag);
    } else if (k < 2 * nv + 2) {                         /* field, then perhaps put */
      dn *m = home(), *x = m && label != PB_LABEL_REPEATED ? dom_visible(m, tag) : NULL;
      sprintf(note, "after creating a field");
      pb_field_t f = depth ? pb_field_create_nested(&msg, path, depth + 1) : pb_field_create(&msg, tag);
      mc_check(pb_field_valid(&f), "%s: it is invalid", note);
      if (x) mc_check(unchanged(), "opening a field that is there changed %s into %s", mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
      else {
        static uint64_t zero[2]; const void *dd = label == PB_LABEL_REPEATED || !dp ? (void *)zero : dp;
        sc_value w; memset(&w, 0, sizeof w); w.type = t;
        if (t >= PB_TYPE_STRING) { pb_string_t st = { (uint8_t *)"", 0 }; if (dp && label != PB_LABEL_REPEATED) memcpy(&st, dp, sizeof st); sc_value_str(&w, t, st.data, st.size); }
        else { memcpy(w.m.raw, dd, ref_size(t)); w.vl = ref_scalar(t, w.m.raw, w.v); }
        dom_op o = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = path, .depth = depth, .what = OP_PUT, .tag = tag, .v = sc_wire(&w), .vl = w.vl };
        mc_check(dom_apply(&o), "creating a field turns %s into %s", mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
        x = o.hit;
      }
      uint64_t want[2], got[2];
      mc_check(sc_decode(x, want) && !pb_field_get(&f, got) && sc_equal(t, want, got) && pb_field_match(&f, want), "%s: it does not read as its value or default", note);
      if (k > nv + 1) {
        v = value(t, k - nv - 2, &nv); sprintf(note, "after writing value %d to a field", k - nv - 2);
        mc_check(!pb_field_put(&f, &v.m), "%s: it fails", note);
        dom_value(x, sc_wire(&v), v.vl); dom_tn = 0;
        mc_check(dom_same(root, sc_data(&J), sc_size(&J)), "%s: %s became %s", note, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
        mc_check(!pb_field_get(&f, got) && sc_equal(t, &v.m, got), "%s: it reads differently", note);
      }
      pb_field_destroy(&f);
      snapshot(); look(&msg, note); continue;
    } else if (k < 2 * nv + 4) {                         /* the neighbours change */
      uint32_t u = 300; pb_string_t st = { (uint8_t *)"neighbour", 9 }; int w = k - 2 * nv - 2;
      path[depth] = w ? 9 : 1; sprintf(note, "after writing a neighbour");
      v = w ? ({ sc_value z; sc_value_str(&z, PB_TYPE_STRING, st.data, 9); z; }) : sc_scalar(PB_TYPE_UINT32, u);
      e = depth ? pb_message_nested_put(&msg, path, depth + 1, &v.m) : pb_message_put(&msg, path[0], &v.m);
    } else {                                             /* the other oneof member */
      path[depth] = 2; sprintf(note, "after writing the oneof");
      v = sc_scalar(PB_TYPE_UINT32, 3); if (k & 1) what = OP_ERASE, sprintf(note, "after erasing the oneof");
      e = what == OP_ERASE ? depth ? pb_message_nested_erase(&msg, path, depth + 1) : pb_message_erase(&msg, 2)
        : depth ? pb_message_nested_put(&msg, path, depth + 1, &v.m) : pb_message_put(&msg, 2, &v.m);
    }
    mc_check(!e, "%s: error %d", note, e);
    dom_op o = { .root = root, .after = sc_data(&J), .after_size = sc_size(&J), .path = path, .depth = depth, .what = what, .tag = path[depth], .v = sc_wire(&v), .vl = v.vl };
    mc_check(dom_apply(&o), "%s: %s became %s", note, mc_hex(before, bn), mc_hex(sc_data(&J), sc_size(&J)));
    snapshot(); look(&msg, note);
  }
  mc_state(mc_hash(sc_data(&J), sc_size(&J), tag ^ t << 8 ^ l << 16));
  mc_outcome(mc_hash(sc_data(&J), sc_size(&J), t));
  pb_message_destroy(&msg); pb_journal_destroy(&J);
}

static mc_scenario list[] = {
  { "types", MC_DFS, types, .bound = "16 types x 5 labels x defaults x tags at their size borders x 3 (thorough: 4) depths x neighbours x present values, every pair of operations" },
  { NULL }
};
static void setup(int th) {
  sc_setup(); thorough = th; memset(text, 't', sizeof text); text[3] = 0;
  static pb_oneof_descriptor_t g; grp = &g;
}
int main(int argc, char **argv) { return mc_main(argc, argv, setup, list); }
