/*
 * Descriptors (P21): lookups by tag, name and number, extension chains and
 * iterators, for every small descriptor.
 */
#include "ref.h"
#include <protobluff/descriptor.h>
#include <protobluff/util.h>

static const uint32_t tags[8] = { 1, 2, 3, 5, 6, 19, 2048, 536870911 };
static const uint32_t query[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 19, 20, 2047, 2048, 2049, 536870910, 536870911 };
static int ntags = 7;
static char names[8][16];

#define BOTH_WAYS(it, begin, end, next, prev, pos, cur, expect, n, what) do { \
  int k = 0; \
  if (begin(&it)) do { \
    mc_check(k < (n), what ": walking forward finds more than %d items", (n)); \
    mc_check(pos(&it) == (size_t)k && cur(&it) == (expect), what ": item %d is wrong walking forward", k); k++; mc_step(); \
  } while (next(&it)); \
  mc_check(k == (n), what ": walking forward ends after %d of %d items", k, (n)); \
  k = (n); \
  if (end(&it)) do { \
    k--; mc_check(k >= 0, what ": walking back finds more than %d items", (n)); \
    mc_check(pos(&it) == (size_t)k && cur(&it) == (expect), what ": item %d is wrong walking back", k); mc_step(); \
  } while (prev(&it)); \
  mc_check(k == 0, what ": walking back ends %d items early", k); \
} while (0)

static void messages(void) {
  /* each tag belongs to nobody, the message or one of two extensions */
  int where[8] = { 0 };
  where[7] = 0;
  for (int i = 0; i < ntags; i++) where[i] = mc_choose(4);
  int order = mc_choose(4);
  if (!mc_shard()) return;
  static pb_field_descriptor_t f[3][8]; int n[3] = { 0 }; static pb_descriptor_t d[3];
  for (int i = 0; i < ntags; i++) if (where[i]) {
    int w = where[i] - 1;
    ref_field_init(&f[w][n[w]++], (ref_fd){ tags[i], PB_TYPE_UINT32 + i % 3, i % 3, 0, NULL, NULL, names[i] });
  }
  for (int w = 0; w < 3; w++) ref_descriptor_init(&d[w], f[w], n[w], NULL);
  /* registration: each order, with repetitions */
  int first = 1 + (order & 1), second = 3 - first;
  pb_descriptor_extend(&d[0], &d[first]);
  if (order & 2) pb_descriptor_extend(&d[0], &d[first]);
  pb_descriptor_extend(&d[0], &d[second]);
  if (order & 2) { pb_descriptor_extend(&d[0], &d[first]); pb_descriptor_extend(&d[0], &d[second]); }
  mc_step();
  int seen = 0, chain = 0;
  for (pb_descriptor_t *x = &d[0]; x; x = pb_descriptor_extension(x)) {
    mc_check(++chain <= 3, "the chain of extensions is longer than the registrations");
    seen |= 1 << (x - d);
  }
  mc_check(seen == 7 && chain == 3, "an extension is missing from the chain");
  mc_trace("tags:%s%s%s", "", "", "");
  for (int i = 0; i < ntags; i++) mc_trace("  %u in %d", tags[i], where[i]);
  for (size_t q = 0; q < sizeof query / sizeof *query; q++) {
    const pb_field_descriptor_t *want = NULL;
    for (int w = 0; w < 3; w++) for (int i = 0; i < n[w]; i++) if (f[w][i].tag == query[q]) want = &f[w][i];
    const pb_field_descriptor_t *got = pb_descriptor_field_by_tag(&d[0], query[q]); mc_step();
    mc_check(got == want, "tag %u: found %s, expected %s", query[q], got ? got->name : "nothing", want ? want->name : "nothing");
    for (int w = 1; w < 3; w++) {               /* in an extension on its own */
      if (w == 1 && d[1].extension) continue;
      if (w == 2 && d[2].extension) continue;
      const pb_field_descriptor_t *own = NULL;
      for (int i = 0; i < n[w]; i++) if (f[w][i].tag == query[q]) own = &f[w][i];
      mc_check(pb_descriptor_field_by_tag(&d[w], query[q]) == own, "tag %u in an extension", query[q]);
    }
    mc_outcome(!!got * 2 + (got && got != want));
  }
  for (int i = 0; i < 8; i++) {
    const pb_field_descriptor_t *want = NULL;
    for (int w = 0; w < 3; w++) for (int k = 0; k < n[w]; k++) if (!strcmp(f[w][k].name, names[i])) want = &f[w][k];
    char copy[16]; strcpy(copy, names[i]);
    const pb_field_descriptor_t *got = pb_descriptor_field_by_name(&d[0], copy); mc_step();
    mc_check(got == want, "name %s: found %s", names[i], got ? got->name : "nothing");
    strcat(copy, "x");
    mc_check(!pb_descriptor_field_by_name(&d[0], copy), "found %s", copy);
  }
  mc_check(!pb_descriptor_field_by_name(&d[0], ""), "found an empty name");
  for (int w = 0; w < 3; w++) {
    mc_check(pb_descriptor_size(&d[w]) == (size_t)n[w] && pb_descriptor_empty(&d[w]) == !n[w], "size of a descriptor");
    pb_descriptor_iter_t it = pb_descriptor_iter_create(&d[w]);
    BOTH_WAYS(it, pb_descriptor_iter_begin, pb_descriptor_iter_end, pb_descriptor_iter_next, pb_descriptor_iter_prev,
      pb_descriptor_iter_pos, pb_descriptor_iter_current, &f[w][k], n[w], "fields");
    pb_descriptor_iter_destroy(&it);
  }
  mc_state(mc_hash(where, sizeof where, order));
}

static const int32_t nums[9] = { INT32_MIN, -129, -2, -1, 0, 1, 2, 128, INT32_MAX };
static void enums(void) {
  int mult[9], n = 0;
  for (int i = 0; i < 9; i++) { mult[i] = mc_choose(i == 4 || i == 3 ? 4 : 3); n += mult[i]; }
  if (!mc_shard()) return;
  pb_enum_value_descriptor_t *v = malloc(n * sizeof *v + 1); static char nm[32][16]; int k = 0;
  for (int i = 0; i < 9; i++) for (int m = 0; m < mult[i]; m++) {
    sprintf(nm[k], "E%d_%d", i, m);
    pb_enum_value_descriptor_t t = { nums[i], nm[k] }; memcpy(&v[k++], &t, sizeof t);
  }
  pb_enum_descriptor_t d = { { v, n } };
  mc_trace("%d values", n);
  for (int i = 0; i < 9; i++) for (int delta = -1; delta <= 1; delta++) {
    int64_t q = (int64_t)nums[i] + delta;
    if (q < INT32_MIN || q > INT32_MAX) continue;
    int has = 0; for (int x = 0; x < n; x++) has |= v[x].number == (pb_enum_t)q;
    const pb_enum_value_descriptor_t *got = pb_enum_descriptor_value_by_number(&d, (pb_enum_t)q); mc_step();
    mc_check(!!got == has && (!got || got->number == (pb_enum_t)q), "number %d: %s, expected %s", (int)q, got ? got->name : "nothing", has ? "a value" : "nothing");
    mc_outcome(!!got);
  }
  for (int x = 0; x < n; x++) {
    char copy[20]; strcpy(copy, nm[x]);
    mc_check(pb_enum_descriptor_value_by_name(&d, copy) == &v[x], "name %s", nm[x]); mc_step();
    strcat(copy, "y"); mc_check(!pb_enum_descriptor_value_by_name(&d, copy), "found %s", copy);
  }
  mc_check(!pb_enum_descriptor_value_by_name(&d, "E"), "found E");
  mc_check(pb_enum_descriptor_size(&d) == (size_t)n && pb_enum_descriptor_empty(&d) == !n, "size of an enum");
  pb_enum_descriptor_iter_t it = pb_enum_descriptor_iter_create(&d);
  BOTH_WAYS(it, pb_enum_descriptor_iter_begin, pb_enum_descriptor_iter_end, pb_enum_descriptor_iter_next, pb_enum_descriptor_iter_prev,
    pb_enum_descriptor_iter_pos, pb_enum_descriptor_iter_current, &v[k], n, "values");
  pb_enum_descriptor_iter_destroy(&it);
  mc_state(mc_hash(mult, sizeof mult, 1));
  free(v);
}

/* oneofs, and the properties of single fields */
static void fields(void) {
  int mask = mc_choose(256), type = mc_choose(17), label = 1 + mc_choose(4), flag = mc_choose(2);
  if (!mc_shard()) return;
  static pb_field_descriptor_t f[8]; static pb_descriptor_t d; static pb_enum_descriptor_t en; static pb_descriptor_t nested;
  size_t idx[8]; int n = 0;
  for (int i = 0; i < 8; i++) if (mask >> i & 1) idx[n++] = i;
  pb_oneof_descriptor_t one = { &d, { idx, n } };
  static const uint32_t def = 3;
  int t = PB_TYPE_INT32 + type;
  const void *refer = t == PB_TYPE_MESSAGE ? (void *)&nested : t == PB_TYPE_ENUM ? (void *)&en : NULL;
  const void *value = label == PB_LABEL_ONEOF ? (void *)&one : flag ? &def : NULL;
  for (int i = 0; i < 8; i++) ref_field_init(&f[i], (ref_fd){ tags[i], t, label, flag, refer, value, names[i] });
  ref_descriptor_init(&d, f, 8, NULL);
  mc_step();
  mc_check(pb_field_descriptor_type(&f[2]) == (pb_type_t)t && pb_field_descriptor_label(&f[2]) == (pb_label_t)label, "type or label");
  mc_check(pb_field_descriptor_tag(&f[2]) == tags[2] && !strcmp(pb_field_descriptor_name(&f[2]), names[2]), "tag or name");
  mc_check(!!pb_field_descriptor_packed(&f[2]) == flag, "packed is %d", pb_field_descriptor_packed(&f[2]));
  mc_check(pb_field_descriptor_wiretype(&f[2]) == (pb_wiretype_t)ref_wiretype(t), "wire type of %d is %d", t, pb_field_descriptor_wiretype(&f[2]));
  size_t want = t < PB_TYPE_STRING ? ref_size(t) : sizeof(pb_string_t);
  mc_check(pb_field_descriptor_type_size(&f[2]) == want, "size of type %d is %zu", t, pb_field_descriptor_type_size(&f[2]));
  if (t == PB_TYPE_MESSAGE) mc_check(pb_field_descriptor_nested(&f[2]) == &nested, "nested descriptor");
  if (t == PB_TYPE_ENUM) mc_check(pb_field_descriptor_enum(&f[2]) == &en, "enum descriptor");
  if (label == PB_LABEL_ONEOF) mc_check(pb_field_descriptor_oneof(&f[2]) == &one, "oneof descriptor");
  else mc_check(pb_field_descriptor_default(&f[2]) == value, "default");
  mc_check(pb_oneof_descriptor_size(&one) == (size_t)n && pb_oneof_descriptor_empty(&one) == !n, "size of a oneof");
  pb_oneof_descriptor_iter_t it = pb_oneof_descriptor_iter_create(&one);
  BOTH_WAYS(it, pb_oneof_descriptor_iter_begin, pb_oneof_descriptor_iter_end, pb_oneof_descriptor_iter_next, pb_oneof_descriptor_iter_prev,
    pb_oneof_descriptor_iter_pos, pb_oneof_descriptor_iter_current, &f[idx[k]], n, "members");
  pb_oneof_descriptor_iter_destroy(&it);
  mc_state(mask * 1000 + type * 8 + label * 2 + flag);
  mc_outcome(want);
}

static void setup(int thorough) {
  for (int i = 0; i < 8; i++) sprintf(names[i], "%.*s%d", i % 3, "ab", i / 3);
  if (thorough) ntags = 8;
}
int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "messages", MC_DFS, messages, .bound = "7 (thorough: 8) tags, each absent, in the message or in one of two extensions, registered in either order and again; every tag around them" },
    { "enums", MC_DFS, enums, .bound = "9 numbers from the smallest to the largest, each up to two (0 and -1: three) times" },
    { "fields", MC_DFS, fields, .bound = "every oneof over 8 fields, every type, label and flag" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
