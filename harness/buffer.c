/*
 * Buffers and journals as byte strings (P19): every splice at every range, in
 * range or not, with every allocation failing, against memmove on an array.
 */
#include "falloc.h"
#include "core/buffer.h"
#include "message/buffer.h"
#include "message/journal.h"

static uint8_t model[256]; static size_t mn; static uint8_t fresh;
static int maxlen = 5, maxsz = 3, steps = 2;

static void setup(int thorough) { if (thorough) { maxlen = 6; maxsz = 4; } }

static void fill(uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) d[i] = ++fresh; }
static void same(const pb_buffer_t *b, const char *when) {
  mc_check(pb_buffer_size(b) == mn, "%s: size %zu, expected %zu", when, pb_buffer_size(b), mn);
  mc_check(pb_buffer_empty(b) == !mn, "%s: empty() is %d with %zu bytes", when, pb_buffer_empty(b), mn);
  mc_check(!mn || !memcmp(pb_buffer_data(b), model, mn), "%s: bytes %s, expected %s", when,
    mc_hex(pb_buffer_data(b), mn), mc_hex(model, mn));
}
/* one splice on b (through journal j if given); zero: the buffer may not change its size */
static void one_splice(pb_buffer_t *b, pb_journal_t *j, fa *f, int zero) {
  int start = mc_choose(mn + 2), end = mc_choose(mn + 2), size = mc_choose(maxsz + 2) - 1;
  int clear = size < 0, fault = f ? mc_choose(3) - 1 : -1, origin = start && j ? mc_choose(2) ? start : 0 : 0;
  if (clear) size = 0;
#ifndef NDEBUG
  if (j && start > end) end = start;            /* asserted by the journal */
#endif
  uint8_t *data = mc_exact("", 0); data = realloc(data, size ? size : 1); fill(data, size);
  int valid = start <= end && (size_t)end <= mn;
  size_t ver = j ? pb_journal_version(j) : 0;
  if (f) fa_arm(f, fault);
  mc_trace("%s [%d,%d) with %s%s, allocation %d fails", clear ? "clear" : "write", start, end, mc_hex(data, size), j ? " journaled" : "", fault);
  pb_error_t e = clear
    ? j ? pb_journal_clear(j, origin, start, end) : pb_buffer_clear(b, start, end)
    : j ? pb_journal_write(j, origin, start, end, data, size) : pb_buffer_write(b, start, end, data, size);
  mc_step();
  int failed = f ? f->failed : 0;
  if (f) fa_arm(f, -1);
  mc_trace("  -> %d", e);
  if (!valid) mc_check(e == PB_ERROR_OFFSET || (failed && e == PB_ERROR_ALLOC) || (zero && e == PB_ERROR_ALLOC),
    "a splice of [%d,%d) in %zu bytes returns %d", start, end, mn, e);
  else if (zero && size != end - start) mc_check(e == PB_ERROR_ALLOC, "a zero copy buffer changes its size (error %d)", e);
  else if (!failed) mc_check(!e, "splice of [%d,%d) in %zu bytes fails with %d", start, end, mn, e);
  else mc_check(!e || e == PB_ERROR_ALLOC, "an allocation failure is reported as %d", e);
  if (!e) {
    memmove(model + start + size, model + end, mn - end);
    memcpy(model + start, data, size);
    mn = mn - (end - start) + size;
  } else if (j) mc_check(pb_journal_version(j) == ver, "a failed write leaves a journal entry");
  free(data);                                   /* the buffer keeps a copy */
  mc_check(pb_buffer_valid(b), "a splice makes the buffer invalid");
  same(b, "after the splice");
  mc_outcome(e * 64 + (mn << 8) + valid);
}
static void body(int journal) {
  int n = mc_choose(maxlen + 1), zero = mc_choose(2), first = mc_choose(2);
  if (!n && zero) { mc_me->checks++; return; }
  if (!mc_shard()) return;
  static fa f; fa_init(&f); fresh = 0;
  uint8_t *in = mc_exact("", 0); in = realloc(in, n ? n : 1); fill(in, n);
  memcpy(model, in, n); mn = n;
  pb_journal_t j; pb_buffer_t buf, *b;
  if (first && !zero) fa_arm(&f, 0);            /* creation fails */
  if (journal) {
    j = zero ? pb_journal_create_zero_copy(in, n) : n ? pb_journal_create_with_allocator(&f.a, in, n)
             : pb_journal_create_empty_with_allocator(&f.a);
    b = pb_journal_buffer(&j);
  } else {
    buf = zero ? pb_buffer_create_zero_copy(in, n) : n ? pb_buffer_create_with_allocator(&f.a, in, n)
             : pb_buffer_create_empty_with_allocator(&f.a);
    b = &buf;
  }
  int failed = f.failed; fa_arm(&f, -1);
  mc_check(pb_buffer_valid(b) == !failed, "buffer valid=%d after creation, allocation %s", pb_buffer_valid(b), failed ? "failed" : "worked");
  mc_trace("%s of %d bytes%s%s", journal ? "journal" : "buffer", n, zero ? ", zero copy" : "", failed ? ", allocation failed" : "");
  mc_state(n * 8 + zero * 2 + failed);
  if (failed) {
    mc_check(!pb_buffer_size(b) && pb_buffer_error(b), "a buffer that could not be created has %zu bytes, error %d", pb_buffer_size(b), pb_buffer_error(b));
    uint8_t x = 1;
    mc_check(journal ? pb_journal_write(&j, 0, 0, 0, &x, 1) : pb_buffer_write(b, 0, 0, &x, 1), "an invalid buffer accepts a write");
    mc_check(journal ? pb_journal_clear(&j, 0, 0, 0) : pb_buffer_clear(b, 0, 0), "an invalid buffer accepts a clear");
    mc_check(!pb_buffer_grow(b, 1), "an invalid buffer grows");
  } else {
    if (!zero) {
      if (n) { mc_check(pb_buffer_data(b) != in, "the buffer is not a copy"); memset(in, 0xEE, n); }
      same(b, "after changing the source");
    } else mc_check(pb_buffer_data(b) == in, "a zero copy buffer does not use the memory given");
    for (int s = 0; s < steps; s++) one_splice(b, journal ? &j : NULL, zero ? NULL : &f, zero);
    /* grow */
    int g = mc_choose(2);
    if (!journal && g) {
      int fault = zero ? 1 : mc_choose(2); if (!zero && !fault) fa_arm(&f, 0);
      uint8_t *p = pb_buffer_grow(b, 3); mc_step();
      int fl = f.failed; fa_arm(&f, -1);
      mc_check(!!p == !(zero || fl), "grow returns %p", (void *)p);
      if (p) { memcpy(p, "\xf1\xf2\xf3", 3); memcpy(model + mn, "\xf1\xf2\xf3", 3); mn += 3; }
      same(b, "after growing");
    }
    mc_state(mc_hash(model, mn, 3));
    if (zero) mc_check(!mn || !memcmp(in, model, mn), "the memory of a zero copy buffer does not hold its bytes");
  }
  if (journal) { pb_journal_destroy(&j); pb_journal_destroy(&j); } else { pb_buffer_destroy(b); if (!zero) pb_buffer_destroy(b); }
  fa_done(&f);
  free(in);
}
static void buffers(void) { body(0); }
static void journals(void) { body(1); }

int main(int argc, char **argv) {
  mc_scenario list[] = {
    { "buffers", MC_DFS, buffers, .bound = "0..5 (thorough: 6) bytes, own or zero copy, every pair of splices at every range with 0..3 (4) bytes, every allocation failing, growth" },
    { "journals", MC_DFS, journals, .bound = "the same through a journal, two origins" },
    { 0 } };
  return mc_main(argc, argv, setup, list);
}
