/* Helpers for the generated tests: every call prints one line, which is
   compared with what the schema model expects. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define U __attribute__((unused)) static
U float f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
U double f64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
U void hex(const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", d[i]); }
U void I(long v) { printf("i%ld\n", v); }
U void E(pb_error_t e) { printf("e%d\n", (int)e); }
U void bits(const void *v, size_t n) { uint64_t b = 0; memcpy(&b, v, n); printf("%llx", (unsigned long long)b); }
U void PN(pb_error_t e, const void *v, size_t n) { if (e) { E(e); return; } printf("="); bits(v, n); printf("\n"); }
U void PS(pb_error_t e, const pb_string_t *s) { if (e) { E(e); return; } printf("="); hex(s->data, s->size); printf("\n"); }
U void J(const pb_journal_t *j) { printf("j"); hex(pb_journal_data(j), pb_journal_size(j)); printf("\n"); }
U void EB(const pb_encoder_t *e) { const pb_buffer_t *b = pb_encoder_buffer(e); printf("b"); hex(pb_buffer_data(b), pb_buffer_size(b)); printf("\n"); }
U pb_string_t S(const char *d, size_t n) { return pb_string_init((uint8_t *)d, n); }
U void CL(const long *c, size_t n) { printf("c"); for (size_t i = 0; i < n; i++) printf(" %ld", c[i]); printf("\n"); }

U void *al(void *d, size_t n) { (void)d; return malloc(n); }
U void *re(void *d, void *b, size_t n) { (void)d; return realloc(b, n); }
U void fr(void *d, void *b) { (void)d; free(b); }

/* one field, every property the descriptor has */
U void field(const pb_field_descriptor_t *f) {
  if (!f) { printf("f -\n"); return; }
  printf("f %u %d %d %d ", (unsigned)pb_field_descriptor_tag(f), (int)pb_field_descriptor_type(f),
    (int)pb_field_descriptor_label(f), !!pb_field_descriptor_packed(f));
  const pb_oneof_descriptor_t *o = pb_field_descriptor_oneof(f);
  const void *d = pb_field_descriptor_default(f);
  if (o) {
    printf("o");
    for (size_t i = 0; i < o->index.size; i++)
      printf("%s%u", i ? "," : "", o->index.data[i] < o->descriptor->field.size
        ? (unsigned)o->descriptor->field.data[o->index.data[i]].tag : 0u);
  } else if (!d) printf("-");
  else if (pb_field_descriptor_type(f) == PB_TYPE_STRING || pb_field_descriptor_type(f) == PB_TYPE_BYTES) {
    const pb_string_t *s = d; printf("d"); hex(s->data, s->size);
  } else { printf("d"); bits(d, pb_field_descriptor_type_size(f)); }
  printf(" %s\n", pb_field_descriptor_name(f));
}
U void D(const pb_descriptor_t *d) {
  printf("n%zu\n", pb_descriptor_size(d));
  pb_descriptor_iter_t it = pb_descriptor_iter_create(d);
  if (pb_descriptor_iter_begin(&it)) do field(pb_descriptor_iter_current(&it)); while (pb_descriptor_iter_next(&it));
  pb_descriptor_iter_destroy(&it);
}
U void EN(const pb_enum_descriptor_t *d) {
  printf("v");
  pb_enum_descriptor_iter_t it = pb_enum_descriptor_iter_create(d);
  if (pb_enum_descriptor_iter_begin(&it)) do {
    const pb_enum_value_descriptor_t *v = pb_enum_descriptor_iter_current(&it);
    printf(" %d:%s", (int)pb_enum_value_descriptor_number(v), pb_enum_value_descriptor_name(v));
  } while (pb_enum_descriptor_iter_next(&it));
  pb_enum_descriptor_iter_destroy(&it);
  printf("\n");
}
U void R(const pb_descriptor_t *d, unsigned tag, const void *refer) {
  const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(d, tag);
  I(f && f->refer == refer);
}
U pb_error_t H(const pb_field_descriptor_t *f, const void *value, void *user) {
  (void)user;
  printf("t%u ", (unsigned)pb_field_descriptor_tag(f));
  switch (pb_field_descriptor_type(f)) {
    case PB_TYPE_STRING: case PB_TYPE_BYTES: PS(0, value); break;
    case PB_TYPE_MESSAGE: {
      printf("(\n");
      pb_error_t e = pb_decoder_decode(value, H, user);
      printf(")\n");
      return e;
    }
    default: PN(0, value, pb_field_descriptor_type_size(f));
  }
  return PB_ERROR_NONE;
}
