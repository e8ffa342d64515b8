/*
 * falloc.h - an allocator that keeps books and fails on request. Every resize
 * moves the block, so a pointer kept across it is caught; blocks are exactly
 * sized; foreign, stale or double frees and leaks fail the check.
 */
#ifndef FALLOC_H
#define FALLOC_H
#include "mc.h"
#include <protobluff/core.h>

typedef struct fa {
  pb_allocator_t a;
  int magic, requests, fail_at, failed, live;   /* fail_at: request number, -1 none */
  int fail_from;                                /* fail every request from here */
  void (*watch)(struct fa *, int);              /* called before each request */
  struct { void *p; size_t n; } blk[64];
} fa;

static int fa_find(fa *f, void *p) {
  for (int i = 0; i < 64; i++) if (f->blk[i].p == p) return i;
  return -1;
}
static int fa_due(fa *f) {
  int k = f->requests++;
  if (f->watch) f->watch(f, k);
  if (k == f->fail_at || (f->fail_from >= 0 && k >= f->fail_from)) { f->failed++; return 1; }
  return 0;
}
static void *fa_alloc(void *d, size_t n) {
  fa *f = d;
  mc_check(f->magic == 0xfa, "allocator called with somebody else's data");
  mc_check(n, "allocation of zero bytes requested");
  if (fa_due(f)) return NULL;
  int i = fa_find(f, NULL);
  if (i < 0) { fprintf(stderr, "falloc: too many blocks\n"); _exit(3); }
  f->blk[i].p = malloc(n); f->blk[i].n = n; f->live++;
  memset(f->blk[i].p, 0xA5, n);
  return f->blk[i].p;
}
static void *fa_resize(void *d, void *p, size_t n) {
  fa *f = d;
  mc_check(f->magic == 0xfa, "allocator called with somebody else's data");
  if (!p) return fa_alloc(d, n);
  int i = fa_find(f, p);
  mc_check(i >= 0, "resize of a block this allocator did not hand out (or took back)");
  mc_check(n, "resize to zero bytes requested");
  if (fa_due(f)) return NULL;
  void *q = malloc(n); size_t m = f->blk[i].n < n ? f->blk[i].n : n;
  memset(q, 0xA5, n); memcpy(q, p, m);
  free(p); f->blk[i].p = q; f->blk[i].n = n;
  return q;
}
static void fa_free(void *d, void *p) {
  fa *f = d;
  mc_check(f->magic == 0xfa, "allocator called with somebody else's data");
  int i = fa_find(f, p);
  mc_check(p && i >= 0, "free of a block this allocator did not hand out (or took back)");
  free(p); f->blk[i].p = NULL; f->live--;
}
__attribute__((unused)) static void fa_init(fa *f) {
  memset(f, 0, sizeof *f);
  f->a.proc.allocate = fa_alloc; f->a.proc.resize = fa_resize; f->a.proc.free = fa_free;
  f->a.data = f; f->magic = 0xfa; f->fail_at = -1; f->fail_from = -1;
}
/* arm: the k-th request from now fails */
__attribute__((unused)) static void fa_arm(fa *f, int k) { f->fail_at = k < 0 ? -1 : f->requests + k; f->failed = 0; }
__attribute__((unused)) static void fa_done(fa *f) {
  mc_check(!f->live, "%d blocks are never returned to the allocator", f->live);
}
#endif
