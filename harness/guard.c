/* The library's own allocations: each ends at an inaccessible page and is filled with a pattern, and they are counted. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>

/* apart from the library's own variables (see sched.c) */
__attribute__((section("rbguard"))) static long live = 0, made = 0, smashed = 0;
typedef struct { size_t size, map, off; uint64_t magic; } head;
#define MAGIC 0x5253424c41434bULL

/* not stepped through (see sched.c) */
static unsigned long quiet(void) {
  unsigned long f;
  __asm__ volatile("pushfq\n pop %0" : "=r"(f) : : "memory");
  if (f & 0x100) __asm__ volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" : : : "memory", "cc");
  return f;
}
static void loud(unsigned long f) {
  if (f & 0x100) __asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" : : : "memory", "cc");
}

static void *obtain(size_t n, size_t al);
static void *get(size_t n, size_t al) {
  unsigned long f = quiet();
  void *p = obtain(n, al);
  loud(f);
  return p;
}

static void *obtain(size_t n, size_t al) {
  size_t pg = (size_t)sysconf(_SC_PAGESIZE);
  if (al < 16) al = 16;
  if (al > pg) al = pg;
  size_t r = (n + al - 1) / al * al;
  if (r < n) return NULL;
  size_t body = (r + pg - 1) / pg * pg;
  size_t map = body + 2 * pg;
  char *p = mmap(NULL, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) return NULL;
  char *u = p + pg + body - r;
  memset(p + pg, 0xFF, body);
  head *h = (head *)p;
  h->size = n; h->map = map; h->off = u - p; h->magic = MAGIC;
  mprotect(p + pg + body, pg, PROT_NONE);
  __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST);
  __atomic_add_fetch(&made, 1, __ATOMIC_SEQ_CST);
  return u;
}

static head *find(void *u) {
  /* the header is in the page before the first page of the block */
  size_t pg = (size_t)sysconf(_SC_PAGESIZE);
  char *q = (char *)((uintptr_t)u / pg * pg) - pg;
  head *h = (head *)q;
  if (h->magic != MAGIC || q + h->off != (char *)u) { /* not one of ours: stop here */ *(volatile int *)0 = 0; }
  return h;
}

void *__wrap_malloc(size_t n) { return get(n, 16); }
void *__wrap_calloc(size_t a, size_t b) { size_t n = a * b; void *p = get(n, 16); if (p) memset(p, 0, n); return p; }
static void release(void *u) {
  if (!u) return;
  head *h = find(u);
  unsigned char *e = (unsigned char *)u + h->size, *f = (unsigned char *)h + h->map - sysconf(_SC_PAGESIZE);
  for (; e < f; e++) if (*e != 0xFF) { smashed++; break; }
  unsigned char *b = (unsigned char *)h + sysconf(_SC_PAGESIZE);
  for (; b < (unsigned char *)u; b++) if (*b != 0xFF) { smashed++; break; }
  __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
  munmap(h, h->map);
}
void __wrap_free(void *u) {
  unsigned long f = quiet();
  release(u);
  loud(f);
}
void *__wrap_realloc(void *u, size_t n) {
  if (!u) return get(n, 16);
  void *p = get(n, 16);
  if (!p) return NULL;
  size_t o = find(u)->size;
  memcpy(p, u, o < n ? o : n);
  __wrap_free(u);
  return p;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n) { void *p = get(n, al); if (!p) return ENOMEM; *r = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return get(n, al); }
void *__wrap_memalign(size_t al, size_t n) { return get(n, al); }

/* how numbers are rounded and whether tiny ones are kept: the control bits of the two floating-point units */
unsigned rb_mode(void) {
  unsigned m; unsigned short w;
  __asm__ volatile("stmxcsr %0" : "=m"(m));
  __asm__ volatile("fnstcw %0" : "=m"(w));
  return (m & ~0x3Fu) ^ ((unsigned)w << 16);
}
long rb_live(void) { return live; }
long rb_made(void) { return made; }
long rb_smashed(void) { return smashed; }
long rb_size(void *u) { return (long)find(u)->size; }
void rb_free(void *u) { __wrap_free(u); }
