/* Interleaves two calls on separate data, instruction by instruction, on two threads of one process.
 *
 * A call runs with the processor's trap flag set, so that a signal handler sees every instruction
 * boundary; there it can stop and let the other thread go on.  Waits end after a while, so that
 * a thread stopped inside a lock only costs time. */
#define _GNU_SOURCE
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdio.h>

/* none of this may go through the counting allocator: no allocation here, and state kept apart */
#define MINE __attribute__((section("rbguard")))
extern char __start_rbguard[], __stop_rbguard[];

typedef struct {
  void *base;
  size_t len;
  const void *pre, *post;
} area;

typedef struct {
  void *fn;            /* 0 */
  long step;           /* 8 */
  long nstack;         /* 16 */
  long *stack;         /* 24 */
  long ints[6];        /* 32 */
  uint64_t fps[8];     /* 80 */
  long rax;            /* 144 */
  uint64_t xmm;        /* 152 */
  /* what it returns alone: how many bytes of which register */
  long rsize, rfp;
  uint64_t ret;
  long nareas;
  area *areas;
} call;

void rb_tramp(call *c);
__asm__(
".text\n.p2align 4\nrb_tramp:\n"
"  push %rbp\n  mov %rsp,%rbp\n  push %rbx\n  push %r12\n"
"  mov %rdi,%rbx\n"
"  mov 16(%rbx),%rcx\n  mov %rcx,%rax\n  inc %rax\n  and $-2,%rax\n  shl $3,%rax\n  sub %rax,%rsp\n"
"  mov 24(%rbx),%rsi\n  mov %rsp,%rdi\n  cld\n  rep movsq\n"
"  movq 80(%rbx),%xmm0\n  movq 88(%rbx),%xmm1\n  movq 96(%rbx),%xmm2\n  movq 104(%rbx),%xmm3\n"
"  movq 112(%rbx),%xmm4\n  movq 120(%rbx),%xmm5\n  movq 128(%rbx),%xmm6\n  movq 136(%rbx),%xmm7\n"
"  mov 32(%rbx),%rdi\n  mov 40(%rbx),%rsi\n  mov 48(%rbx),%rdx\n  mov 56(%rbx),%rcx\n  mov 64(%rbx),%r8\n  mov 72(%rbx),%r9\n"
"  mov $8,%eax\n  mov (%rbx),%r11\n"
"  cmpq $0,8(%rbx)\n  je 1f\n"
"  pushfq\n  orq $0x100,(%rsp)\n  popfq\n"
"1: call *%r11\n"
"  cmpq $0,8(%rbx)\n  je 2f\n"
"  pushfq\n  andq $~0x100,(%rsp)\n  popfq\n"
"2: mov %rax,144(%rbx)\n  movq %xmm0,152(%rbx)\n"
"  lea -16(%rbp),%rsp\n  pop %r12\n  pop %rbx\n  pop %rbp\n  ret\n");

/* ------------------------------------------------------------ the library's own variables, as loaded */
static MINE struct { char *lo, *hi, *copy; } seg[8];
static MINE int nseg;

static int each(struct dl_phdr_info *i, size_t z, void *u) {
  uintptr_t me = (uintptr_t)__start_rbguard, rlo = 0, rhi = 0;
  int mine = 0, k;
  for (k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    uintptr_t a = i->dlpi_addr + p->p_vaddr;
    if (p->p_type == PT_LOAD && me >= a && me < a + p->p_memsz) mine = 1;
    if (p->p_type == PT_GNU_RELRO) { rlo = a; rhi = (a + p->p_memsz + 4095) & ~(uintptr_t)4095; }
  }
  if (!mine) return 0;
  for (k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    uintptr_t a = i->dlpi_addr + p->p_vaddr, b = a + p->p_memsz;
    if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
    if (a >= rlo && a < rhi) a = rhi;
    if (a >= b) continue;
    /* without the part that is ours */
    uintptr_t g0 = (uintptr_t)__start_rbguard, g1 = (uintptr_t)__stop_rbguard;
    uintptr_t cut[2][2] = {{a, g0 < b && g0 > a ? g0 : b}, {g1 > a ? g1 : a, b}};
    int n = (g0 < b && g1 > a) ? 2 : 1, j;
    for (j = 0; j < n; j++)
      if (cut[j][0] < cut[j][1] && nseg < 8) {
        seg[nseg].lo = (char *)cut[j][0]; seg[nseg].hi = (char *)cut[j][1];
        size_t len = cut[j][1] - cut[j][0];
        seg[nseg].copy = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(seg[nseg].copy, seg[nseg].lo, len);
        nseg++;
      }
  }
  return 1;
}

__attribute__((constructor)) static void load(void) { dl_iterate_phdr(each, NULL); }

void rb_fresh(void) {
  int k;
  for (k = 0; k < nseg; k++) memcpy(seg[k].lo, seg[k].copy, seg[k].hi - seg[k].lo);
}
long rb_vars(void) { long n = 0; int k; for (k = 0; k < nseg; k++) n += seg[k].hi - seg[k].lo; return n; }

/* ------------------------------------------------------------ running */
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

typedef struct {
  call *c;
  long at, stride, count;   /* switch at instruction "at", and then every "stride" if that is positive */
  long last;                /* the last instruction of interest */
  int me;
  long bad;                 /* runs that differed from the call alone */
  long runs;
} side;

static MINE volatile int turn;           /* whose turn it is (0, 1), or 2: no turns any more */
static MINE volatile int done[2];
static MINE volatile long asked, answered;
static MINE volatile int stuck;
static MINE side *S[2];
static MINE int every;
static MINE long slow;
static MINE pthread_t who[2];
static __thread side *cur;

static int await(volatile long *p, long v, double t) {
  long n = 0;
  double end = 0;
  while (*p < v) {
    if (++n < 4000) { __builtin_ia32_pause(); continue; }
    if (!end) end = now() + t;
    if (now() > end) return 0;
    usleep(20);
  }
  return 1;
}

static int await_turn(int me) {
  long n = 0;
  double end = 0;
  while (turn != me && turn != 2) {
    if (++n < 4000) { __builtin_ia32_pause(); continue; }
    if (!end) end = now() + .25;
    if (now() > end) { turn = 2; slow++; return 0; }
    usleep(20);
  }
  return 1;
}

static void trap(int sig, siginfo_t *si, void *u) {
  side *s = cur;
  if (!s) return;
  s->count++;
  if (s->count >= s->last) ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;   /* at full speed from here */
  if (s->count < s->at || s->at < 0) return;
  if (s->count > s->at && (s->stride <= 0 || (s->count - s->at) % s->stride)) return;
  if (every) {
    if (stuck) return;
    long n = asked + 1;
    __atomic_store_n(&asked, n, __ATOMIC_SEQ_CST);
    if (!await(&answered, n, .25)) { stuck = 1; slow++; }
  } else if (turn == s->me && !done[1 - s->me]) {
    turn = 1 - s->me;
    await_turn(s->me);
  }
}

static void prepare(call *c) {
  long k;
  for (k = 0; k < c->nareas; k++) memcpy(c->areas[k].base, c->areas[k].pre, c->areas[k].len);
}

static int differs(call *c) {
  long k;
  if (c->rsize && memcmp(c->rfp ? (void *)&c->xmm : (void *)&c->rax, &c->ret, c->rsize)) return 1;
  for (k = 0; k < c->nareas; k++)
    if (memcmp(c->areas[k].base, c->areas[k].post, c->areas[k].len)) return 1;
  return 0;
}

static void once(side *s) {
  prepare(s->c);
  s->count = 0;
  rb_tramp(s->c);
  s->runs++;
  if (differs(s->c)) s->bad++;
}

static void *leader(void *u) {
  side *s = u;
  cur = s;
  if (!every) await_turn(s->me);
  once(s);
  cur = NULL;
  done[s->me] = 1;
  if (!every && turn != 2) turn = 1 - s->me;
  return NULL;
}

static void *servant(void *u) {
  side *s = u;
  long n = 0;
  cur = NULL;
  while (n >= 0) {
    if (asked > n) {
      n++;
      once(s);
      __atomic_store_n(&answered, n, __ATOMIC_SEQ_CST);
    } else if (done[0]) break;
    else { __builtin_ia32_pause(); }
  }
  return NULL;
}

static void trapping(void) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = trap;
  sa.sa_flags = SA_SIGINFO | SA_RESTART;
  sigaction(SIGTRAP, &sa, NULL);
}

static int spawn(pthread_t *t, void *(*f)(void *), void *u) {
  return pthread_create(t, NULL, f, u);
}

/* number of instructions of a call on its own, up to cap (negative if it differs from what it did before) */
long rb_count(call *c, int fresh, long cap) {
  trapping();
  if (fresh) rb_fresh();
  side s = {c, -1, 0, 0, cap, 0, 0, 0};
  every = 0; turn = 0; done[0] = done[1] = 0;
  S[0] = &s;
  c->step = 1;
  pthread_t t;
  spawn(&t, leader, &s);
  pthread_join(t, NULL);
  return s.bad ? -s.count : s.count;
}

/* a until its instruction ka, b until its instruction kb (negative: to its end), a to its end, b to its end */
void rb_duet(call *a, call *b, long ka, long kb, int fresh, long *out) {
  trapping();
  if (fresh) rb_fresh();
  side s[2] = {{a, ka, 0, 0, ka, 0, 0, 0}, {b, kb, 0, 0, kb, 1, 0, 0}};
  every = 0; turn = 0; done[0] = done[1] = 0; slow = 0;
  a->step = 1; b->step = kb >= 0;
  pthread_t t[2];
  spawn(&t[0], leader, &s[0]);
  spawn(&t[1], leader, &s[1]);
  pthread_join(t[0], NULL);
  pthread_join(t[1], NULL);
  out[0] = s[0].bad; out[1] = s[1].bad; out[2] = s[0].count; out[3] = slow; out[4] = 1; out[5] = 1;
}

/* a, with all of b run at its instruction k and at every stride-th after it */
void rb_within(call *a, call *b, long k, long stride, long last, int fresh, long *out) {
  trapping();
  if (fresh) rb_fresh();
  side s[2] = {{a, k, stride, 0, last, 0, 0, 0}, {b, -1, 0, 0, 0, 1, 0, 0}};
  every = 1; turn = 0; done[0] = done[1] = 0; slow = 0; asked = answered = 0; stuck = 0;
  a->step = 1; b->step = 0;
  pthread_t t[2];
  spawn(&t[0], leader, &s[0]);
  spawn(&t[1], servant, &s[1]);
  pthread_join(t[0], NULL);
  pthread_join(t[1], NULL);
  out[0] = s[0].bad; out[1] = s[1].bad; out[2] = s[0].count; out[3] = slow; out[4] = s[0].runs; out[5] = s[1].runs;
}

/* all of them at once, for a while */
typedef struct { call **c; long n; double end; long bad, runs, first; } worker;
static MINE volatile int go;
static void *work(void *u) {
  worker *w = u;
  long k;
  while (!go) __builtin_ia32_pause();
  do {
    for (k = 0; k < w->n; k++) {
      prepare(w->c[k]);
      rb_tramp(w->c[k]);
      w->runs++;
      if (differs(w->c[k])) { if (!w->bad) w->first = k; w->bad++; }
    }
  } while (now() < w->end);
  return NULL;
}

void rb_crowd(call **c, long *n, long nthreads, long ms, int fresh, long *out) {
  worker w[64];
  pthread_t t[64];
  long k, j;
  if (fresh) rb_fresh();
  go = 0;
  for (k = 0, j = 0; k < nthreads; j += n[k], k++) {
    worker x = {c + j, n[k], 0, 0, 0, -1};
    long i;
    w[k] = x;
    w[k].end = now() + ms * 1e-3;
    for (i = 0; i < n[k]; i++) c[j + i]->step = 0;
    spawn(&t[k], work, &w[k]);
  }
  go = 1;
  for (k = 0; k < nthreads; k++) pthread_join(t[k], NULL);
  for (k = 0; k < nthreads; k++) { out[3 * k] = w[k].bad; out[3 * k + 1] = w[k].runs; out[3 * k + 2] = w[k].first; }
}
