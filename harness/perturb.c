// An allocator to preload: chooses the addresses and the initial contents of heap memory, and
// moves the clock.
// PERTURB = <fill byte> <u|d|z>: ascending, descending or scattered addresses.
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define ARENA (1ull << 36)
#define NCLASS 64
struct hdr {
  size_t size; // usable bytes
  size_t cls;
};
static char *lo, *up, *down;
static int fill = -1, mode;
static uint64_t rnd = 88172645463325252ull;
struct node {
  struct node *next;
};
static struct node *head[NCLASS], *tail[NCLASS];

static void init(void) {
  lo = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (lo == MAP_FAILED)
    _exit(99);
  up = lo;
  down = lo + ARENA;
  const char *e = getenv("PERTURB");
  fill = e ? atoi(e) & 255 : 0;
  const char *s = e ? strchr(e, ' ') : 0;
  mode = s ? s[1] : 'u';
}
static unsigned cls_of(size_t n) { // multiples of 16 to 512, then powers of two
  if (n <= 512)
    return n ? (n + 15) / 16 : 1;
  unsigned c = 33;
  size_t s = 1024;
  while (s < n)
    s *= 2, c++;
  return c;
}
static size_t size_of(unsigned c) { return c <= 32 ? c * 16 : (size_t)1024 << (c - 33); }
static void *take(size_t n, size_t align, int clear) {
  if (fill < 0)
    init();
  if (n > ARENA / 4) {
    errno = ENOMEM;
    return 0;
  }
  unsigned c = cls_of(n);
  size_t s = size_of(c);
  char *p;
  int fresh = 0;
  if (align <= 16 && head[c] && (mode != 'd' || head[c] != tail[c])) {
    p = (char *)head[c];
    head[c] = head[c]->next;
    if (!head[c])
      tail[c] = 0;
  } else {
    fresh = 1;
    int top = mode == 'd';
    if (mode == 'z') {
      rnd ^= rnd << 13, rnd ^= rnd >> 7, rnd ^= rnd << 17;
      top = rnd & 1;
      if (rnd & 2) // a gap
        up += 16 * (rnd >> 4 & 15);
    }
    size_t need = s + 32 + (align > 16 ? align : 0);
    if ((size_t)(down - up) < need) {
      errno = ENOMEM;
      return 0;
    }
    char *b;
    if (top)
      b = down -= (need + 15) & ~(size_t)15;
    else
      b = up, up += (need + 15) & ~(size_t)15;
    p = b + 16;
    if (align > 16)
      p = (char *)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
  }
  struct hdr *h = (struct hdr *)(p - 16);
  h->size = s;
  h->cls = align > 16 ? NCLASS : c;
  if (clear) {
    if (!fresh)
      memset(p, 0, n);
  } else if (mode == 'z') { // words of every kind: small, negative, large
    static uint64_t r = 0x2545f4914f6cdd1dull;
    for (size_t i = 0; i + 8 <= s; i += 8) {
      r ^= r << 13, r ^= r >> 7, r ^= r << 17;
      uint32_t w[2] = {r & 1 ? (uint32_t)(r >> 40 & 7) : (uint32_t)(r >> 8), r & 2 ? fill : (uint32_t)(r >> 24)};
      memcpy(p + i, w, 8);
    }
  } else if (fill || !fresh)
    memset(p, fill, s);
  return p;
}
void *malloc(size_t n) { return take(n, 16, 0); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return 0;
  }
  return take(n, 16, 1);
}
void free(void *v) {
  if (!v || (char *)v < lo || (char *)v >= lo + ARENA)
    return;
  struct hdr *h = (struct hdr *)((char *)v - 16);
  if (h->cls >= NCLASS)
    return;
  memset(v, fill ^ 0x5a, h->size > 4096 ? 4096 : h->size);
  struct node *n = v;
  if (mode == 'd') { // oldest first
    n->next = 0;
    if (tail[h->cls])
      tail[h->cls]->next = n;
    else
      head[h->cls] = n;
    tail[h->cls] = n;
  } else {
    n->next = head[h->cls];
    if (!n->next)
      tail[h->cls] = n;
    head[h->cls] = n;
  }
}
void *realloc(void *v, size_t n) {
  if (!v)
    return malloc(n);
  if (!n) {
    free(v);
    return 0;
  }
  struct hdr *h = (struct hdr *)((char *)v - 16);
  if (n <= h->size)
    return v;
  void *q = malloc(n);
  if (q) {
    memcpy(q, v, h->size);
    free(v);
  }
  return q;
}
int posix_memalign(void **r, size_t a, size_t n) {
  *r = take(n, a, 0);
  return *r ? 0 : ENOMEM;
}
void *aligned_alloc(size_t a, size_t n) { return take(n, a, 0); }
void *memalign(size_t a, size_t n) { return take(n, a, 0); }
size_t malloc_usable_size(void *v) { return v ? ((struct hdr *)((char *)v - 16))->size : 0; }

static long days(void) {
  if (fill < 0)
    init();
  return fill + (mode == 'd' ? 1000 : mode == 'z' ? 3000 : 0);
}
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (!r)
    t->tv_sec += days() * 86400 + days() * 3 + 1, t->tv_nsec = (t->tv_nsec + days() * 1001) % 1000000000;
  return r;
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec, t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t)
    *t = s.tv_sec;
  return s.tv_sec;
}
