// Delays at points of synchronization, so that threads meet in unusual orders.
// Preloaded into the server; PERTURB_SEED chooses the delays.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static uint64_t seed;
static unsigned level; // of 1024 points
static unsigned threads;
static __thread uint64_t state;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("PERTURB_SEED"), *l = getenv("PERTURB_LEVEL");
  seed = s ? strtoull(s, 0, 10) : 0;
  level = l ? strtoul(l, 0, 10) : 60;
  unsetenv("LD_PRELOAD"); // not in workers
}

static void nap(long ns) {
  struct timespec t = {0, ns};
  clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0);
}

static void point(void) {
  if (!seed)
    return;
  if (!state)
    state = ((seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)__sync_add_and_fetch(&threads, 1) << 32)) | 1;
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  unsigned k = (state >> 20) & 1023;
  if (k >= level)
    return;
  switch ((state >> 40) & 7) {
  case 0: case 1: case 2: case 3:
    sched_yield();
    break;
  case 4: case 5:
    nap(20000);
    break;
  case 6:
    nap(300000);
    break;
  default:
    nap(3000000);
  }
}

#define NEXT(name) \
  static __typeof__(&name) real; \
  if (!real) \
    real = (__typeof__(real))dlsym(RTLD_NEXT, #name)

int pthread_mutex_lock(pthread_mutex_t *m) {
  NEXT(pthread_mutex_lock);
  point();
  return real(m);
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
  NEXT(pthread_mutex_unlock);
  int r = real(m);
  point();
  return r;
}

int pthread_cond_signal(pthread_cond_t *c) {
  NEXT(pthread_cond_signal);
  point();
  return real(c);
}

int pthread_cond_broadcast(pthread_cond_t *c) {
  NEXT(pthread_cond_broadcast);
  point();
  return real(c);
}
