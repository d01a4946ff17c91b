/* LD_PRELOAD stand-in for pthread_create and pthread_join that chooses the
   thread schedule. SCHED_MODE:
     delay    every thread starts after a random delay
     barrier  the threads of a batch start together at the first join
     perm     the threads of a batch run one after another, in random order
   No thread waits for more than WAIT_US: the program cannot be blocked.
   SCHED_NPROC: number of processors the program is told of.
   SCHED_CLOCK: seconds added to the calendar time. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXB 4096
#define WAIT_US 20000

static int (*real_create) (pthread_t *, const pthread_attr_t *,
                           void *(*)(void *), void *);
static int (*real_join) (pthread_t, void **);
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cnd = PTHREAD_COND_INITIALIZER;
static int mode, ready;
static unsigned long long state;
static long batch = 0;         /* number of the current batch */
static long count = 0;         /* threads created in it */
static long released = -1;     /* last batch that was released */
static long turn = 0;          /* perm: next position to run */
static int order[MAXB];

static unsigned
rnd (void)
{
  state = state * 6364136223846793005ULL + 1442695040888963407ULL;
  return (unsigned)(state >> 33);
}

static void
init (void)
{
  if (ready)
    return;
  real_create = dlsym (RTLD_NEXT, "pthread_create");
  real_join = dlsym (RTLD_NEXT, "pthread_join");
  const char *m = getenv ("SCHED_MODE"), *s = getenv ("SCHED_SEED");
  mode = !m ? 0 : !strcmp (m, "delay") ? 1 : !strcmp (m, "barrier") ? 2
         : !strcmp (m, "perm") ? 3 : 0;
  state = s ? strtoull (s, 0, 10) * 2654435761ULL + 12345 : 1;
  ready = 1;
}

static long offset (void);

struct job
{
  void *(*f) (void *);
  void *a;
  long batch, index;
  unsigned delay;
};

static void
deadline (struct timespec *t)
{
  clock_gettime (CLOCK_REALTIME, t);
  t->tv_sec -= offset ();
  t->tv_nsec += WAIT_US * 1000L;
  if (t->tv_nsec >= 1000000000L)
    {
      t->tv_nsec -= 1000000000L;
      t->tv_sec += 1;
    }
}

static void *
start (void *p)
{
  struct job j = *(struct job *)p;
  struct timespec t;
  void *r;
  free (p);
  if (mode == 1 && j.delay)
    {
      t.tv_sec = 0;
      t.tv_nsec = j.delay;
      nanosleep (&t, 0);
    }
  if (mode >= 2)
    {
      deadline (&t);
      pthread_mutex_lock (&mtx);
      while (released < j.batch
             || (mode == 3 && released == j.batch && j.index < MAXB
                 && order[j.index] > turn))
        if (pthread_cond_timedwait (&cnd, &mtx, &t) == ETIMEDOUT)
          break;
      pthread_mutex_unlock (&mtx);
    }
  r = j.f (j.a);
  if (mode == 3)
    {
      pthread_mutex_lock (&mtx);
      if (released == j.batch)
        ++turn;
      pthread_cond_broadcast (&cnd);
      pthread_mutex_unlock (&mtx);
    }
  return r;
}

int
pthread_create (pthread_t *t, const pthread_attr_t *at, void *(*f) (void *),
                void *a)
{
  struct job *j = malloc (sizeof *j);
  init ();
  pthread_mutex_lock (&mtx);
  j->f = f;
  j->a = a;
  j->batch = batch;
  j->index = count++;
  j->delay = rnd () % 4 ? 0 : rnd () % 300000;
  pthread_mutex_unlock (&mtx);
  return real_create (t, at, start, j);
}

int
pthread_join (pthread_t t, void **r)
{
  init ();
  pthread_mutex_lock (&mtx);
  if (count > 0)
    {
      long n = count < MAXB ? count : MAXB;
      for (long i = 0; i < n; ++i)
        order[i] = i;
      for (long i = n - 1; i > 0; --i)
        {
          long k = rnd () % (i + 1);
          int x = order[i];
          order[i] = order[k];
          order[k] = x;
        }
      turn = 0;
      released = batch++;
      count = 0;
      pthread_cond_broadcast (&cnd);
    }
  pthread_mutex_unlock (&mtx);
  return real_join (t, r);
}

static long
processors (void)
{
  const char *s = getenv ("SCHED_NPROC");
  return s ? atol (s) : 0;
}

int
get_nprocs (void)
{
  static int (*real) (void);
  long n = processors ();
  if (n > 0)
    return (int)n;
  if (!real)
    real = dlsym (RTLD_NEXT, "get_nprocs");
  return real ();
}

int
get_nprocs_conf (void)
{
  static int (*real) (void);
  long n = processors ();
  if (n > 0)
    return (int)n;
  if (!real)
    real = dlsym (RTLD_NEXT, "get_nprocs_conf");
  return real ();
}

long
sysconf (int name)
{
  static long (*real) (int);
  long n;
  if ((name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)
      && (n = processors ()) > 0)
    return n;
  if (!real)
    real = dlsym (RTLD_NEXT, "sysconf");
  return real (name);
}

static long
offset (void)
{
  const char *s = getenv ("SCHED_CLOCK");
  return s ? atol (s) : 0;
}

int
clock_gettime (clockid_t c, struct timespec *t)
{
  static int (*real) (clockid_t, struct timespec *);
  int r;
  if (!real)
    real = dlsym (RTLD_NEXT, "clock_gettime");
  r = real (c, t);
  if (r == 0 && c == CLOCK_REALTIME)
    t->tv_sec += offset ();
  return r;
}

time_t
time (time_t *t)
{
  struct timespec s;
  clock_gettime (CLOCK_REALTIME, &s);
  if (t)
    *t = s.tv_sec;
  return s.tv_sec;
}
