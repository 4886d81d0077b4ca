/*
 * Conformance harness for WAYUU.
 *
 * Links the project's own objects (their references to a set of system functions are renamed to vw_* with
 * objcopy, see build.py) and drives them through public entry points only: ws_launch, router_add_route and the
 * configuration globals of ws.h / http_utils.h.  Two modes:
 *
 *   free       real threads running freely; one exchange at a time, commanded over stdin (ASan build)
 *   scheduled  real threads, but only the one holding the baton runs; the scheduler decides at every lock,
 *              condition variable, system call and shared memory access who runs next ("scn"/"run" commands)
 *
 * The harness only records.  What was right or wrong is decided by TLC on the recorded trace.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <openssl/err.h>
#include <openssl/ssl.h>

#include "ws.h"
#include "router.h"
#include "http_utils.h"
#include "json_utils.h"
#include "log.h"


#define MAXFD 70000
#define FAKE_BASE 40000
#define MAXC 8192
#define MAXTHR 260

typedef struct vconn
{
  double lazy; /* its client does not read before this time */
  int id, sfd, cfd, accepted, closes, gone, denied, fake;
  char ip[32];
  unsigned char *in;
  size_t nin, capin;
  int eof;
  int owner; /* thread serving it, -1 none */
  int nseg, seg, phase, started_cli, hold, inhandler;
  char mode; /* n(orm) s(hut) a(bort) */
  unsigned char **segs;
  int *seglen;
  int accept_errno; /* entry is an accept failure */
  int rcvto;        /* receive time-out the server has set, ms */
  volatile int inrecv;        /* the server waits for bytes */
  volatile unsigned nrecv;
} vconn;

/* The server's clock: the real one plus what the driver has skipped. Everything the server waits for with a time-out is
   over when this clock says so. */
static volatile long long skew_ms;
static long long vclock(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000LL + t.tv_nsec / 1000000 + skew_ms;
}
time_t vw_time(time_t *t)
{
  struct timespec n;
  clock_gettime(CLOCK_REALTIME, &n);
  time_t r = (n.tv_sec * 1000LL + n.tv_nsec / 1000000 + skew_ms) / 1000;
  if (t)
    *t = r;
  return r;
}
int vw_clock_gettime(clockid_t c, struct timespec *t)
{
  int r = clock_gettime(c, t);
  if (!r && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID)
  {
    t->tv_sec += skew_ms / 1000;
    t->tv_nsec += skew_ms % 1000 * 1000000;
    if (t->tv_nsec >= 1000000000)
      t->tv_sec++, t->tv_nsec -= 1000000000;
  }
  return r;
}
int vw_gettimeofday(struct timeval *v, void *z)
{
  struct timespec t;
  vw_clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
static void vsleep(long long ms)
{
  long long t0 = vclock();
  while (vclock() - t0 < ms)
    usleep(ms < 5 ? ms * 1000 : 1000);
}

static vconn *conns[MAXC];
static int nconns;
static vconn *fdconn[MAXFD];
static char fdother[MAXFD];
static int client_fd_base = 10000;

/* ------------------------------------------------------------------ event log */
static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
static char *evbuf;
static size_t evlen, evcap;
static int ev_ctx = 1; /* log full contexts of handlers */

static void evraw(const char *s, size_t n)
{
  if (evlen + n + 1 > evcap)
  {
    evcap = (evlen + n + 1) * 2 + 65536;
    evbuf = realloc(evbuf, evcap);
  }
  memcpy(evbuf + evlen, s, n);
  evlen += n;
  evbuf[evlen] = 0;
}

static void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char *fmt, ...)
{
  char *s = NULL;
  va_list ap;
  va_start(ap, fmt);
  int n = vasprintf(&s, fmt, ap);
  va_end(ap);
  pthread_mutex_lock(&evm);
  evraw(s, n);
  evraw("\n", 1);
  pthread_mutex_unlock(&evm);
  free(s);
}

static int main_mode; /* the program's own main() runs */
static int proto_fd = 1; /* where the events go */
static void wr_all(int fd, const char *p, size_t n)
{
  while (n)
  {
    ssize_t k = write(fd, p, n);
    if (k < 0)
    {
      if (errno == EINTR)
        continue;
      _exit(97);
    }
    p += k;
    n -= k;
  }
}

static void flush_events(void)
{
  pthread_mutex_lock(&evm);
  wr_all(proto_fd, evbuf ? evbuf : "", evlen);
  evlen = 0;
  pthread_mutex_unlock(&evm);
}

static char *hexs(const void *p, size_t n)
{
  static const char d[] = "0123456789abcdef";
  const unsigned char *b = p;
  char *o = malloc(2 * n + 2);
  for (size_t i = 0; i < n; i++)
  {
    o[2 * i] = d[b[i] >> 4];
    o[2 * i + 1] = d[b[i] & 15];
  }
  o[2 * n] = 0;
  return o;
}

static int hv(int c)
{
  return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}

static unsigned char *unhex(const char *s, int *n)
{
  if (!strcmp(s, "-"))
  {
    *n = 0;
    return calloc(1, 1);
  }
  int l = strlen(s) / 2;
  unsigned char *o = malloc(l + 1);
  for (int i = 0; i < l; i++)
    o[i] = hv(s[2 * i]) * 16 + hv(s[2 * i + 1]);
  o[l] = 0;
  *n = l;
  return o;
}

/* ------------------------------------------------------------------ scheduler */
enum { R_RUN, R_MUTEX, R_COND, R_ACCEPT, R_READ, R_HOLD, R_PHASE, R_DONE, R_RWLOCK, R_SEM };
enum { K_READ, K_WRITE, K_SYNC, K_LIBC };

typedef struct thr
{
  int id, state, role; /* role 0 env, 1 acceptor, 2 worker */
  void *obj;
  int fd, prio;
  int woken, stall;
  sem_t sem;
  pthread_t real;
  void *(*fn)(void *);
  void *arg;
  vconn *cur;
} thr;

static thr *thrs[MAXTHR];
static int nthr;
static __thread thr *me;
static volatile int sched_on;
static int maxworkers = 4;
static uint64_t rng;

static uint32_t rnd(void)
{
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return (uint32_t)(rng >> 20);
}

static uint64_t splitmix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return (x ^ (x >> 31)) | 1;
}

typedef struct mtx { void *addr; thr *owner; int rd; } mtx;
static mtx mtxs[512];
static int nmtx;
static mtx *getm(void *a)
{
  for (int i = 0; i < nmtx; i++)
    if (mtxs[i].addr == a)
      return &mtxs[i];
  if (nmtx == 512)
    nmtx = 0;
  mtxs[nmtx].addr = a;
  mtxs[nmtx].owner = NULL;
  mtxs[nmtx].rd = 0;
  return &mtxs[nmtx++];
}

/* strategy */
static int strat; /* 0 random walk, 1 pct, 2 targeted preemptions, 3 random walk with stalls */
static int stall_p, stall_close;
static int prob[4];
static uint64_t nsteps;
static uint64_t chg[8];
static int nchg;
#define KMAX (1 << 20)
static unsigned char *kinds; /* shared: kinds of the baseline run's steps */
static uint64_t *nkinds;
static int baseline;
static int spurious_p;

static int runnable(thr *t)
{
  struct pollfd p;
  mtx *m;
  switch (t->state)
  {
  case R_RUN:
    return 1;
  case R_MUTEX:
    m = getm(t->obj);
    return m->owner == NULL && m->rd == 0;
  case R_RWLOCK:
    m = getm(t->obj);
    return m->owner == NULL;
  case R_SEM:
    return getm(t->obj)->rd > 0;
  case R_COND:
    return t->woken;
  case R_ACCEPT:
    return t->woken;
  case R_READ:
    p.fd = t->fd;
    p.events = POLLIN;
    return poll(&p, 1, 0) != 0;
  }
  return 0;
}

static void finish_run(const char *why);

static void switch_to(thr *n)
{
  thr *m = me;
  if (n == m)
    return;
  sem_post(&n->sem);
  while (sem_wait(&m->sem) < 0)
    ;
}

static int all_prior_closed(int phase)
{
  for (int i = 0; i < nconns; i++)
    if (conns[i]->phase < phase && !conns[i]->accept_errno && !conns[i]->closes)
      return 0;
  return 1;
}

/* chooses who runs next; the caller's own state is already set */
static thr *pick(int exclude_me)
{
  thr *cand[MAXTHR];
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (!(exclude_me && thrs[i] == me) && runnable(thrs[i]))
      cand[n++] = thrs[i];
  if (n == 0 && exclude_me && runnable(me))
    return me;
  if (n == 0)
  {
    /* nothing can run: release one held handler, else advance the environment's phase */
    for (int i = 0; i < nthr; i++)
      if (thrs[i]->state == R_HOLD)
        cand[n++] = thrs[i];
    if (n)
    {
      thr *t = cand[rnd() % n];
      ev("{\"e\":\"still\"}");
      t->state = R_RUN;
      return t;
    }
    for (int i = 0; i < nthr; i++)
      if (thrs[i]->state == R_PHASE)
      {
        thrs[i]->state = R_RUN;
        return thrs[i];
      }
    return NULL;
  }
  if (strat == 3)
  {
    /* stalled threads run when no other can */
    thr *awake[MAXTHR];
    int m = 0;
    for (int i = 0; i < n; i++)
      if (!cand[i]->stall)
        awake[m++] = cand[i];
    thr *t = m ? awake[rnd() % m] : cand[rnd() % n];
    t->stall = 0;
    return t;
  }
  if (strat == 1)
  {
    thr *b = cand[0];
    for (int i = 1; i < n; i++)
      if (cand[i]->prio > b->prio)
        b = cand[i];
    return b;
  }
  return cand[rnd() % n];
}

static void block_or_switch(int exclude_me)
{
  thr *n = pick(exclude_me);
  if (n == NULL)
  {
    finish_run("quiescent");
  }
  switch_to(n);
}

static void sched_point(int kind)
{
  if (!sched_on || !me)
    return;
  uint64_t s = nsteps++;
  if (baseline && s < KMAX)
  {
    kinds[s] = kind;
    *nkinds = s + 1;
  }
  if (nsteps > 3000000)
    finish_run("steps");
  if (strat == 0)
  {
    if ((int)(rnd() % 10000) < prob[kind])
      block_or_switch(1);
  }
  else if (strat == 3)
  {
    if (kind == K_SYNC)
    {
      if ((int)(rnd() % 1000) < stall_p)
        me->stall = 1;
      if (me->stall || rnd() % 4 == 0)
        block_or_switch(0);
    }
  }
  else if (strat == 1)
  {
    for (int i = 0; i < nchg; i++)
      if (chg[i] == s)
        me->prio = -1 - (int)i;
    if (kind == K_SYNC || kind == K_WRITE)
      block_or_switch(0);
    else
      for (int i = 0; i < nchg; i++)
        if (chg[i] == s)
          block_or_switch(0);
  }
  else
  {
    for (int i = 0; i < nchg; i++)
      if (chg[i] == s)
      {
        block_or_switch(1);
        break;
      }
  }
}

static void wait_state(int st, void *obj)
{
  me->state = st;
  me->obj = obj;
  me->woken = 0;
  block_or_switch(0);
  me->state = R_RUN;
}

/* ------------------------------------------------------------------ threads of the server */
static int fw_created, fw_idle, fw_acc_idle; /* free mode bookkeeping */
static __thread vconn *cur_free;

static void set_cur(vconn *c)
{
  if (me)
    me->cur = c;
  else
    cur_free = c;
}
static vconn *get_cur(void)
{
  return me ? me->cur : cur_free;
}
static __thread int free_tid;
static int free_tids;
static int mytid(void)
{
  if (me)
    return me->id;
  if (!free_tid)
    free_tid = __sync_add_and_fetch(&free_tids, 1);
  return free_tid;
}

static void *thr_main(void *a)
{
  me = a;
  while (sem_wait(&me->sem) < 0)
    ;
  me->fn(me->arg);
  me->state = R_DONE;
  thr *n = pick(0);
  if (!n)
    finish_run("quiescent");
  sem_post(&n->sem);
  for (;;)
    pause();
  return NULL;
}

static thr *new_thr(int role, void *(*fn)(void *), void *arg)
{
  thr *t = calloc(1, sizeof *t);
  t->id = nthr;
  t->role = role;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000 + rnd() % 1000000;
  sem_init(&t->sem, 0, 0);
  thrs[nthr++] = t;
  return t;
}

static void start_thr(thr *t)
{
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (pthread_create(&t->real, &at, thr_main, t))
    _exit(96);
}

static int workers_seen;
typedef struct { void *(*fn)(void *); void *arg; } fthr;
static void *free_main(void *a)
{
  fthr f = *(fthr *)a;
  free(a);
  return f.fn(f.arg);
}

static int fw_max; /* threads a free running server gets, 0: all */
int vw_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
  workers_seen++;
  if (sched_on)
  {
    if (workers_seen > maxworkers)
    {
      /* a pool member that is never scheduled: same as one that waits and is never the one woken */
      *t = pthread_self();
      return 0;
    }
    thr *n = new_thr(2, fn, arg);
    start_thr(n);
    *t = n->real;
    sched_point(K_SYNC);
    return 0;
  }
  if (fw_max && fw_created >= fw_max)
    return 0;
  fthr *f = malloc(sizeof *f);
  f->fn = fn;
  f->arg = arg;
  __sync_add_and_fetch(&fw_created, 1);
  return pthread_create(t, at, free_main, f);
}

pthread_t vw_pthread_self(void) { return pthread_self(); }

int vw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return pthread_mutex_init(m, a); }
int vw_pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!sched_on || !me)
    return pthread_mutex_lock(m);
  sched_point(K_SYNC);
  mtx *x = getm(m);
  while (x->owner || x->rd)
  {
    if (x->owner == me)
    {
      ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"relock\"}", me->id);
      finish_run("selfdeadlock");
    }
    wait_state(R_MUTEX, m);
    x = getm(m);
  }
  x->owner = me;
  return 0;
}
int vw_pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!sched_on || !me)
    return pthread_mutex_trylock(m);
  sched_point(K_SYNC);
  mtx *x = getm(m);
  if (x->owner || x->rd)
    return EBUSY;
  x->owner = me;
  return 0;
}
int vw_pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!sched_on || !me)
    return pthread_mutex_unlock(m);
  mtx *x = getm(m);
  if (x->owner == me)
    x->owner = NULL;
  sched_point(K_SYNC);
  return 0;
}
int vw_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  if (!sched_on || !me)
    return pthread_rwlock_rdlock(m);
  sched_point(K_SYNC);
  mtx *x = getm(m);
  while (x->owner)
  {
    wait_state(R_RWLOCK, m);
    x = getm(m);
  }
  x->rd++;
  return 0;
}
int vw_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  if (!sched_on || !me)
    return pthread_rwlock_wrlock(m);
  sched_point(K_SYNC);
  mtx *x = getm(m);
  while (x->owner || x->rd)
  {
    wait_state(R_MUTEX, m);
    x = getm(m);
  }
  x->owner = me;
  return 0;
}
int vw_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  if (!sched_on || !me)
    return pthread_rwlock_unlock(m);
  mtx *x = getm(m);
  if (x->owner == me)
    x->owner = NULL;
  else if (x->rd)
    x->rd--;
  sched_point(K_SYNC);
  return 0;
}
int vw_pthread_spin_lock(pthread_spinlock_t *m)
{
  if (!sched_on || !me)
    return pthread_spin_lock(m);
  return vw_pthread_mutex_lock((pthread_mutex_t *)m);
}
int vw_pthread_spin_unlock(pthread_spinlock_t *m)
{
  if (!sched_on || !me)
    return pthread_spin_unlock(m);
  return vw_pthread_mutex_unlock((pthread_mutex_t *)m);
}
/* semaphores: count kept in rd, initialised from the real one */
static mtx *getsem(sem_t *s)
{
  for (int i = 0; i < nmtx; i++)
    if (mtxs[i].addr == (void *)s)
      return &mtxs[i];
  mtx *x = getm(s);
  sem_getvalue(s, &x->rd);
  return x;
}
int vw_sem_wait(sem_t *s)
{
  if (!sched_on || !me)
  {
    __sync_add_and_fetch(&fw_idle, 1);
    int r = sem_wait(s);
    __sync_sub_and_fetch(&fw_idle, 1);
    return r;
  }
  sched_point(K_SYNC);
  getsem(s);
  while (getsem(s)->rd <= 0)
    wait_state(R_SEM, s);
  getsem(s)->rd--;
  return 0;
}
int vw_sem_trywait(sem_t *s)
{
  if (!sched_on || !me)
    return sem_trywait(s);
  sched_point(K_SYNC);
  if (getsem(s)->rd <= 0)
  {
    errno = EAGAIN;
    return -1;
  }
  getsem(s)->rd--;
  return 0;
}
int vw_sem_post(sem_t *s)
{
  if (!sched_on || !me)
    return sem_post(s);
  getsem(s)->rd++;
  sched_point(K_SYNC);
  return 0;
}

static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
  sched_point(K_SYNC);
  mtx *x = getm(m);
  if (x->owner == me)
    x->owner = NULL;
  me->state = R_COND;
  me->obj = c;
  me->woken = 0;
  if (timed)
    me->woken = 1;
  else if (spurious_p && (int)(rnd() % 100) < spurious_p)
    me->woken = 1; /* POSIX allows spurious wake-ups */
  block_or_switch(0);
  me->state = R_RUN;
  x = getm(m);
  while (x->owner || x->rd)
  {
    wait_state(R_MUTEX, m);
    x = getm(m);
  }
  x->owner = me;
  return 0;
}
int vw_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  if (!sched_on || !me)
  {
    __sync_add_and_fetch(&fw_idle, 1);
    int r = pthread_cond_wait(c, m);
    __sync_sub_and_fetch(&fw_idle, 1);
    return r;
  }
  return cond_wait_common(c, m, 0);
}
int vw_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
  if (!sched_on || !me)
  {
    __sync_add_and_fetch(&fw_idle, 1);
    struct timespec v, w;
    int r;
    do
    {
      vw_clock_gettime(CLOCK_REALTIME, &v);
      if (v.tv_sec > ts->tv_sec || (v.tv_sec == ts->tv_sec && v.tv_nsec >= ts->tv_nsec))
      {
        r = ETIMEDOUT;
        break;
      }
      clock_gettime(CLOCK_REALTIME, &w);
      w.tv_nsec += 2000000;
      if (w.tv_nsec >= 1000000000)
        w.tv_sec++, w.tv_nsec -= 1000000000;
      r = pthread_cond_timedwait(c, m, &w);
    } while (r == ETIMEDOUT);
    __sync_sub_and_fetch(&fw_idle, 1);
    return r;
  }
  cond_wait_common(c, m, 1);
  return ETIMEDOUT;
}
int vw_pthread_cond_signal(pthread_cond_t *c)
{
  if (!sched_on || !me)
    return pthread_cond_signal(c);
  thr *w[MAXTHR];
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (thrs[i]->state == R_COND && thrs[i]->obj == c && !thrs[i]->woken)
      w[n++] = thrs[i];
  if (n)
    w[rnd() % n]->woken = 1;
  sched_point(K_SYNC);
  return 0;
}
int vw_pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!sched_on || !me)
    return pthread_cond_broadcast(c);
  for (int i = 0; i < nthr; i++)
    if (thrs[i]->state == R_COND && thrs[i]->obj == c)
      thrs[i]->woken = 1;
  sched_point(K_SYNC);
  return 0;
}
int vw_usleep(useconds_t u)
{
  if (sched_on && me)
  {
    block_or_switch(1);
    return 0;
  }
  if (u < 20000)
    return usleep(u);
  vsleep(u / 1000);
  return 0;
}
unsigned vw_sleep(unsigned s)
{
  if (sched_on && me)
  {
    block_or_switch(1);
    return 0;
  }
  vsleep(s * 1000LL);
  return 0;
}
int vw_nanosleep(const struct timespec *a, struct timespec *b)
{
  if (sched_on && me)
  {
    block_or_switch(1);
    return 0;
  }
  vsleep(a->tv_sec * 1000LL + a->tv_nsec / 1000000);
  return 0;
}
int vw_sched_yield(void)
{
  if (sched_on && me)
    block_or_switch(1);
  return 0;
}

/* ------------------------------------------------------------------ connections */
static int high_fd(int fd)
{
  int h = fcntl(fd, F_DUPFD_CLOEXEC, client_fd_base);
  close(fd);
  return h;
}

static void make_pair(vconn *c)
{
  if (c->fake)
  {
    c->sfd = FAKE_BASE + c->id;
    c->cfd = -1;
    fdconn[c->sfd] = c;
    return;
  }
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0)
  {
    perror("socketpair");
    _exit(95);
  }
  if (c->lazy)
  {
    int n = 4096;
    setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
  }
  /* the server gets the lowest free number, as accept() would give it */
  int h = high_fd(sv[1]);
  c->sfd = sv[0];
  c->cfd = h;
  fdconn[c->sfd] = c;
}

static double now(void);
static void drain(vconn *c)
{
  if (c->cfd < 0 || c->lazy && !c->closes && now() < c->lazy)
    return;
  for (;;)
  {
    if (c->nin + 65536 > c->capin)
    {
      c->capin = c->capin * 2 + 131072;
      c->in = realloc(c->in, c->capin);
    }
    ssize_t k = recv(c->cfd, c->in + c->nin, 65536, MSG_DONTWAIT);
    if (k > 0)
      c->nin += k;
    else
    {
      if (k == 0)
        c->eof = 1;
      else if (errno == ECONNRESET)
        c->eof = 2;
      break;
    }
  }
}

static int status_of(vconn *c)
{
  int st = 0;
  if (c->nin >= 12 && !memcmp(c->in, "HTTP/1.", 7))
    st = atoi((char *)c->in + 9);
  return st;
}

/* pending connections for accept: queue of indices */
static int pend[MAXC], pend_h, pend_t;
static pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t pc = PTHREAD_COND_INITIALIZER;

static void push_pending(vconn *c)
{
  pthread_mutex_lock(&pm);
  for (int i = 0; i < nconns; i++)
    if (conns[i] == c)
      pend[pend_t++ % MAXC] = i;
  pthread_cond_broadcast(&pc);
  pthread_mutex_unlock(&pm);
}

static int acceptor_tid = -1;

int vw_accept(int lfd, struct sockaddr *addr, socklen_t *len)
{
  vconn *c;
  set_cur(NULL);
  acceptor_tid = mytid();
  if (sched_on)
  {
    sched_point(K_SYNC);
    while (pend_h == pend_t)
      wait_state(R_ACCEPT, NULL);
    c = conns[pend[pend_h++ % MAXC]];
  }
  else
  {
    pthread_mutex_lock(&pm);
    while (pend_h == pend_t)
    {
      fw_acc_idle = 1;
      pthread_cond_broadcast(&pc);
      pthread_cond_wait(&pc, &pm);
    }
    fw_acc_idle = 0;
    c = conns[pend[pend_h++ % MAXC]];
    pthread_mutex_unlock(&pm);
  }
  if (c->accept_errno)
  {
    ev("{\"e\":\"accfail\",\"errno\":%d}", c->accept_errno);
    c->accepted = c->closes = 1;
    errno = c->accept_errno;
    return -1;
  }
  if (sched_on)
  {
    /* data the client has sent before it was accepted */
    make_pair(c);
    if (!c->fake)
    {
      int upto = c->seg;
      for (int i = 0; i < upto; i++)
        send(c->cfd, c->segs[i], c->seglen[i], MSG_NOSIGNAL | MSG_DONTWAIT);
      if (c->gone == 1)
        shutdown(c->cfd, SHUT_WR);
      if (c->gone == 2)
      {
        close(c->cfd);
        c->cfd = -1;
      }
    }
  }
  else
    make_pair(c);
  c->owner = -1;
  if (addr)
  {
    struct sockaddr_in *a = (struct sockaddr_in *)addr;
    memset(a, 0, sizeof *a);
    a->sin_family = AF_INET;
    a->sin_port = htons(40000);
    inet_aton(c->ip, &a->sin_addr);
    if (len)
      *len = sizeof *a;
  }
  ev("{\"e\":\"acc\",\"t\":%d,\"c\":%d,\"fd\":%d}", mytid(), c->id, c->sfd);
  __sync_synchronize();
  c->accepted = 1;
  return c->sfd;
}
int vw_accept4(int lfd, struct sockaddr *addr, socklen_t *len, int fl) { return vw_accept(lfd, addr, len); }

static void touch(int fd, const char *op)
{
  if (fd < 0 || fd >= MAXFD)
  {
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"%s\",\"fd\":%d}", mytid(), op, fd);
    return;
  }
  if (fdother[fd])
    return;
  vconn *c = fdconn[fd];
  if (!c)
  {
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"%s\",\"fd\":%d}", mytid(), op, fd);
    return;
  }
  if (c->owner == -1 && mytid() == acceptor_tid)
  {
    set_cur(c);
    return;
  }
  if (c->owner == -1)
  {
    c->owner = mytid();
    set_cur(c);
    ev("{\"e\":\"touch\",\"t\":%d,\"c\":%d}", mytid(), c->id);
  }
  else if (c->owner != mytid())
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"%s\",\"fd\":%d,\"c\":%d}", mytid(), op, fd, c->id);
}

static void out_touch(int fd, const char *op)
{
  if (fd < 0 || fd >= MAXFD || fdother[fd])
    return;
  vconn *c = fdconn[fd];
  if (!c || (c->owner != mytid()))
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"%s\",\"fd\":%d,\"c\":%d}", mytid(), op, fd, c ? c->id : -1);
}

int vw_getpeername(int fd, struct sockaddr *addr, socklen_t *len)
{
  if (!sched_on || me)
    sched_point(K_SYNC);
  touch(fd, "getpeername");
  vconn *c = (fd >= 0 && fd < MAXFD) ? fdconn[fd] : NULL;
  if (!c)
  {
    errno = EBADF;
    return -1;
  }
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons(40000);
  inet_aton(c->ip, &a.sin_addr);
  memcpy(addr, &a, *len < sizeof a ? *len : sizeof a);
  *len = sizeof a;
  return 0;
}

static void wait_readable(int fd)
{
  if (!sched_on || !me)
    return;
  struct pollfd p = {fd, POLLIN, 0};
  if (poll(&p, 1, 0) == 0)
  {
    me->fd = fd;
    wait_state(R_READ, NULL);
  }
}

static int recv_points; /* yield at every n-th received byte only */
ssize_t vw_recv(int fd, void *b, size_t n, int fl)
{
  if ((recv_points++ & 15) == 0)
    sched_point(K_SYNC);
  touch(fd, "recv");
  if (fd < 0 || fd >= MAXFD || !fdconn[fd] || fdconn[fd]->fake)
  {
    errno = EBADF;
    return -1;
  }
  wait_readable(fd);
  vconn *rc = fdconn[fd];
  rc->nrecv++;
  rc->inrecv = 1;
  if (!sched_on && rc->rcvto > 0 && !(fl & MSG_DONTWAIT))
  {
    long long t0 = vclock();
    struct pollfd p = {fd, POLLIN, 0};
    while (poll(&p, 1, 1) == 0)
      if (vclock() - t0 >= rc->rcvto)
      {
        rc->inrecv = 0;
        errno = EAGAIN;
        return -1;
      }
  }
  ssize_t k = recv(fd, b, n, fl);
  rc->inrecv = 0;
  return k;
}
ssize_t vw_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { return vw_recv(fd, b, n, fl); }
ssize_t vw_read(int fd, void *b, size_t n)
{
  if (fd >= 0 && fd < MAXFD && fdconn[fd])
    return vw_recv(fd, b, n, 0);
  return read(fd, b, n);
}
int vw_poll(struct pollfd *p, nfds_t n, int to)
{
  if (sched_on && me && n == 1 && p[0].fd >= 0 && p[0].fd < MAXFD && fdconn[p[0].fd])
  {
    touch(p[0].fd, "poll");
    if (to != 0)
      wait_readable(p[0].fd);
    return poll(p, n, 0);
  }
  if (to <= 0)
    return poll(p, n, to);
  long long t0 = vclock();
  int r;
  while ((r = poll(p, n, 1)) == 0 && vclock() - t0 < to)
    ;
  return r;
}
int vw_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *to)
{
  if (!to)
    return select(n, r, w, x, to);
  long long t0 = vclock(), ms = to->tv_sec * 1000LL + to->tv_usec / 1000;
  fd_set a, b, c;
  for (;;)
  {
    struct timeval z = {0, 1000};
    if (r) a = *r;
    if (w) b = *w;
    if (x) c = *x;
    int k = select(n, r ? &a : NULL, w ? &b : NULL, x ? &c : NULL, &z);
    if (k != 0 || vclock() - t0 >= ms)
    {
      if (r) *r = a;
      if (w) *w = b;
      if (x) *x = c;
      return k;
    }
  }
}

ssize_t vw_send(int fd, const void *b, size_t n, int fl)
{
  sched_point(K_SYNC);
  out_touch(fd, "send");
  if (fd < 0 || fd >= MAXFD || !fdconn[fd] || fdconn[fd]->fake)
  {
    errno = EBADF;
    return -1;
  }
  vconn *c = fdconn[fd];
  if (!sched_on)
    return send(fd, b, n, fl);
  size_t done = 0;
  while (done < n)
  {
    ssize_t k = send(fd, (const char *)b + done, n - done, MSG_DONTWAIT | MSG_NOSIGNAL);
    if (k >= 0)
      done += k;
    else if (errno == EAGAIN || errno == EWOULDBLOCK)
      drain(c);
    else
      return done ? (ssize_t)done : -1;
  }
  return done;
}
ssize_t vw_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return vw_send(fd, b, n, fl); }
ssize_t vw_write(int fd, const void *b, size_t n)
{
  if (fd >= 0 && fd < MAXFD && fdconn[fd])
    return vw_send(fd, b, n, 0);
  return write(fd, b, n);
}

int vw_shutdown(int fd, int how)
{
  sched_point(K_SYNC);
  out_touch(fd, "shutdown");
  if (fd >= 0 && fd < MAXFD && fdconn[fd] && fdconn[fd]->fake)
    return 0;
  return shutdown(fd, how);
}

int vw_close(int fd)
{
  sched_point(K_SYNC);
  if (fd >= 0 && fd < MAXFD && fdconn[fd])
  {
    vconn *c = fdconn[fd];
    if (sched_on)
      drain(c);
    ev("{\"e\":\"close\",\"t\":%d,\"c\":%d,\"fd\":%d,\"st\":%d,\"own\":%d}", mytid(), c->id, fd, sched_on ? status_of(c) : -1,
       c->owner == mytid() ? 1 : c->owner == -1 ? 0 : 2);
    fdconn[fd] = NULL;
    c->sfd = -1;
    int r = 0;
    if (!c->fake)
      r = close(fd);
    if (c->owner == mytid())
      set_cur(NULL);
    __sync_synchronize();
    c->closes++;
    if (sched_on && strat == 3 && (int)(rnd() % 1000) < stall_close)
      me->stall = 1;
    sched_point(K_SYNC);
    return r;
  }
  if (fd >= 0 && fd < MAXFD && fdother[fd])
  {
    fdother[fd] = 0;
    return close(fd);
  }
  ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"close\",\"fd\":%d}", mytid(), fd);
  errno = EBADF;
  return -1;
}

int vw_socket(int a, int b, int c)
{
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  if (fd >= 0 && fd < MAXFD)
    fdother[fd] = 1;
  return fd;
}
static int bind_errno;
int vw_bind(int a, const struct sockaddr *b, socklen_t c)
{
  if (main_mode)
  {
    const struct sockaddr_in *i = (const void *)b;
    ev("{\"e\":\"bind\",\"ip\":\"%s\",\"port\":%d}", inet_ntoa(i->sin_addr), ntohs(i->sin_port));
    if (bind_errno)
    {
      errno = bind_errno;
      return -1;
    }
  }
  return 0;
}
int vw_listen(int a, int b) { return 0; }
int vw_setsockopt(int fd, int lv, int op, const void *d, socklen_t e)
{
  if (fd >= 0 && fd < MAXFD && fdconn[fd] && !fdconn[fd]->fake && lv == SOL_SOCKET && op == SO_RCVTIMEO && e >= sizeof(struct timeval))
  {
    const struct timeval *v = d;
    fdconn[fd]->rcvto = v->tv_sec * 1000 + v->tv_usec / 1000;
  }
  return 0;
}

static int ssl_live; /* TLS connections that were created and not released */
SSL *vw_SSL_new(SSL_CTX *c)
{
  SSL *s = SSL_new(c);
  if (s)
    __sync_fetch_and_add(&ssl_live, 1);
  return s;
}
void vw_SSL_free(SSL *s)
{
  if (s)
    __sync_fetch_and_sub(&ssl_live, 1);
  SSL_free(s);
}
int vw_SSL_set_fd(SSL *s, int fd)
{
  touch(fd, "ssl");
  return SSL_set_fd(s, fd);
}

/* ------------------------------------------------------------------ files: /var/log and the upload folder go to the scratch root */
static char scratch[512];
static const char *mp(const char *p, char *b)
{
  if (!strncmp(p, "/var/log/", 9))
    sprintf(b, "%s/log/%.400s", scratch, p + 9);
  else if (!strcmp(p, FILE_DOWNLOAD_TMP_DIR))
    sprintf(b, "%s/up", scratch);
  else if (!strncmp(p, FILE_DOWNLOAD_TMP_DIR "/", strlen(FILE_DOWNLOAD_TMP_DIR) + 1))
    sprintf(b, "%s/up/%.400s", scratch, p + strlen(FILE_DOWNLOAD_TMP_DIR) + 1);
  else if (main_mode && !strncmp(p, DEFAULT_ROOT, strlen(DEFAULT_ROOT)) && (p[strlen(DEFAULT_ROOT)] == '/' || !p[strlen(DEFAULT_ROOT)]))
    sprintf(b, "%s/default%.600s", scratch, p + strlen(DEFAULT_ROOT));
  else
    return p;
  return b;
}
int vw_SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *p)
{
  char b[1024];
  return SSL_CTX_use_certificate_chain_file(c, mp(p, b));
}
int vw_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *p, int t)
{
  char b[1024];
  return SSL_CTX_use_certificate_file(c, mp(p, b), t);
}
int vw_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *p, int t)
{
  char b[1024];
  return SSL_CTX_use_PrivateKey_file(c, mp(p, b), t);
}
static int log_opens;
/* files that can't be opened, as when the process is out of descriptors */
static char *unread[64];
static int nunread;
static int refuse_open(const char *r)
{
  char q[PATH_MAX];
  if (!nunread || !realpath(r, q))
    return 0;
  for (int i = 0; i < nunread; i++)
    if (!strcmp(unread[i], q))
    {
      errno = EMFILE;
      return 1;
    }
  return 0;
}
/* files the server opens for reading, with the connection they are opened for */
static void note_open(const char *p, const char *r)
{
  if ((p == r || !strncmp(p, DEFAULT_ROOT, strlen(DEFAULT_ROOT))) && strncmp(p, "/etc/ssl", 8) != 0)
  {
    vconn *c = get_cur();
    char *h = hexs(p, strlen(p));
    ev("{\"e\":\"open\",\"t\":%d,\"c\":%d,\"p\":\"%s\"}", mytid(), c ? c->id : 0, h);
    free(h);
  }
}
FILE *vw_fopen(const char *p, const char *m)
{
  char b[1024];
  sched_point(K_LIBC);
  const char *r = mp(p, b);
  if (refuse_open(r))
    return NULL;
  FILE *f = fopen(r, m);
  if (f)
    note_open(p, r);
  sched_point(K_LIBC);
  return f;
}
int vw_open(const char *p, int fl, ...)
{
  char b[1024];
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  sched_point(K_LIBC);
  const char *r = mp(p, b);
  if (refuse_open(r))
    return -1;
  int fd = open(r, fl, mode);
  if (fd >= 0 && fd < MAXFD)
  {
    fdother[fd] = 1;
    note_open(p, r);
  }
  return fd;
}
int vw_stat(const char *p, struct stat *s)
{
  char b[1024];
  sched_point(K_LIBC);
  return stat(mp(p, b), s);
}
FILE *vw_fopen64(const char *p, const char *m) { return vw_fopen(p, m); }
int vw_open64(const char *p, int fl, int mode) { return vw_open(p, fl, mode); }
int vw_stat64(const char *p, struct stat *s) { return vw_stat(p, s); }
int vw_lstat(const char *p, struct stat *s)
{
  char b[1024];
  return lstat(mp(p, b), s);
}
int vw_access(const char *p, int m)
{
  char b[1024];
  return access(mp(p, b), m);
}
int vw_mkdir(const char *p, mode_t m)
{
  char b[1024];
  sched_point(K_LIBC);
  return mkdir(mp(p, b), m);
}
/* destructive calls only inside the scratch root */
static int inside(const char *p)
{
  return strncmp(p, scratch, strlen(scratch)) == 0 && !strstr(p, "/../");
}
int vw_remove(const char *p)
{
  char b[1024];
  sched_point(K_LIBC);
  const char *q = mp(p, b);
  if (!inside(q))
  {
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"remove\",\"fd\":-1}", mytid());
    errno = EACCES;
    return -1;
  }
  return remove(q);
}
int vw_unlink(const char *p) { return vw_remove(p); }
int vw_rename(const char *p, const char *q)
{
  char b[1024], b2[1024];
  const char *x = mp(p, b), *y = mp(q, b2);
  if (!inside(x) || !inside(y))
  {
    errno = EACCES;
    return -1;
  }
  return rename(x, y);
}
int vw_rmdir(const char *p) { return vw_remove(p); }

/* ------------------------------------------------------------------ libc calls as scheduling points */
char *vw_strtok(char *a, const char *b)
{
  sched_point(K_SYNC);
  char *r = strtok(a, b);
  sched_point(K_SYNC);
  return r;
}
struct tm *vw_gmtime(const time_t *t)
{
  struct tm *r = gmtime(t);
  sched_point(K_LIBC);
  return r;
}
struct tm *vw_localtime(const time_t *t)
{
  struct tm *r = localtime(t);
  sched_point(K_LIBC);
  return r;
}
int vw_sprintf(char *o, const char *f, ...)
{
  va_list ap;
  sched_point(K_LIBC);
  va_start(ap, f);
  int r = vsprintf(o, f, ap);
  va_end(ap);
  sched_point(K_LIBC);
  return r;
}
int vw_snprintf(char *o, size_t n, const char *f, ...)
{
  va_list ap;
  sched_point(K_LIBC);
  va_start(ap, f);
  int r = vsnprintf(o, n, f, ap);
  va_end(ap);
  sched_point(K_LIBC);
  return r;
}
char *vw_strcpy(char *a, const char *b)
{
  sched_point(K_LIBC);
  char *r = strcpy(a, b);
  sched_point(K_LIBC);
  return r;
}
char *vw_strncpy(char *a, const char *b, size_t n)
{
  sched_point(K_LIBC);
  char *r = strncpy(a, b, n);
  sched_point(K_LIBC);
  return r;
}
char *vw_strcat(char *a, const char *b)
{
  sched_point(K_LIBC);
  char *r = strcat(a, b);
  sched_point(K_LIBC);
  return r;
}
char *vw_strdup(const char *a)
{
  sched_point(K_LIBC);
  return strdup(a);
}
void *vw_memcpy(void *a, const void *b, size_t n)
{
  sched_point(K_LIBC);
  void *r = memcpy(a, b, n);
  sched_point(K_LIBC);
  return r;
}
int vw_fprintf(FILE *fp, const char *f, ...)
{
  va_list ap;
  sched_point(K_LIBC);
  va_start(ap, f);
  int r = vfprintf(fp, f, ap);
  va_end(ap);
  sched_point(K_LIBC);
  return r;
}
int vw_vfprintf(FILE *fp, const char *f, va_list ap)
{
  sched_point(K_LIBC);
  int r = vfprintf(fp, f, ap);
  sched_point(K_LIBC);
  return r;
}
/* a thread that holds a FILE lock while it is descheduled would block the others for real */
static __thread int flocks;
void vw_flockfile(FILE *f)
{
  if (sched_on && me)
    vw_pthread_mutex_lock((pthread_mutex_t *)f);
  else
    flockfile(f);
}
void vw_funlockfile(FILE *f)
{
  if (sched_on && me)
    vw_pthread_mutex_unlock((pthread_mutex_t *)f);
  else
    funlockfile(f);
}

void vw_exit(int code)
{
  if (!sched_on && !acceptor_tid)
    exit(code);
  ev("{\"e\":\"exit\",\"t\":%d,\"code\":%d}", mytid(), code);
  if (main_mode)
    fflush(NULL);
  if (sched_on)
    finish_run("exit");
  flush_events();
  { const char *m = "{\"e\":\"end\",\"why\":\"exit\"}\n.\n"; wr_all(proto_fd, m, strlen(m)); }
  _exit(33);
}

/* ------------------------------------------------------------------ memory: which blocks are shared */
typedef struct { char *lo, *hi; } range;
static range shared_heap[64];
static int nshared, launch_phase;
static void note_alloc(void *p, size_t n)
{
  if (launch_phase && p && nshared < 64 && n >= 8)
  {
    shared_heap[nshared].lo = p;
    shared_heap[nshared++].hi = (char *)p + n;
  }
}
void *vw_malloc(size_t n)
{
  void *p = malloc(n);
  note_alloc(p, n);
  return p;
}
void *vw_calloc(size_t a, size_t b)
{
  void *p = calloc(a, b);
  note_alloc(p, a * b);
  return p;
}

extern char __data_start[], _end[];
static inline int is_shared(void *a)
{
  char *p = a;
  if (p >= __data_start && p < _end)
    return 1;
  for (int i = 0; i < nshared; i++)
    if (p >= shared_heap[i].lo && p < shared_heap[i].hi)
      return 1;
  return 0;
}

#ifdef VH_SCHED
#define RD(n) void __tsan_read##n(void *a) { if (sched_on && me && is_shared(a)) sched_point(K_READ); } \
  void __tsan_unaligned_read##n(void *a) { __tsan_read##n(a); }
#define WR(n) void __tsan_write##n(void *a) { if (sched_on && me && is_shared(a)) sched_point(K_WRITE); } \
  void __tsan_unaligned_write##n(void *a) { __tsan_write##n(a); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
#define RV(n) void __tsan_volatile_read##n(void *a) { __tsan_read##n(a); } void __tsan_volatile_write##n(void *a) { __tsan_write##n(a); } \
  void __tsan_unaligned_volatile_read##n(void *a) { __tsan_read##n(a); } void __tsan_unaligned_volatile_write##n(void *a) { __tsan_write##n(a); }
RV(1) RV(2) RV(4) RV(8) RV(16)
void __tsan_read_range(void *a, size_t n) { __tsan_read1(a); }
void __tsan_write_range(void *a, size_t n) { __tsan_write1(a); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void __tsan_func_entry(void *a) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
#define AT(n, T)                                                                                                                \
  T __tsan_atomic##n##_load(const volatile T *a, int mo) { sched_point(K_SYNC); return __atomic_load_n(a, 5); }                  \
  void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { sched_point(K_SYNC); __atomic_store_n(a, v, 5); }                  \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_exchange_n(a, v, 5); }        \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_fetch_add(a, v, 5); }        \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_fetch_sub(a, v, 5); }        \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_fetch_and(a, v, 5); }        \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_fetch_or(a, v, 5); }          \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { sched_point(K_SYNC); return __atomic_fetch_xor(a, v, 5); }        \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int mf)                                       \
  { sched_point(K_SYNC); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                                                 \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int mf)                                         \
  { sched_point(K_SYNC); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                                                 \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int mf)                                             \
  { sched_point(K_SYNC); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { sched_point(K_SYNC); }
void __tsan_atomic_signal_fence(int mo) {}
#endif

/* ------------------------------------------------------------------ routes, handlers and filters of the embedding program */
#define NR 160
typedef struct { char tmpl[512]; int hk, fk, status, hold; char *payload; int np; } vroute;
static vroute routes[NR];
static int nroutes;

static void hexfield(char **o, const char *name, const char *v)
{
  char *h = v ? hexs(v, strlen(v)) : strdup("!");
  char *n = NULL;
  if (asprintf(&n, "%s,\"%s\":\"%s\"", *o, name, h) < 0)
    abort();
  free(*o);
  free(h);
  *o = n;
}

static char *ask_names[64];
static int nask;

static char *context(api_request *r, int full)
{
  char *o = strdup("");
  hexfield(&o, "method", r->method);
  hexfield(&o, "path", r->path);
  hexfield(&o, "query", r->query_string);
  hexfield(&o, "form", r->form);
  hexfield(&o, "session", r->session);
  hexfield(&o, "ip", r->IP);
  hexfield(&o, "url", r->url);
  hexfield(&o, "ctype", r->content_type);
  if (full)
  {
    char *n = NULL;
    int nh = r->n_headers;
    size_t cap = strlen(o) + 1000 * 24 + 100, l;
    n = malloc(cap);
    l = sprintf(n, "%s,\"nh\":%d,\"hdrs\":[", o, nh);
    for (int i = 0; i < nh && i < HTTP_MAX_HEADERS; i++)
    {
      char *a = hexs(r->headers[i].name, strnlen(r->headers[i].name, HTTP_MAX_HEADER_NAME));
      char *b = hexs(r->headers[i].value, strnlen(r->headers[i].value, HTTP_MAX_HEADER_VALUE));
      l += sprintf(n + l, "%s[\"%s\",\"%s\"]", i ? "," : "", a, b);
      free(a);
      free(b);
    }
    l += sprintf(n + l, "]");
    free(o);
    o = n;
    for (int i = 0; i < nask; i++)
    {
      char *v = http_get_header(r, ask_names[i]);
      char key[32];
      sprintf(key, "ask%d", i);
      hexfield(&o, key, v);
      if (v && *v)
        free(v);
    }
    /* raw body: Content-Length bytes, when the handler can know them */
    char *cl = http_get_header(r, "Content-Length");
    long n2 = cl ? atol(cl) : 0;
    if (cl && *cl)
      free(cl);
    if (n2 > 0 && r->form && r->form[0] && n2 <= (1 << 22) && r->content_type && !strstr(r->content_type, "multipart") && full == 1)
    {
      char *h = hexs(r->form, n2);
      char *x = NULL;
      if (asprintf(&x, "%s,\"raw\":\"%s\"", o, h) < 0)
        abort();
      free(h);
      free(o);
      o = x;
    }
  }
  return o;
}

static pthread_mutex_t hm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t hc = PTHREAD_COND_INITIALIZER;
static int held_count, release_gen;
static int barrier_hold;

static char *ser_entity(void *p) { return strdup(p); }

static void reply(api_request *q, vroute *r)
{
  wayuu_error_t er;
  switch (r->hk)
  {
  case 0: return_json(q, r->payload); break;
  case 1: ok(q); break;
  case 2: created(q); break;
  case 3: created_with_json(q, r->payload); break;
  case 4: not_found(q); break;
  case 5: not_authenticated(q); break;
  case 6: bad_request(q); break;
  case 7: memset(&er, 0, sizeof er); snprintf(er.code, sizeof er.code, "E7"); snprintf(er.message, sizeof er.message, "%s", r->payload); bad_request_with_error(q, &er); break;
  case 8: forbidden(q); break;
  case 9: memset(&er, 0, sizeof er); snprintf(er.code, sizeof er.code, "E9"); snprintf(er.message, sizeof er.message, "%s", r->payload); forbidden_with_error(q, &er); break;
  case 10: internal_server_error(q); break;
  case 11: memset(&er, 0, sizeof er); snprintf(er.message, sizeof er.message, "%s", r->payload); internal_server_error_with_error(q, &er); break;
  case 12:
  {
    json_list_t l;
    int n = r->status;
    l.size = n;
    l.serializer = ser_entity;
    l.elements = calloc(n + 1, sizeof(void *));
    for (int i = 0; i < n; i++)
    {
      char *e = NULL;
      if (asprintf(&e, "{\"n\":%d,\"v\":\"%s\"}", i, r->payload) < 0)
        abort();
      l.elements[i] = e;
    }
    return_json_list(q, l);
    break;
  }
  case 13:
  {
    FILE *f = tmpfile();
    fwrite(r->payload, 1, r->np, f);
    rewind(f);
    return_json_stream(q, r->status, f);
    fclose(f);
    break;
  }
  case 14: send_http_status(q, r->status, r->payload); break;
  case 15: return_json_with_status(q, r->status, r->payload); break;
  case 16: too_many_connections(q); break;
  case 17: /* echo: tells the client what the handler saw */
  {
    char *o = context(q, 0);
    char *x = NULL;
    if (asprintf(&x, "{\"r\":%d%s}", (int)(r - routes), o) < 0)
      abort();
    vconn *c = q->socket >= 0 && q->socket < MAXFD ? fdconn[q->socket] : NULL;
    char *hs = hexs(x, strlen(x));
    ev("{\"e\":\"sent\",\"t\":%d,\"c\":%d,\"x\":\"%s\"}", mytid(), c ? c->id : 0, hs);
    free(hs);
    return_json(q, x);
    free(x);
    free(o);
    break;
  }
  case 18: break; /* handler that answers nothing */
  case 19: direct_file(q, r->payload); break;
  case 20: return_headers_with_mime(q, r->status, r->payload); http_print_str(q, "\r\nbody"); break;
  }
}

/* the uploads that a form names, as they are when the handler begins */
static void note_uploads(vconn *c, const char *form)
{
  for (const char *f = form; f && (f = strstr(f, "tmpfile=")); f += 8)
  {
    char n[256], p[1024];
    size_t l = strcspn(f + 8, "&/");
    if (!l || l >= sizeof n)
      continue;
    memcpy(n, f + 8, l);
    n[l] = 0;
    snprintf(p, sizeof p, "%s/up/%s", scratch, n);
    FILE *x = fopen(p, "rb");
    if (!x)
      continue;
    char *b = malloc(1 << 20);
    size_t k = fread(b, 1, 1 << 20, x);
    fclose(x);
    char *hn = hexs(n, l), *hb = hexs(b, k);
    ev("{\"e\":\"up\",\"c\":%d,\"n\":\"%s\",\"x\":\"%s\"}", c ? c->id : 0, hn, hb);
    free(hn);
    free(hb);
    free(b);
  }
}

static void run_handler(int i, api_request *q)
{
  vroute *r = &routes[i];
  vconn *c = q->socket >= 0 && q->socket < MAXFD ? fdconn[q->socket] : NULL;
  char *o = ev_ctx ? context(q, strchr(r->tmpl, '{') ? 2 : 1) : strdup("");
  if (c)
    c->inhandler = 1;
  if (sched_on && ev_ctx)
    note_uploads(c, q->form);
  ev("{\"e\":\"henter\",\"t\":%d,\"c\":%d,\"i\":%d%s}", mytid(), c ? c->id : 0, i, o);
  free(o);
  if (sched_on)
  {
    int h = c ? c->hold : 0;
    if (h == 99)
    {
      me->state = R_HOLD;
      block_or_switch(0);
      me->state = R_RUN;
    }
    else
      while (h-- > 0)
        sched_point(K_SYNC);
  }
  else if (r->hold || (c && c->hold))
  {
    pthread_mutex_lock(&hm);
    held_count++;
    int g = release_gen;
    pthread_cond_broadcast(&hc);
    while (g == release_gen && !(c && c->hold == -1))
      pthread_cond_wait(&hc, &hm);
    held_count--;
    pthread_mutex_unlock(&hm);
  }
  reply(q, r);
  ev("{\"e\":\"hexit\",\"t\":%d,\"c\":%d,\"i\":%d}", mytid(), c ? c->id : 0, i);
  if (c)
    c->inhandler = 0;
}

static bool run_filter(int i, api_request *q)
{
  vroute *r = &routes[i];
  vconn *c = q->socket >= 0 && q->socket < MAXFD ? fdconn[q->socket] : NULL;
  bool res = true;
  if (r->fk == 2 || r->fk == 3)
    res = false;
  if (r->fk == 4) /* token filter */
  {
    char *t = http_get_header(q, "X-Token");
    res = t && !strcmp(t, "yes");
    if (t && *t)
      free(t);
  }
  if (r->fk == 5) /* looks at the form / path parameter */
    res = q->form && strstr(q->form, "ok") != NULL;
  char *o = ev_ctx ? context(q, 0) : strdup("");
  if (sched_on && ev_ctx)
    note_uploads(c, q->form);
  ev("{\"e\":\"filter\",\"t\":%d,\"c\":%d,\"i\":%d,\"res\":%d%s}", mytid(), c ? c->id : 0, i, res, o);
  free(o);
  sched_point(K_SYNC);
  if (!res)
  {
    if (r->fk == 3)
      forbidden(q);
    else
      not_authenticated(q);
  }
  return res;
}

#define H1(n) static void h##n(api_request *q) { run_handler(n, q); } static bool f##n(api_request *q) { return run_filter(n, q); }
#define H10(d) H1(d##0) H1(d##1) H1(d##2) H1(d##3) H1(d##4) H1(d##5) H1(d##6) H1(d##7) H1(d##8) H1(d##9)
H1(0) H1(1) H1(2) H1(3) H1(4) H1(5) H1(6) H1(7) H1(8) H1(9)
H10(1) H10(2) H10(3) H10(4) H10(5) H10(6) H10(7) H10(8) H10(9) H10(10) H10(11) H10(12) H10(13)
#define L1(n) {h##n, f##n},
#define L10(d) L1(d##0) L1(d##1) L1(d##2) L1(d##3) L1(d##4) L1(d##5) L1(d##6) L1(d##7) L1(d##8) L1(d##9)
static struct { request_handler h; request_filter f; } fns[] = {
  L1(0) L1(1) L1(2) L1(3) L1(4) L1(5) L1(6) L1(7) L1(8) L1(9)
  L10(1) L10(2) L10(3) L10(4) L10(5) L10(6) L10(7) L10(8) L10(9) L10(10) L10(11) L10(12) L10(13)};

/* socket handler of an embedding program (ws_launch's third argument) */
static void custom_handler(int socket)
{
  sched_point(K_SYNC);
  vconn *c = socket >= 0 && socket < MAXFD ? fdconn[socket] : NULL;
  if (!c || c->owner != -1)
  {
    ev("{\"e\":\"anom\",\"t\":%d,\"op\":\"serve\",\"fd\":%d,\"c\":%d}", mytid(), socket, c ? c->id : -1);
    return;
  }
  c->owner = mytid();
  set_cur(c);
  ev("{\"e\":\"touch\",\"t\":%d,\"c\":%d}", mytid(), c->id);
  int h = c->hold;
  if (sched_on)
  {
    if (h == 99)
    {
      me->state = R_HOLD;
      block_or_switch(0);
      me->state = R_RUN;
    }
    else
      while (h-- > 0)
        sched_point(K_SYNC);
  }
  else if (h)
  {
    pthread_mutex_lock(&hm);
    held_count++;
    int g = release_gen;
    pthread_cond_broadcast(&hc);
    while (g == release_gen && c->hold != -1)
      pthread_cond_wait(&hc, &hm);
    held_count--;
    pthread_mutex_unlock(&hm);
  }
  vw_close(socket);
}

static int custom;
static void *launch_main(void *a)
{
  ws_launch(0, "127.0.0.1", custom ? custom_handler : NULL);
  ev("{\"e\":\"returned\"}");
  return NULL;
}

/* the program's own main(), with the arguments of the command; what it prints goes to <scratch>/out */
extern int wayuu_main(int, char **);
static char *main_argv[200];
static int main_argc;
static void *program_main(void *a)
{
  int r = wayuu_main(main_argc, main_argv);
  fflush(NULL);
  ev("{\"e\":\"exit\",\"t\":%d,\"code\":%d}", mytid(), r);
  flush_events();
  { const char *m = "{\"e\":\"end\",\"why\":\"exit\"}\n.\n"; wr_all(proto_fd, m, strlen(m)); }
  _exit(33);
}

static void add_routes(void)
{
  router_init();
  for (int i = 0; i < nroutes; i++)
    router_add_route(routes[i].tmpl, fns[i].h, routes[i].fk ? fns[i].f : NULL);
}

/* ------------------------------------------------------------------ scheduled mode */
static uint64_t run_no, cur_seed;
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static int open_fds(void)
{
  int n = 0;
  for (int i = 3; i < client_fd_base && i < 4096; i++)
    if (fcntl(i, F_GETFD) >= 0)
      n++;
  return n;
}
static int base_fds;

static void finish_run(const char *why)
{
  sched_on = 0;
  for (int i = 0; i < nconns; i++)
  {
    vconn *c = conns[i];
    if (c->accept_errno || c->fake)
      continue;
    drain(c);
    char *h = hexs(c->in, c->nin);
    ev("{\"e\":\"resp\",\"c\":%d,\"eof\":%d,\"x\":\"%s\"}", c->id, c->eof, h);
    free(h);
  }
  for (int i = 0; i < nthr; i++)
    ev("{\"e\":\"thr\",\"t\":%d,\"role\":%d,\"state\":%d}", i, thrs[i]->role, thrs[i]->state);
  ev("{\"e\":\"end\",\"why\":\"%s\",\"run\":%llu,\"steps\":%llu,\"fds\":%d}", why, (unsigned long long)run_no, (unsigned long long)nsteps, open_fds() - base_fds);
  flush_events();
  _exit(0);
}

/* the environment: clients connect, send, stop, in any order the scheduler picks */
static void *env_main(void *a)
{
  int phase = 0, maxphase = 0;
  for (int i = 0; i < nconns; i++)
    if (conns[i]->phase > maxphase)
      maxphase = conns[i]->phase;
  for (;;)
  {
    vconn *en[MAXC];
    int n = 0;
    for (int i = 0; i < nconns; i++)
    {
      vconn *c = conns[i];
      if (c->phase != phase)
        continue;
      if (!c->started_cli || c->seg < c->nseg || (c->mode != 'n' && !c->gone))
        en[n++] = c;
    }
    if (!n)
    {
      if (phase >= maxphase)
        break;
      me->state = R_PHASE;
      block_or_switch(0);
      me->state = R_RUN;
      phase++;
      ev("{\"e\":\"phase\",\"n\":%d,\"closed\":%d,\"fds\":%d}", phase, all_prior_closed(phase), open_fds() - base_fds);
      continue;
    }
    vconn *c = en[0];
    /* connections of a phase are opened in order; their data steps interleave */
    int m = 0;
    vconn *opt[MAXC];
    int sawnew = 0;
    for (int i = 0; i < n; i++)
    {
      if (!en[i]->started_cli)
      {
        if (sawnew)
          continue;
        sawnew = 1;
      }
      opt[m++] = en[i];
    }
    c = opt[rnd() % m];
    if (!c->started_cli)
    {
      c->started_cli = 1;
      ev("{\"e\":\"conn\",\"c\":%d}", c->id);
      push_pending(c);
      for (int i = 0; i < nthr; i++)
        if (thrs[i]->state == R_ACCEPT)
          thrs[i]->woken = 1;
    }
    else if (c->seg < c->nseg)
    {
      if (c->accepted && c->cfd >= 0)
        send(c->cfd, c->segs[c->seg], c->seglen[c->seg], MSG_NOSIGNAL | MSG_DONTWAIT);
      c->seg++;
    }
    else if (c->mode == 's')
    {
      if (c->accepted && c->cfd >= 0)
        shutdown(c->cfd, SHUT_WR);
      c->gone = 1;
      ev("{\"e\":\"cshut\",\"c\":%d}", c->id);
    }
    else
    {
      if (c->accepted && c->cfd >= 0)
      {
        drain(c);
        close(c->cfd);
        c->cfd = -1;
      }
      c->gone = 2;
      ev("{\"e\":\"cabort\",\"c\":%d}", c->id);
    }
    sched_point(K_SYNC);
  }
  return NULL;
}

static void child_run(uint64_t seed, uint64_t no, int kind)
{
  run_no = no;
  cur_seed = seed;
  rng = splitmix(seed * 1000003ULL + no);
  base_fds = open_fds();
  static const int mix[] = {2, 2, 2, 0, 0, 1, 1, 3, 3, 3};
  strat = kind >= 0 ? kind : mix[rnd() % 10];
  static const int sp[] = {0, 5, 20, 60};
  stall_p = sp[rnd() % 4];
  stall_close = (rnd() & 1) ? 500 : 0;
  baseline = (no == 0);
  spurious_p = (rnd() % 4 == 0) ? 30 : 0;
  if (no == 0)
  {
    strat = 2;
    nchg = 0;
    spurious_p = 0;
  }
  else if (strat == 0)
  {
    int lv[] = {5000, 2000, 500, 100};
    prob[K_SYNC] = lv[rnd() % 4];
    prob[K_WRITE] = lv[rnd() % 4];
    prob[K_READ] = (rnd() & 1) ? 5 : 100;
    prob[K_LIBC] = lv[rnd() % 4] / 2;
  }
  else
  {
    uint64_t k = *nkinds ? *nkinds : 1000;
    nchg = 1 + rnd() % 4;
    for (int i = 0; i < nchg; i++)
    {
      uint64_t s = rnd() % k;
      if (rnd() % 10 < 8 && s < KMAX)
        for (int tries = 0; tries < 4000 && (kinds[s] == K_READ || (kinds[s] == K_LIBC && rnd() % 4)); tries++)
          s = rnd() % k;
      chg[i] = s;
    }
  }
  me = new_thr(0, NULL, NULL);
  thr *acc;
  launch_phase = 1;
  sched_on = 1;
  acc = new_thr(1, launch_main, NULL);
  start_thr(acc);
  /* run the launch until the acceptor waits for connections, mostly without the pool having started */
  launch_phase = 1;
  while (acc->state != R_ACCEPT)
  {
    /* only during the launch: workers may or may not start before */
    int save = strat;
    switch_to(acc);
    strat = save;
    if (me->state != R_RUN)
      me->state = R_RUN;
  }
  launch_phase = 0;
  env_main(NULL);
  me->state = R_DONE;
  thr *n = pick(0);
  if (!n)
    finish_run("quiescent");
  sem_post(&n->sem);
  for (;;)
    pause();
}

static void do_run(uint64_t seed, uint64_t from, uint64_t count, int kind)
{
  if (!kinds)
  {
    kinds = mmap(NULL, KMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    nkinds = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  for (uint64_t i = 0; i < count + (from ? 1 : 0); i++)
  {
    uint64_t no = (from && i == 0) ? 0 : from ? from + i - 1 : i;
    int quiet = (from && i == 0); /* baseline re-run for a replay */
    char lf[600];
    snprintf(lf, sizeof lf, "%s/log/wayuu-access.log", scratch);
    unlink(lf);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
      if (quiet)
      {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
      }
      else
      {
        char b[128];
        int l = sprintf(b, "{\"e\":\"begin\",\"run\":%llu}\n", (unsigned long long)no);
        wr_all(proto_fd, b, l);
      }
      alarm(20);
      child_run(seed, no, kind);
      _exit(98);
    }
    int st;
    while (waitpid(p, &st, 0) < 0)
      ;
    if (quiet)
      continue;
    char b[256];
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
      int l = sprintf(b, "\n{\"e\":\"crash\",\"sig\":%d,\"code\":%d,\"run\":%llu}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
                      WIFEXITED(st) ? WEXITSTATUS(st) : 0, (unsigned long long)no);
      wr_all(proto_fd, b, l);
    }
    /* access log of this run */
    FILE *f = fopen(lf, "rb");
    if (f)
    {
      char *line = NULL;
      size_t cap = 0;
      ssize_t n;
      while ((n = getline(&line, &cap, f)) > 0)
      {
        char *h = hexs(line, n);
        printf("{\"e\":\"log\",\"x\":\"%s\"}\n", h);
        free(h);
      }
      free(line);
      fclose(f);
    }
    fflush(stdout);
  }
  printf(".\n");
  fflush(stdout);
}

/* ------------------------------------------------------------------ free mode */
static SSL_CTX *cctx;

static double now(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static int stuck; /* workers that are known to wait for a client */
static int settle(double maxs)
{
  double t0 = now();
  for (;;)
  {
    int ok = fw_acc_idle && pend_h == pend_t && fw_idle + held_count + stuck >= fw_created;
    if (ok)
      return 1;
    if (now() - t0 > maxs)
      return 0;
    usleep(30);
  }
}

static vconn *new_conn(int id, const char *ip)
{
  vconn *c = calloc(1, sizeof *c);
  c->id = id;
  snprintf(c->ip, sizeof c->ip, "%s", ip);
  c->sfd = c->cfd = -1;
  c->owner = -1;
  c->mode = 'n';
  if (nconns == MAXC)
    _exit(94);
  conns[nconns++] = c;
  return c;
}
static vconn *find_conn(int id)
{
  for (int i = nconns - 1; i >= 0; i--)
    if (conns[i]->id == id)
      return conns[i];
  return NULL;
}
static void free_conn(vconn *c)
{
  if (c->cfd >= 0)
    close(c->cfd);
  if (c->sfd >= 0 && !c->fake)
  {
    if (fdconn[c->sfd] == c)
      fdconn[c->sfd] = NULL;
  }
  for (int i = 0; i < nconns; i++)
    if (conns[i] == c)
    {
      conns[i] = conns[--nconns];
      break;
    }
  free(c->in);
  free(c);
}

static void await_accept(vconn *c)
{
  double t0 = now();
  while (!c->accepted && now() - t0 < 3)
    usleep(20);
}

/* the server has consumed everything sent so far */
static void await_drained(vconn *c)
{
  double t0 = now();
  while (now() - t0 < 0.05)
  {
    int n = 0;
    if (c->closes || c->cfd < 0)
      return;
    if (ioctl(c->cfd, TIOCOUTQ, &n) < 0 || n == 0)
      return;
    usleep(20);
  }
}

static int c_send(vconn *c, const unsigned char *p, int n)
{
  int off = 0;
  double t0 = now();
  while (off < n)
  {
    ssize_t k = send(c->cfd, p + off, n - off, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (k > 0)
      off += k;
    else if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK))
    {
      drain(c);
      if (c->closes || now() - t0 > 5)
        return -1;
      usleep(50);
    }
    else
      return -1;
  }
  return off;
}

/* waits until the server closed the connection; collects what it sent */
static int await_close(vconn *c, double maxs)
{
  double t0 = now();
  for (;;)
  {
    int cl = c->closes;
    drain(c);
    if (cl)
      return 1;
    if (now() - t0 > maxs)
      return 0;
    struct pollfd p = {c->cfd, POLLIN, 0};
    if (c->cfd >= 0 && !c->eof)
      poll(&p, 1, 5);
    else
      usleep(50);
  }
}

/* TLS client over the connection with record checking */
typedef struct { vconn *c; SSL *ssl; BIO *rb, *wb; size_t consumed; int badrec; } tlsc;
static void tls_flush(tlsc *t)
{
  char b[16384];
  int n;
  while ((n = BIO_read(t->wb, b, sizeof b)) > 0)
    c_send(t->c, (unsigned char *)b, n);
}
static void tls_feed(tlsc *t)
{
  drain(t->c);
  if (t->consumed < t->c->nin)
  {
    BIO_write(t->rb, t->c->in + t->consumed, t->c->nin - t->consumed);
    t->consumed = t->c->nin;
  }
}
static int records_ok(vconn *c)
{
  size_t o = 0;
  while (o < c->nin)
  {
    if (o + 5 > c->nin)
      return 0;
    int ty = c->in[o], ma = c->in[o + 1], len = c->in[o + 3] << 8 | c->in[o + 4];
    if (ty < 20 || ty > 23 || ma != 3 || len > 16384 + 2048)
      return 0;
    o += 5 + len;
    if (o > c->nin)
      return 0;
  }
  return 1;
}

static int cmd_exch(char **a, int na)
{
  /* exch <id> <ip> <mode> <timeout ms> <seg,seg,...> [tls] */
  int id = atoi(a[1]);
  char mode = a[3][0];
  double to = atoi(a[4]) / 1000.0;
  vconn *c = new_conn(id, a[2]);
  if (a[3][1]) /* a client that begins to read late, little room between */
    c->lazy = now() + 0.02;
  int tls = na > 6 && !strncmp(a[6], "tls", 3); /* tls, tls2 (TLS 1.2), tls3 (TLS 1.3) */
  push_pending(c);
  await_accept(c);
  if (!c->accepted)
    ev("{\"e\":\"noaccept\",\"c\":%d}", id);
  else
  {
    char *sv = NULL;
    int alive = 1;
    tlsc t = {0};
    unsigned char *plain = NULL;
    size_t nplain = 0;
    int hs = 1;
    if (tls)
    {
      t.c = c;
      t.ssl = SSL_new(cctx);
      if (a[6][3])
        SSL_set_min_proto_version(t.ssl, a[6][3] == '2' ? TLS1_2_VERSION : TLS1_3_VERSION),
        SSL_set_max_proto_version(t.ssl, a[6][3] == '2' ? TLS1_2_VERSION : TLS1_3_VERSION);
      t.rb = BIO_new(BIO_s_mem());
      t.wb = BIO_new(BIO_s_mem());
      SSL_set_bio(t.ssl, t.rb, t.wb);
      SSL_set_connect_state(t.ssl);
      double t0 = now();
      hs = 0;
      while (now() - t0 < 5)
      {
        int r = SSL_do_handshake(t.ssl);
        tls_flush(&t);
        if (r == 1)
        {
          hs = 1;
          break;
        }
        if (SSL_get_error(t.ssl, r) != SSL_ERROR_WANT_READ)
          break;
        struct pollfd p = {c->cfd, POLLIN, 0};
        poll(&p, 1, 20);
        tls_feed(&t);
        if (c->closes && c->eof && t.consumed == c->nin)
        {
          r = SSL_do_handshake(t.ssl);
          hs = r == 1;
          break;
        }
      }
    }
    int first = 1;
    for (char *s = strtok_r(a[5], ",", &sv); s; s = strtok_r(NULL, ",", &sv))
    {
      int n;
      unsigned char *p = unhex(s, &n);
      if (!first)
        await_drained(c);
      first = 0;
      if (tls)
      {
        if (hs && n)
        {
          SSL_write(t.ssl, p, n);
          tls_flush(&t);
        }
      }
      else if (n && c_send(c, p, n) < 0)
        alive = 0;
      free(p);
    }
    if (mode == 's')
    {
      if (tls && hs)
      {
        SSL_shutdown(t.ssl);
        tls_flush(&t);
      }
      shutdown(c->cfd, SHUT_WR);
    }
    if (mode == 'a')
    {
      await_drained(c);
      close(c->cfd);
      c->cfd = -1;
    }
    if (mode == 'A')
    { /* abort without waiting for anything to be read */
      close(c->cfd);
      c->cfd = -1;
    }
    int closed;
    if (tls && c->cfd >= 0)
    {
      double t0 = now();
      for (;;)
      {
        int cl = c->closes;
        tls_feed(&t);
        for (;;)
        {
          unsigned char b[16384];
          int k = SSL_read(t.ssl, b, sizeof b);
          if (k <= 0)
            break;
          plain = realloc(plain, nplain + k);
          memcpy(plain + nplain, b, k);
          nplain += k;
        }
        tls_flush(&t);
        if (cl)
          break;
        if (now() - t0 > to)
          break;
        struct pollfd p = {c->cfd, POLLIN, 0};
        if (!c->eof)
          poll(&p, 1, 5);
        else
          usleep(50);
      }
      closed = c->closes != 0;
    }
    else
      closed = await_close(c, to);
    int ok = settle(3.0);
    drain(c);
    if (tls)
    {
      char *h = hexs(plain, nplain);
      ev("{\"e\":\"resp\",\"c\":%d,\"eof\":%d,\"x\":\"%s\",\"closed\":%d,\"settled\":%d,\"alive\":%d,\"hs\":%d,\"rec\":%d,\"cn\":%d}", id, c->eof, h, closed, ok, alive, hs, records_ok(c),
         (SSL_get_shutdown(t.ssl) & SSL_RECEIVED_SHUTDOWN) != 0);
      free(h);
      free(plain);
      SSL_free(t.ssl);
    }
    else
    {
      char *h = hexs(c->in, c->nin);
      ev("{\"e\":\"resp\",\"c\":%d,\"eof\":%d,\"x\":\"%s\",\"closed\":%d,\"settled\":%d,\"alive\":%d}", id, c->eof, h, closed, ok, alive);
      free(h);
    }
    if (closed)
      free_conn(c);
  }
  return 0;
}

static void reset_scn(void)
{
  nroutes = 0;
  nconns = 0;
  nask = 0;
  custom = 0;
  maxworkers = 4;
}

static int copyout(char *dst, size_t n, const char *hex)
{
  int l;
  unsigned char *p = unhex(hex, &l);
  if (l >= (int)n)
    l = n - 1;
  memcpy(dst, p, l);
  dst[l] = 0;
  free(p);
  return l;
}

int main(int argc, char **argv)
{
  struct rlimit rl;
  getrlimit(RLIMIT_NOFILE, &rl);
  rl.rlim_cur = rl.rlim_max;
  setrlimit(RLIMIT_NOFILE, &rl);
  getrlimit(RLIMIT_NOFILE, &rl);
  client_fd_base = rl.rlim_cur / 2 > 10000 ? 10000 : rl.rlim_cur / 2;
  log_set_level(LOG_FATAL);
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  char *a[256];
  while ((n = getline(&line, &cap, stdin)) > 0)
  {
    int na = 0;
    char *sv = NULL;
    for (char *p = strtok_r(line, " \n", &sv); p && na < 250; p = strtok_r(NULL, " \n", &sv))
      a[na++] = p;
    a[na] = NULL;
    if (!na)
      continue;
    if (!strcmp(a[0], "scratch"))
    {
      snprintf(scratch, sizeof scratch, "%s", a[1]);
      char b[600];
      snprintf(b, sizeof b, "%s/log", scratch);
      mkdir(b, 0755);
    }
    else if (!strcmp(a[0], "unread"))
    { /* unread: every file can be opened again; unread <hex path>: this one can't */
      if (na < 2)
        nunread = 0;
      else if (nunread < 64)
      {
        int l;
        char u[PATH_MAX], q[PATH_MAX];
        unsigned char *p = unhex(a[1], &l);
        if (l < PATH_MAX)
        {
          memcpy(u, p, l);
          u[l] = 0;
          if (realpath(u, q))
            unread[nunread++] = strdup(q);
        }
        free(p);
      }
    }
    else if (!strcmp(a[0], "root"))
    {
      strcpy(WAYUU_WS_ROOT, a[1]);
      sprintf(WAYUU_STATIC_ROOT, "%s/www", a[1]);
      strcpy(WWW_INDEX, DEFAULT_WWW_INDEX);
      strcpy(FAVICON_URL, DEFAULT_FAVICON_URL);
    }
    else if (!strcmp(a[0], "index"))
      copyout(WWW_INDEX, ROOT_PATH_MAX, a[1]);
    else if (!strcmp(a[0], "favicon"))
      copyout(FAVICON_URL, ROOT_PATH_MAX, a[1]);
    else if (!strcmp(a[0], "ssl"))
    {
      WAYUU_SSL_ON = atoi(a[1]);
      if (WAYUU_SSL_ON && !cctx)
      {
        cctx = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(cctx, SSL_VERIFY_NONE, NULL);
      }
    }
    else if (!strcmp(a[0], "bindfail"))
      bind_errno = atoi(a[1]);
    else if (!strcmp(a[0], "main"))
    { /* main <arg> <arg> ... ("-" is the empty one) */
      char b[600];
      pthread_t t;
      cctx = SSL_CTX_new(TLS_client_method());
      SSL_CTX_set_verify(cctx, SSL_VERIFY_NONE, NULL);
      main_argv[main_argc++] = "wayuu";
      for (int i = 1; i < na; i++)
      {
        int l;
        main_argv[main_argc++] = (char *)unhex(a[i], &l);
      }
      memset(WAYUU_WS_ROOT, 0, sizeof WAYUU_WS_ROOT);
      memset(WAYUU_STATIC_ROOT, 0, sizeof WAYUU_STATIC_ROOT);
      *WWW_INDEX = *FAVICON_URL = 0;
      main_mode = 1;
      signal(SIGPIPE, SIG_DFL);
      log_set_level(LOG_INFO);
      proto_fd = fcntl(1, F_DUPFD, client_fd_base - 2);
      sprintf(b, "%s/out", scratch);
      freopen(b, "w", stdout);
      pthread_create(&t, NULL, program_main, NULL);
      double t0 = now();
      while ((!fw_acc_idle || fw_idle < fw_created) && now() - t0 < 8)
        usleep(100);
      ev("{\"e\":\"launched\",\"workers\":%d,\"idle\":%d,\"version\":\"%s\",\"ssl\":%d}", fw_created, fw_idle, WAYUU_WS_VERSION, WAYUU_SSL_ON);
      base_fds = open_fds();
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "loglevel"))
      log_set_level(atoi(a[1]));
    else if (!strcmp(a[0], "ctx"))
      ev_ctx = atoi(a[1]);
    else if (!strcmp(a[0], "ask"))
    {
      int l;
      ask_names[nask++] = (char *)unhex(a[1], &l);
    }
    else if (!strcmp(a[0], "route"))
    {
      vroute *r = &routes[nroutes++];
      copyout(r->tmpl, sizeof r->tmpl, a[1]);
      r->hk = atoi(a[2]);
      r->fk = atoi(a[3]);
      r->status = atoi(a[4]);
      r->payload = (char *)unhex(a[5], &r->np);
      r->hold = na > 6 ? atoi(a[6]) : 0;
    }
    else if (!strcmp(a[0], "reroute"))
    { /* forget all routes (only before the next table is given) */
      nroutes = 0;
    }
    else if (!strcmp(a[0], "table"))
      add_routes();
    else if (!strcmp(a[0], "custom"))
      custom = 1;
    else if (!strcmp(a[0], "workers"))
      maxworkers = atoi(a[1]);
    else if (!strcmp(a[0], "pool"))
      fw_max = atoi(a[1]);
    else if (!strcmp(a[0], "reset"))
      reset_scn();
    /* scheduled mode: sconn <id> <ip> <mode> <phase> <hold> <eager> <fake> <seg,seg> */
    else if (!strcmp(a[0], "sconn"))
    {
      vconn *c = new_conn(atoi(a[1]), a[2]);
      c->mode = a[3][0];
      c->phase = atoi(a[4]);
      c->hold = atoi(a[5]);
      c->fake = atoi(a[7]);
      char *s2 = NULL;
      c->segs = calloc(64, sizeof(char *));
      c->seglen = calloc(64, sizeof(int));
      for (char *s = strtok_r(a[8], ",", &s2); s && c->nseg < 64; s = strtok_r(NULL, ",", &s2))
      {
        c->segs[c->nseg] = unhex(s, &c->seglen[c->nseg]);
        c->nseg++;
      }
      if (atoi(a[6]))
        c->seg = c->nseg; /* everything is there when the connection is accepted */
      if (c->fake)
        c->nseg = c->seg = 0;
    }
    else if (!strcmp(a[0], "sfail"))
    {
      vconn *c = new_conn(-nconns - 1, "0.0.0.0");
      c->accept_errno = atoi(a[1]);
      c->phase = atoi(a[2]);
    }
    else if (!strcmp(a[0], "run"))
    {
      add_routes();
      do_run(strtoull(a[1], 0, 10), strtoull(a[2], 0, 10), strtoull(a[3], 0, 10), na > 4 ? atoi(a[4]) : -1);
    }
    /* free mode */
    else if (!strcmp(a[0], "launch"))
    {
      pthread_t t;
      add_routes();
      base_fds = open_fds();
      pthread_create(&t, NULL, launch_main, NULL);
      double t0 = now();
      while ((!fw_acc_idle || fw_idle < fw_created) && now() - t0 < 5)
        usleep(100);
      ev("{\"e\":\"launched\",\"workers\":%d,\"idle\":%d}", fw_created, fw_idle);
      base_fds = open_fds();
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "exch"))
    {
      cmd_exch(a, na);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "open"))
    { /* open <id> <ip> <hold>: connect only */
      vconn *c = new_conn(atoi(a[1]), a[2]);
      c->hold = atoi(a[3]);
      push_pending(c);
      await_accept(c);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "skip"))
    { /* skip <ms>: the server's clock goes on */
      skew_ms += atoll(a[1]);
      usleep(2000);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "stuck"))
    {
      stuck = atoi(a[1]);
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "send"))
    {
      vconn *c = find_conn(atoi(a[1]));
      int l;
      unsigned char *p = unhex(a[2], &l);
      if (c && c->cfd >= 0)
        c_send(c, p, l);
      free(p);
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "shut"))
    {
      vconn *c = find_conn(atoi(a[1]));
      if (c && c->cfd >= 0)
        shutdown(c->cfd, SHUT_WR);
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "abort"))
    {
      vconn *c = find_conn(atoi(a[1]));
      if (c && c->cfd >= 0)
      {
        close(c->cfd);
        c->cfd = -1;
      }
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "rest"))
    { /* rest <id> <ms>: until the server waits for more bytes of it, holds it in a handler or has closed it */
      vconn *c = find_conn(atoi(a[1]));
      double t0 = now();
      while (c && now() - t0 < atoi(a[2]) / 1000.0)
      {
        int n = 0;
        unsigned k = c->nrecv;
        drain(c);
        if (c->closes || c->cfd < 0 || (c->inhandler && c->hold > 0))
          break;
        if (c->inrecv && ioctl(c->cfd, TIOCOUTQ, &n) == 0 && n == 0)
        {
          usleep(40);
          if (c->inrecv && c->nrecv == k)
            break;
        }
        usleep(20);
      }
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "unhold"))
    { /* release one held handler */
      vconn *c = find_conn(atoi(a[1]));
      pthread_mutex_lock(&hm);
      if (c)
        c->hold = -1;
      pthread_cond_broadcast(&hc);
      pthread_mutex_unlock(&hm);
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "unholdall"))
    {
      pthread_mutex_lock(&hm);
      release_gen++;
      pthread_cond_broadcast(&hc);
      pthread_mutex_unlock(&hm);
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "waitheld"))
    { /* waitheld <n> <ms> */
      double t0 = now();
      while (held_count < atoi(a[1]) && now() - t0 < atoi(a[2]) / 1000.0)
        usleep(50);
      ev("{\"e\":\"held\",\"n\":%d}", held_count);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "waitany"))
    { /* waitany <id> <n> <ms>: until n handlers are held or the connection is closed */
      vconn *c = find_conn(atoi(a[1]));
      double t0 = now();
      while (held_count < atoi(a[2]) && !(c && c->closes) && now() - t0 < atoi(a[3]) / 1000.0)
        usleep(20);
      ev("{\"e\":\"held\",\"n\":%d}", held_count);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "wait"))
    { /* wait <id> <ms>: until closed by the server */
      vconn *c = find_conn(atoi(a[1]));
      if (c)
      {
        int closed = await_close(c, atoi(a[2]) / 1000.0);
        int ok = closed && !(na > 3) ? settle(3.0) : 0;
        drain(c);
        char *h = hexs(c->in, c->nin);
        ev("{\"e\":\"resp\",\"c\":%d,\"eof\":%d,\"x\":\"%s\",\"closed\":%d,\"settled\":%d,\"alive\":1,\"inh\":%d}", c->id, c->eof, h, closed, ok, c->inhandler);
        free(h);
        if (closed)
          free_conn(c);
      }
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "accfail"))
    {
      for (int i = 0; i < (na > 2 ? atoi(a[2]) : 1); i++)
      {
        vconn *c = new_conn(-1, "0.0.0.0");
        c->accept_errno = atoi(a[1]);
        push_pending(c);
        await_accept(c);
        usleep(500);
        int on = c->accepted;
        free_conn(c);
        if (!on)
          break;
      }
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "settle"))
    {
      int ok = settle(atoi(a[1]) / 1000.0);
      ev("{\"e\":\"settled\",\"ok\":%d,\"workers\":%d,\"idle\":%d,\"held\":%d,\"fds\":%d,\"ssl\":%d,\"mem\":%lld}", ok, fw_created, fw_idle, held_count, open_fds() - base_fds, ssl_live, &__sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0LL);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "addr"))
    { /* allowed_address directly */
      char ip[256];
      snprintf(ip, sizeof ip, "%s", a[1]);
      ev("{\"e\":\"addr\",\"r\":%d}", allowed_address(ip) ? 1 : 0);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "limits"))
    { /* load_limits directly */
      path_limits *l = load_limits();
      ev("{\"e\":\"limits\",\"n\":%d}", MAX_LIMIT_RULES);
      for (int i = 0; i < MAX_LIMIT_RULES && l[i].path[0]; i++)
      {
        char *h = hexs(l[i].path, strnlen(l[i].path, HTTP_MAX_PATH));
        ev("{\"e\":\"rule\",\"p\":\"%s\",\"m\":%d,\"i\":%d,\"s\":%d}", h, l[i].max_connections, l[i].max_connections_per_ip, l[i].max_seconds);
        free(h);
      }
      free(l);
      flush_events();
      wr_all(proto_fd, ".\n", 2);
    }
    else if (!strcmp(a[0], "quit"))
      _exit(0);
    else
    {
      fprintf(stderr, "harness: unknown command %s\n", a[0]);
      _exit(93);
    }
  }
  _exit(0);
}
