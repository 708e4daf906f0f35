/* Explorer linked into the VM under test.

   The VM process itself is the state of the exploration: at each choice point
   it forks one child per alternative (depth first, with a token pool for
   parallelism), so every execution prefix is run once, on the real code.
   Choice points: scheduling decisions at bytecode boundaries (preempt the
   active process / deliver an armed external event / let a timer expire),
   a garbage collection at an allocation, or an explicit data choice.
   Non-default alternatives of the first two kinds cost one unit of a
   deviation budget; the tree within the budget is enumerated completely.

   MC_OUT      file the root process writes the distinct outcomes to
   MC_REPLAY   "i=v,i=v": follow one execution instead of exploring
   MC_TOKENS   parallelism
   MC_SECS     give up after that many seconds (reported as incomplete) */

#include "gstpriv.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <time.h>
#include <signal.h>
#include <sched.h>

#define NSLOTS (1 << 18)
#define ARENA (512L << 20)
#define MAXTRACE 64
#define MAXARM 16
#define MAXDEV 16

struct slot { uint64_t hash; long off; long count; };
struct shared {
  volatile int lock;
  volatile int tokens;
  volatile int stop;		/* out of time */
  volatile int overflow;
  long execs, steps, choices, forks, crashes, maxchoice;
  double deadline;
  long used;
  struct slot slots[NSLOTS];
  char arena[ARENA];
};
static struct shared *sh;
static int active, is_root, replaying, in_choose;
static pid_t root_pid;
static int budget, fires_timer, gc_mode, sched_mode, in_gc;
static long step_no, step_limit = 200000;
static long choice_no;
static struct { long idx; int val; } trace[MAXTRACE];
static int ntrace;
static char *logbuf; static size_t loglen, logcap;
static OOP armed[MAXARM]; static int narmed;
static int nkids;
static struct { pid_t pid; int tok, val; long idx; } kids[256];
static int have_token;
static int64_t vtime;		/* virtual nanoseconds */
static int64_t vdeadline;	/* 0 = no timer */
static const char *outpath;
static int gc_skip_choices;

static double
wall (void)
{
  struct timeval tv;
  static int (*real) (struct timeval *, void *);
  if (!real) real = dlsym (RTLD_NEXT, "gettimeofday");
  real (&tv, NULL);
  return tv.tv_sec + tv.tv_usec / 1e6;
}

static sigset_t saved_mask;
static void
lock (void)
{
  sigset_t all;
  sigfillset (&all);
  sigprocmask (SIG_BLOCK, &all, &saved_mask);
  while (!__sync_bool_compare_and_swap (&sh->lock, 0, 1))
    sched_yield ();
}
static void
unlock (void)
{
  __sync_synchronize ();
  sh->lock = 0;
  sigprocmask (SIG_SETMASK, &saved_mask, NULL);
}

static int
get_token (void)
{
  int t;
  do
    {
      t = sh->tokens;
      if (t <= 0) return 0;
    }
  while (!__sync_bool_compare_and_swap (&sh->tokens, t, t - 1));
  return 1;
}
static void put_token (void) { __sync_fetch_and_add (&sh->tokens, 1); }

static void
tracestr (char *buf, size_t n)
{
  int i; size_t k = 0;
  buf[0] = 0;
  for (i = 0; i < ntrace && k + 32 < n; i++)
    k += snprintf (buf + k, n - k, "%s%ld=%d", i ? "," : "", trace[i].idx, trace[i].val);
}

static void
record (const char *s, size_t len)
{
  uint64_t h = 1469598103934665603ULL;
  size_t i; long idx; char tb[1024];
  for (i = 0; i < len; i++) h = (h ^ (unsigned char) s[i]) * 1099511628211ULL;
  if (!h) h = 1;
  tracestr (tb, sizeof tb);
  lock ();
  sh->execs++;
  sh->steps += step_no;
  if (choice_no > sh->maxchoice) sh->maxchoice = choice_no;
  idx = h & (NSLOTS - 1);
  for (i = 0; i < 64; i++, idx = (idx + 1) & (NSLOTS - 1))
    {
      if (sh->slots[idx].hash == h) { sh->slots[idx].count++; break; }
      if (!sh->slots[idx].hash)
	{
	  size_t tl = strlen (tb);
	  if (sh->used + tl + len + 2 > ARENA) { sh->overflow = 1; break; }
	  memcpy (sh->arena + sh->used, tb, tl + 1);
	  memcpy (sh->arena + sh->used + tl + 1, s, len);
	  sh->arena[sh->used + tl + 1 + len] = 0;
	  sh->slots[idx].hash = h;
	  sh->slots[idx].off = sh->used;
	  sh->slots[idx].count = 1;
	  sh->used += tl + len + 2;
	  break;
	}
    }
  if (i == 64) sh->overflow = 1;
  unlock ();
}

static void
child_died (pid_t pid, int status)
{
  int i;
  char b[128];
  for (i = 0; i < 256; i++)
    if (kids[i].pid == pid) break;
  if (i == 256) return;
  kids[i].pid = 0;
  if (WIFEXITED (status) && WEXITSTATUS (status) == 0)
    return;
  if (kids[i].tok) put_token ();
  __sync_fetch_and_add (&sh->crashes, 1);
  snprintf (b, sizeof b, WIFSIGNALED (status) ? "CRASH signal %d" : "CRASH exit %d",
	    WIFSIGNALED (status) ? WTERMSIG (status) : WEXITSTATUS (status));
  trace[ntrace].idx = kids[i].idx; trace[ntrace].val = kids[i].val; ntrace++;
  record (b, strlen (b));
  ntrace--;
}

static void
reap (pid_t want)
{
  int st; pid_t p;
  do
    p = waitpid (want, &st, 0);
  while (p < 0 && errno == EINTR);
  if (p <= 0) { if (want == -1) nkids = 0; return; }
  nkids--;
  child_died (p, st);
}

static void
putjson (FILE *f, const char *s)
{
  putc ('"', f);
  for (; *s; s++)
    if (*s == '"' || *s == '\\') fprintf (f, "\\%c", *s);
    else if ((unsigned char) *s < 32 || (unsigned char) *s > 126) fprintf (f, "\\u%04x", (unsigned char) *s);
    else putc (*s, f);
  putc ('"', f);
}

static void
dump (void)
{
  FILE *f = fopen (outpath, "w");
  long i;
  if (!f) _exit (3);
  for (i = 0; i < NSLOTS; i++)
    if (sh->slots[i].hash)
      {
	char *t = sh->arena + sh->slots[i].off;
	fprintf (f, "{\"count\":%ld,\"trace\":", sh->slots[i].count);
	putjson (f, t);
	fprintf (f, ",\"outcome\":");
	putjson (f, t + strlen (t) + 1);
	fprintf (f, "}\n");
      }
  fprintf (f, "{\"stats\":{\"execs\":%ld,\"steps\":%ld,\"choices\":%ld,\"forks\":%ld,\"crashes\":%ld,"
	   "\"maxchoice\":%ld,\"stop\":%d,\"overflow\":%d}}\n",
	   sh->execs, sh->steps, sh->choices, sh->forks, sh->crashes, sh->maxchoice, sh->stop, sh->overflow);
  fclose (f);
}

static void
finish (const char *tail)
{
  size_t n = loglen + strlen (tail) + 1;
  char *s = malloc (n + 1);
  active = 0;
  memcpy (s, logbuf, loglen);
  strcpy (s + loglen, tail);
  record (s, strlen (s));
  while (nkids > 0)
    {
      int before = nkids;
      reap (-1);
      if (nkids == before) break;
    }
  if (getpid () == root_pid)
    {
      dump ();
      _exit (0);
    }
  if (have_token) put_token ();
  _exit (0);
}

static void
limits (void)
{
  struct itimerval it;
  memset (&it, 0, sizeof it);
  it.it_value.tv_sec = 30;
  signal (SIGPROF, SIG_DFL);
  setitimer (ITIMER_PROF, &it, NULL);
}

static int
choose (int n, int cost)
{
  int i;
  if (n <= 1) return 0;
  if (replaying)
    {
      long c = choice_no++;
      for (i = 0; i < ntrace; i++)
	if (trace[i].idx == c) return trace[i].val < n ? trace[i].val : 0;
      return 0;
    }
  if (cost > budget || ntrace >= MAXTRACE - 1 || sh->stop)
    {
      choice_no++;
      return 0;
    }
  if ((choice_no & 15) == 0 && wall () > sh->deadline) sh->stop = 1;
  __sync_fetch_and_add (&sh->choices, 1);
  for (i = 1; i < n; i++)
    {
      int tok, k;
      pid_t p;
      for (k = 0; k < 256 && kids[k].pid; k++);
      if (k == 256) { reap (-1); i--; continue; }
      tok = get_token ();
      __sync_fetch_and_add (&sh->forks, 1);
      p = fork ();
      if (p < 0)
	{
	  if (tok) put_token ();
	  if (nkids > 0) { reap (-1); i--; continue; }
	  usleep (1000); i--; continue;
	}
      if (p == 0)
	{
	  nkids = 0;
	  memset (kids, 0, sizeof kids);
	  have_token = tok;
	  trace[ntrace].idx = choice_no; trace[ntrace].val = i; ntrace++;
	  budget -= cost;
	  step_no = 0;	/* count the suffix only */
	  limits ();
	  choice_no++;
	  return i;
	}
      nkids++;
      kids[k].pid = p; kids[k].tok = tok; kids[k].idx = choice_no; kids[k].val = i;
      if (!tok)
	reap (p);
    }
  choice_no++;
  return 0;
}

/* ------------------------------------------------------------------ hooks */

static int
fire (int k)
{
  OOP s = armed[k];
  int i;
  for (i = k; i + 1 < narmed; i++) armed[i] = armed[i + 1];
  narmed--;
  _gst_async_signal_and_unregister (s);
  return 0;
}

static void
fire_timer (void)
{
  if (vtime < vdeadline) vtime = vdeadline;
  vdeadline = 0;
  raise (SIGALRM);
}

/* How a bytecode can interact with other processes (visible.h is made from
   vm.def by lib/build.py): 0 = not at all, 1 = only if it does not just
   activate a context, 2 = it accesses shared state.  Preempting a process
   before and after a run of class 0 bytecodes is equivalent, so only the
   first of these points is offered.  */
#include "visible.h"
static OOP last_ctx, last_act;
static int last_op = -1, pending_visible = 1;

static int
step_hook (mst_Boolean interruptible, const gst_uchar *ip)
{
  gst_processor_scheduler proc;
  OOP act, list;
  gst_process p;
  gst_semaphore l;
  int n = 1, prio, yield_c = -1, timer_c = -1, arm_c = -1, c;
  if (!active || in_choose) return 0;
  if (++step_no > step_limit) finish ("|STEPLIMIT");
  proc = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
  act = proc->activeProcess;
  if (!pending_visible)
    {
      OOP ctx = _gst_this_context_oop;
      int k = last_op < 0 ? 2 : visible_bytecode[last_op];
      if (last_act != act) k = 2;
      if (k == 1 && ctx != last_ctx
	  && ((gst_method_context) OOP_TO_OBJ (ctx))->parentContext == last_ctx)
	k = 0;
      if (k) pending_visible = 1;
    }
  last_ctx = _gst_this_context_oop;
  last_act = act;
  last_op = *ip;
  if (!interruptible || !sched_mode) return 0;
  if (IS_NIL (act)) return 0;
  p = (gst_process) OOP_TO_OBJ (act);
  prio = TO_INT (p->priority);
  if (prio <= 1) return 0;
  list = ARRAY_AT (proc->processLists, prio);
  l = (gst_semaphore) OOP_TO_OBJ (list);
  if (sched_mode & 8)
    pending_visible = 1;	/* armed events only, at every bytecode */
  else if (!IS_NIL (l->firstLink) && (l->firstLink != l->lastLink || l->firstLink != act)
      && !IS_NIL (p->myList))
    yield_c = n++;
  if (narmed) { arm_c = n; n += narmed; }
  if (vdeadline && fires_timer) timer_c = n++;
  if (n == 1) return 0;
  if (!pending_visible) return 0;
  pending_visible = 0;
  c = choose (n, 1);
  if (c == 0) return 0;
  if (c == yield_c) return 1;
  if (c == timer_c) { fire_timer (); return 0; }
  if (arm_c >= 0 && c >= arm_c && c < arm_c + narmed) fire (c - arm_c);
  return 0;
}

static OOP *eden_used;
static void
poison (void)
{
  struct surv_space *idle = _gst_mem.active_half == &_gst_mem.surv[0]
    ? &_gst_mem.surv[1] : &_gst_mem.surv[0];
  if (eden_used > _gst_mem.eden.allocPtr && eden_used <= _gst_mem.eden.maxPtr)
    memset (_gst_mem.eden.allocPtr, 0x5b, (char *) eden_used - (char *) _gst_mem.eden.allocPtr);
  memset (idle->minPtr, 0x5b, (char *) idle->maxPtr - (char *) idle->minPtr);
}

static void
do_gc (int c)
{
  in_gc = 1;
  eden_used = _gst_mem.eden.allocPtr;
  switch (c)
    {
    case 1: _gst_scavenge (); break;
    case 2: _gst_global_gc (0); _gst_incremental_gc_step (); break;
    case 3: _gst_global_compact (); break;
    case 4: _gst_scavenge (); _gst_scavenge (); break;
    case 5: _gst_incremental_gc_step (); break;
    case 6: _gst_finish_incremental_gc (); break;
    case 7: _gst_global_gc (0); break;
    case 8: _gst_grow_memory_to (_gst_mem.old->heap_limit + 1000000); break;
    }
  poison ();
  in_gc = 0;
}

/* Collect at every PAT_PERIOD-th allocation, starting at PAT_PHASE.  */
static int pat_kind, pat_period = 1, pat_phase, pat_n;
static void
mc_gc_pattern (int kind, int period, int phase)
{
  pat_kind = kind; pat_period = period; pat_phase = phase; pat_n = 0;
}

static void
alloc_hook (void)
{
  int c;
  if (!active || !gc_mode || in_gc || _gst_gc_running) return;
  if (++step_no > step_limit) finish ("|STEPLIMIT");
  if (pat_kind)
    {
      if (pat_n++ % pat_period == pat_phase) do_gc (pat_kind);
      return;
    }
  c = choose (gc_mode, 1);
  if (c) do_gc (c);
}

int
sigsuspend (const sigset_t *m)
{
  static int (*real) (const sigset_t *);
  if (!real) real = dlsym (RTLD_NEXT, "sigsuspend");
  if (!active) return real (m);
  if (narmed)
    {
      int c = choose (narmed, 0);
      fire (c);
      errno = EINTR;
      return -1;
    }
  if (vdeadline)
    {
      sigset_t old;
      fire_timer ();
      /* deliver it, as the real one would */
      sigprocmask (SIG_SETMASK, m, &old);
      sigprocmask (SIG_SETMASK, &old, NULL);
      errno = EINTR;
      return -1;
    }
  finish ("|DEADLOCK");
  return -1;
}

int
timer_settime (timer_t t, int flags, const struct itimerspec *v, struct itimerspec *o)
{
  static int (*real) (timer_t, int, const struct itimerspec *, struct itimerspec *);
  if (!real) real = dlsym (RTLD_NEXT, "timer_settime");
  if (!active) return real (t, flags, v, o);
  vdeadline = v->it_value.tv_sec * 1000000000LL + v->it_value.tv_nsec;
  if (vdeadline && vdeadline <= vtime) { vdeadline = 0; raise (SIGALRM); }
  return 0;
}

int
clock_gettime (clockid_t c, struct timespec *t)
{
  static int (*real) (clockid_t, struct timespec *);
  if (!real) real = dlsym (RTLD_NEXT, "clock_gettime");
  if (!active) return real (c, t);
  t->tv_sec = vtime / 1000000000;
  t->tv_nsec = vtime % 1000000000;
  return 0;
}

int
gettimeofday (struct timeval *t, void *z)
{
  static int (*real) (struct timeval *, void *);
  if (!real) real = dlsym (RTLD_NEXT, "gettimeofday");
  if (!active) return real (t, z);
  t->tv_sec = vtime / 1000000000;
  t->tv_usec = vtime % 1000000000 / 1000;
  return 0;
}

int
nanosleep (const struct timespec *a, struct timespec *b)
{
  static int (*real) (const struct timespec *, struct timespec *);
  if (!real) real = dlsym (RTLD_NEXT, "nanosleep");
  if (!active) return real (a, b);
  return 0;
}

/* --------------------------------------------------------------- call-outs */

static void nop (OOP x) { }
static void at_exit (void);

static void
mc_log (const char *s)
{
  size_t n = strlen (s);
  if (loglen + n + 2 > logcap)
    logbuf = realloc (logbuf, logcap = (loglen + n + 2) * 2);
  memcpy (logbuf + loglen, s, n + 1);
  loglen += n;
}

static void
mc_log_int (long i)
{
  char b[32];
  snprintf (b, sizeof b, "%ld", i);
  mc_log (b);
}

/* MODE: bit 0 = scheduling points, bit 1 = timer expiry is a choice;
   GC = number of collection alternatives (0 or 2..5).  */
static void
mc_begin (int bound, int mode, int gc)
{
  const char *e;
  if (active) return;
  outpath = getenv ("MC_OUT");
  if (!outpath) outpath = "/dev/null";
  sh = mmap (NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) _exit (4);
  e = getenv ("MC_TOKENS");
  sh->tokens = e ? atoi (e) - 1 : 7;
  e = getenv ("MC_SECS");
  sh->deadline = wall () + (e ? atoi (e) : 600);
  e = getenv ("MC_BOUND");
  budget = e ? atoi (e) : bound;
  e = getenv ("MC_STEPS");
  if (e) step_limit = atol (e);
  e = getenv ("MC_REPLAY");
  if (e)
    {
      const char *q = e;
      replaying = 1;
      ntrace = 0;
      while (*q && ntrace < MAXTRACE)
	{
	  char *r;
	  trace[ntrace].idx = strtol (q, &r, 10);
	  if (*r != '=') break;
	  trace[ntrace].val = strtol (r + 1, &r, 10);
	  ntrace++;
	  q = *r == ',' ? r + 1 : r;
	}
    }
  fflush (stdout);
  root_pid = getpid ();
  vtime = 1000000000LL * 1000000;
  {
    struct timespec ts;
    clock_gettime (CLOCK_MONOTONIC, &ts);
    vtime = (ts.tv_sec + 10) * 1000000000LL;
  }
  sched_mode = mode & (1 | 8);
  fires_timer = (mode & 2) != 0;
  gc_mode = gc;
  logcap = 4096; logbuf = malloc (logcap); loglen = 0; logbuf[0] = 0;
  active = 1;
  atexit (at_exit);
  limits ();
  _gst_gc_message = false;
  _gst_mc_step_hook = step_hook;
  _gst_mc_alloc_hook = gc ? alloc_hook : NULL;
  _gst_async_call (nop, _gst_nil_oop);
}

static void at_exit (void) { if (active) finish ("|EXIT"); }
static void mc_end (const char *tail) { if (active) finish (tail); }
static int mc_choose (int n) { return active ? choose (n, 0) : 0; }
static int mc_choose_cost (int n, int cost) { return active ? choose (n, cost) : 0; }
static void mc_arm (OOP s)
{
  if (!active || narmed >= MAXARM) return;
  _gst_register_oop (s);
  armed[narmed++] = s;
}
/* Forget about an event that did not happen.  */
static void mc_disarm (OOP s)
{
  int i;
  for (i = 0; i < narmed; i++)
    if (armed[i] == s)
      {
	for (; i + 1 < narmed; i++) armed[i] = armed[i + 1];
	narmed--;
	return;
      }
}
static void mc_sched (int on) { sched_mode = on; }
static void mc_gc_set (int n) { gc_mode = n; }
static void mc_gc_now (int c) { in_gc = 0; do_gc (c); }
static long mc_vtime_ms (void) { return vtime / 1000000; }
static void mc_advance_ms (long ms) { vtime += ms * 1000000LL; if (vdeadline && vtime >= vdeadline) fire_timer (); }
static int mc_active (void) { return active; }
/* exit of a plain (non exploring) run, without running anything else */
static void mc_exit (int c) { fflush (stdout); _exit (c); }
static int mc_pid (void) { return getpid (); }

extern void _gst_define_cfunc (const char *, PTR);

static void __attribute__ ((constructor))
mc_init (void)
{
  _gst_define_cfunc ("mcBegin", mc_begin);
  _gst_define_cfunc ("mcEnd", mc_end);
  _gst_define_cfunc ("mcLog", mc_log);
  _gst_define_cfunc ("mcLogInt", mc_log_int);
  _gst_define_cfunc ("mcChoose", mc_choose);
  _gst_define_cfunc ("mcChooseCost", mc_choose_cost);
  _gst_define_cfunc ("mcArm", mc_arm);
  _gst_define_cfunc ("mcDisarm", mc_disarm);
  _gst_define_cfunc ("mcSched", mc_sched);
  _gst_define_cfunc ("mcGcMode", mc_gc_set);
  _gst_define_cfunc ("mcGcNow", mc_gc_now);
  _gst_define_cfunc ("mcGcPattern", mc_gc_pattern);
  _gst_define_cfunc ("mcTime", mc_vtime_ms);
  _gst_define_cfunc ("mcAdvance", mc_advance_ms);
  _gst_define_cfunc ("mcActive", mc_active);
  _gst_define_cfunc ("mcExit", mc_exit);
  _gst_define_cfunc ("mcPid", mc_pid);
}
