/* A small OpenMP runtime for ThreadSanitizer runs.

   libgomp synchronizes with futexes that ThreadSanitizer does not see, so every
   parallel region would be reported as a race.  This runtime implements the part
   of libgomp's interface that compiled code uses with pthreads, whose
   synchronization ThreadSanitizer understands.  It deliberately adds no ordering
   that OpenMP does not promise: the threads of a team are ordered only by the
   start and end of the region, barriers, critical sections and locks; loop chunks
   are handed out with relaxed atomics.

   MINIGOMP_JITTER=<seed> makes threads pause at random points (region start,
   chunk acquisition, barriers), for more varied interleavings.
   MINIGOMP_STATS=<file> appends the number of regions, chunks and barriers seen. */
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>

#define NWS 16384
typedef unsigned long long ull;
typedef struct team {
	int n;
	pthread_mutex_t lock; pthread_cond_t cond; int waiting; unsigned gen;
	long * ws;             /* chunk counters of the worksharing loops, in order of appearance */
	void * copy;           /* copyprivate */
} team;
typedef struct { team * t; int id; int seq; int cur; ull start, end, incr, chunk; long lstart, lend, lincr, lchunk; bool up; int kind; unsigned rnd; long stat_i; } self_t;
typedef struct { void (*fn)(void*); void * data; team * t; int id; } arg_t;

static __thread self_t self = { NULL, 0 };
static int max_threads = 0;
static long n_region = 0, n_chunk = 0, n_barrier = 0, n_multi = 0;
static unsigned jitter = 0; static int inited = 0;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t init_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atomic_lock = PTHREAD_MUTEX_INITIALIZER;

static void stats(void) {
	char * f = getenv("MINIGOMP_STATS"); if(!f) return;
	FILE * fd = fopen(f, "a"); if(!fd) return;
	fprintf(fd, "{\"regions\": %ld, \"multithreaded\": %ld, \"chunks\": %ld, \"barriers\": %ld}\n", n_region, n_multi, n_chunk, n_barrier); fclose(fd);
}
static void init(void) {
	pthread_mutex_lock(&init_lock);
	if(!inited) {
		char * s = getenv("OMP_NUM_THREADS"); int n = s ? atoi(s) : 0;
		if(n < 1) n = (int)sysconf(_SC_NPROCESSORS_ONLN);
		if(max_threads < 1) max_threads = n;
		s = getenv("MINIGOMP_JITTER"); jitter = s ? (unsigned)atoi(s) : 0;
		atexit(stats);
		inited = 1;
	}
	pthread_mutex_unlock(&init_lock);
}
static void pause_(void) {
	if(!jitter) return;
	self.rnd = self.rnd*1664525u + 1013904223u;
	unsigned r = (self.rnd >> 16) & 15;
	if(r < 3) sched_yield();
	else if(r == 3) { struct timespec t = {0, 20000}; nanosleep(&t, NULL); }
}
static void * thread_main(void * p) {
	arg_t * a = p; memset(&self, 0, sizeof(self)); self.t = a->t; self.id = a->id; self.rnd = jitter*7919u + a->id*104729u;
	pause_(); a->fn(a->data); return NULL;
}
void GOMP_parallel(void (*fn)(void*), void * data, unsigned nthr, unsigned flags) {
	init();
	int n = nthr ? (int)nthr : max_threads; if(self.t && self.t->n > 1) n = 1;
	team t; memset(&t, 0, sizeof(t)); t.n = n; pthread_mutex_init(&t.lock, NULL); pthread_cond_init(&t.cond, NULL); t.ws = calloc(NWS, sizeof(long));
	__atomic_fetch_add(&n_region, 1, __ATOMIC_RELAXED); if(n > 1) __atomic_fetch_add(&n_multi, 1, __ATOMIC_RELAXED);
	pthread_t * th = malloc(sizeof(pthread_t)*n); arg_t * args = malloc(sizeof(arg_t)*n);
	for(int i = 1; i < n; i++) { args[i] = (arg_t){fn, data, &t, i}; if(pthread_create(&th[i], NULL, thread_main, &args[i])) { perror("minigomp"); abort(); } }
	self_t old = self; memset(&self, 0, sizeof(self)); self.t = &t; self.id = 0; self.rnd = jitter*7919u;
	pause_(); fn(data);
	for(int i = 1; i < n; i++) pthread_join(th[i], NULL);
	self = old; free(th); free(args); free(t.ws); pthread_mutex_destroy(&t.lock); pthread_cond_destroy(&t.cond);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void * data, unsigned nthr, unsigned flags) { GOMP_parallel(fn, data, nthr, flags); return nthr ? nthr : (unsigned)max_threads; }
void GOMP_barrier(void) {
	team * t = self.t; pause_(); if(!t || t->n == 1) return;
	__atomic_fetch_add(&n_barrier, 1, __ATOMIC_RELAXED);
	pthread_mutex_lock(&t->lock); unsigned g = t->gen;
	if(++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->cond); }
	else while(g == t->gen) pthread_cond_wait(&t->cond, &t->lock);
	pthread_mutex_unlock(&t->lock);
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
/* worksharing loops */
static int nthr(void) { return self.t ? self.t->n : 1; }
static int newws(void) { int i = self.seq++; if(i >= NWS) { fprintf(stderr, "minigomp: too many loops\n"); abort(); } return i; }
static long take(void) {
	static long serial; pause_(); __atomic_fetch_add(&n_chunk, 1, __ATOMIC_RELAXED);
	if(!self.t) return self.stat_i++;
	(void)serial; return __atomic_fetch_add(&self.t->ws[self.cur], 1, __ATOMIC_RELAXED);
}
static bool lnext(long * a, long * b) {
	long k = take(), n = self.up ? (self.lend-self.lstart+self.lincr-1)/self.lincr : (self.lend-self.lstart+self.lincr+1)/self.lincr;
	long i = k*self.lchunk; if(i >= n) return false;
	long j = i+self.lchunk; if(j > n) j = n;
	*a = self.lstart+i*self.lincr; *b = self.lstart+j*self.lincr; return true;
}
static bool lstart(long start, long end, long incr, long chunk, long * a, long * b) {
	self.lstart = start; self.lend = end; self.lincr = incr; self.lchunk = chunk < 1 ? 1 : chunk; self.up = incr > 0; self.stat_i = 0; self.cur = newws(); return lnext(a, b);
}
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long * a, long * b) { return lstart(s,e,i,c,a,b); } \
	bool GOMP_loop_##name##_next(long * a, long * b) { return lnext(a,b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long * a, long * b) { return lstart(s,e,i,1,a,b); } \
	bool GOMP_loop_##name##_next(long * a, long * b) { return lnext(a,b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
static bool unext(ull * a, ull * b) {
	ull n = self.up ? (self.end-self.start+self.incr-1)/self.incr : (self.start-self.end+(-self.incr)-1)/(-self.incr);
	if(self.up ? self.end <= self.start : self.end >= self.start) n = 0;
	ull i = (ull)take()*self.chunk; if(i >= n) return false;
	ull j = i+self.chunk; if(j > n) j = n;
	*a = self.start+i*self.incr; *b = self.start+j*self.incr; return true;
}
static bool ustart(bool up, ull s, ull e, ull i, ull c, ull * a, ull * b) { self.up = up; self.start = s; self.end = e; self.incr = i; self.chunk = c < 1 ? 1 : c; self.stat_i = 0; self.cur = newws(); return unext(a, b); }
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull * a, ull * b) { return ustart(up,s,e,i,c,a,b); } \
	bool GOMP_loop_ull_##name##_next(ull * a, ull * b) { return unext(a,b); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
#define ULOOPR(name) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull * a, ull * b) { return ustart(up,s,e,i,1,a,b); } \
	bool GOMP_loop_ull_##name##_next(ull * a, ull * b) { return unext(a,b); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait(void) { }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void * data, unsigned n, long s, long e, long i, long c, unsigned flags) { struct pl p = {fn, data, s, e, i, c}; GOMP_parallel(plrun, &p, n, flags); }
struct pl { void (*fn)(void*); void * data; long s, e, i, c; };
/* combined parallel loops set up the loop before the body asks for its first chunk */
static void plrun(void * q) { struct pl * p = q; self.lstart = p->s; self.lend = p->e; self.lincr = p->i; self.lchunk = p->c < 1 ? 1 : p->c; self.up = p->i > 0; self.stat_i = 0; self.cur = newws(); p->fn(p->data); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void * data, unsigned n, long s, long e, long i, unsigned flags) { struct pl p = {fn, data, s, e, i, 1}; GOMP_parallel(plrun, &p, n, flags); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
/* sections */
static unsigned nsect(void) { long k = take()+1; return k <= (long)self.lend ? (unsigned)k : 0; }
unsigned GOMP_sections_start(unsigned n) { self.lend = n; self.stat_i = 0; self.cur = newws(); return nsect(); }
unsigned GOMP_sections_next(void) { return nsect(); }
void GOMP_parallel_sections(void (*fn)(void*), void * data, unsigned n, unsigned count, unsigned flags) { struct pl p = {fn, data, 0, count, 1, 1}; GOMP_parallel(plrun, &p, n, flags); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { }
/* single, master, critical, atomic, ordered */
bool GOMP_single_start(void) { self.stat_i = 0; self.cur = newws(); return take() == 0; }
void * GOMP_single_copy_start(void) { self.stat_i = 0; self.cur = newws(); if(take() == 0) return NULL; GOMP_barrier(); return self.t ? self.t->copy : NULL; }
void GOMP_single_copy_end(void * p) { if(self.t) self.t->copy = p; GOMP_barrier(); }
void GOMP_critical_start(void) { pause_(); pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); }
static pthread_mutex_t * named(void ** p) {
	pthread_mutex_t * m = __atomic_load_n((pthread_mutex_t**)p, __ATOMIC_ACQUIRE);
	if(!m) { pthread_mutex_t * q = malloc(sizeof(*q)); pthread_mutex_init(q, NULL); if(__atomic_compare_exchange_n((pthread_mutex_t**)p, &m, q, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = q; else free(q); }
	return m;
}
void GOMP_critical_name_start(void ** p) { pause_(); pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void ** p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomic_lock); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomic_lock); }
/* tasks run at once, in the encountering thread */
void GOMP_task(void (*fn)(void*), void * data, void (*cpy)(void*,void*), long size, long align, bool ifc, unsigned flags, void ** depend, int prio, void * detach) {
	if(cpy) { char * buf = malloc(size+align); char * p = (char*)(((size_t)buf+align-1)/align*align); cpy(p, data); fn(p); free(buf); } else fn(data);
}
void GOMP_taskwait(void) { } void GOMP_taskyield(void) { } void GOMP_taskgroup_start(void) { } void GOMP_taskgroup_end(void) { }
bool GOMP_cancel(int w, bool d) { return false; } bool GOMP_cancellation_point(int w) { return false; }
/* the omp_ interface */
int omp_get_max_threads(void) { init(); return max_threads; }
int omp_get_num_threads(void) { return nthr(); }
int omp_get_thread_num(void) { return self.t ? self.id : 0; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return self.t && self.t->n > 1; }
void omp_set_num_threads(int n) { init(); max_threads = n < 1 ? 1 : n; }
void omp_set_dynamic(int x) { } int omp_get_dynamic(void) { return 0; } void omp_set_nested(int x) { } int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return self.t ? 1 : 0; } int omp_get_thread_limit(void) { return 1024; } void omp_set_max_active_levels(int x) { } int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+1e-9*t.tv_nsec; }
typedef struct { pthread_mutex_t * m; } lock_t;
void omp_init_lock(lock_t * l) { l->m = malloc(sizeof(*l->m)); pthread_mutex_init(l->m, NULL); }
void omp_destroy_lock(lock_t * l) { pthread_mutex_destroy(l->m); free(l->m); }
void omp_set_lock(lock_t * l) { pthread_mutex_lock(l->m); }
void omp_unset_lock(lock_t * l) { pthread_mutex_unlock(l->m); }
int  omp_test_lock(lock_t * l) { return pthread_mutex_trylock(l->m) == 0; }
/* Fortran entry points */
int omp_get_max_threads_(void) { return omp_get_max_threads(); } int omp_get_num_threads_(void) { return nthr(); } int omp_get_thread_num_(void) { return omp_get_thread_num(); } void omp_set_num_threads_(int * n) { omp_set_num_threads(*n); }
