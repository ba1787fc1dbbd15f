/* Controlled OpenMP runtime: every virtual thread is a real thread, one runs at a time, who runs
 * next is decided by a choice vector; every instrumented access is checked against all logically
 * concurrent ones. */
#ifndef SCHEDRT_HPP
#define SCHEDRT_HPP
struct SchedRun { int threads, levels; const unsigned char *choice; int nchoice; int order; /* 0: ascending, 1: descending */ int fill; int limit=1000; /* threads there are at most */ };
struct SchedOut { int npoints; const unsigned char *width; int regions, tasks, races; long accesses; const char *race; bool deadlock; };
extern "C" { void sched_begin(const SchedRun*); void sched_end(SchedOut*); void sched_access(const void*p,unsigned long n,bool w); void sched_planner(void); }
#endif
