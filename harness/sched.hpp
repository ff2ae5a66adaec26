// Controlled scheduler: explores every interleaving (up to a preemption bound) of the synchronisation operations of real
// threads running real code, with a happens-before check of every memory access. Implemented in sched_rt.cpp.
#pragma once
extern "C" {
struct SchedResult { long schedules, accesses, syncops; int race, deadlock, truncated; char what[512]; };
// threads 0..n-1 run fn(ctx, id); before(ctx)/after(ctx, schedule) run on the calling thread around each schedule
void sched_explore(int n, void (*fn)(void*, int), void (*before)(void*), void (*after)(void*, long), void* ctx, int preempt, long maxSchedules, struct SchedResult* out);
}
