// Happens-before data-race detection over the simulated schedule (variant "race" only).
#pragma once
#include <cstddef>
#include <cstdint>
void race_fork(int parent, int child);
void race_join(int waiter, int finished);
void race_acquire(const void* obj, bool exclusive);       // lock taken: exclusive or shared
void race_release(const void* obj, bool exclusive);
void race_forget(const void* obj);
void race_rmw(const void* obj);                           // acquire + release (atomics, kernel objects)
void race_join_all();
void race_access(const void* p, size_t n, bool wr, void* pc);
void race_stack(const void* lo, const void* hi);
extern bool g_race_on;
void race_freed(void* p);                                // memory given back by the harness
