#pragma once
namespace race {
#ifdef MC_RACE
void prepare(); void start(); void acquire(const void *o); void release(const void *o); void created(int id); void joined(int id); void barrier(); bool on(); void fresh(void *p);
#else
inline void prepare() {} inline void start() {} inline void acquire(const void *) {} inline void release(const void *) {} inline void created(int) {} inline void joined(int) {} inline void barrier() {} inline bool on() { return false; } inline void fresh(void *) {}
#endif
}
