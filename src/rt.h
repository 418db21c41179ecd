// A controlled scheduler and memory monitor for code compiled with -fsanitize=thread instrumentation but linked with
// this runtime instead of the sanitizer's: one thread runs at a time, every synchronisation operation is a scheduling
// point, every plain access is checked with vector clocks (data races), against freed blocks and against block bounds.
#pragma once
#include <cstddef>
namespace rt {
int spawn(void (*f)(void *), void * a);   // returns a thread number
void join(int t);
struct Mutex { int owner = -1; void lock(); void unlock(); };
void fail(char const * fmt, ...) __attribute__((format(printf, 1, 2)));   // reports a violation, does not return
long live_blocks();                       // blocks obtained and not given back
void note(int v);                         // adds to the set of observed outcomes
int self();
// explores every schedule of run(s) for s in [0, n); returns the exit status of the program
int explore(int argc, char ** argv, int n, void (*run)(int), void (*describe)(int, char *, std::size_t), int bound);
}
