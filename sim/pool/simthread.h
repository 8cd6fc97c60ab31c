// The simulated threads: real ones, of which exactly one runs at a time; which one, and when it
// is cut off, is decided by the plan.
#pragma once
#include <stdint.h>
#include <vector>
struct Event { int64_t gap; int kind; int pick; };
struct Stats { uint64_t steps, switches, preempts, spurious, createfail, allocfail, threads, hash; };
extern Stats st;
void simStart(const std::vector<Event> &, const std::vector<int> &wakes, uint64_t limit);
void simStop();
int simSpawn(void (*fn)(int), int arg);        // a client thread: index
void simJoin(int);
void simPoint();
void simBlock(bool (*pred)(void *), void *arg, const char *why);
int simLive();                                  // threads that have not ended
void simFailCreate(int at, int len);            // the at-th and len - 1 following thread creations fail
void simFailAlloc(int at, int len);             // same for memory requests of the calling thread; -1: none
int simFired();
int64_t simBlocks();                            // live heap blocks
[[noreturn]] void simDie(int code, const char *fmt, ...);
void simCover();                                // prints the basic blocks reached
