// Controlled scheduler: inside a session exactly one managed thread runs at a time, and every decision about which one
// (at lock, atomic, thread start/exit/join, wait, and explicit points) is taken from mc::Ctx, so that the engine
// enumerates all schedules up to its preemption bound.  In the "sched" build variant the code under test is compiled
// with -fsanitize=thread instrumentation but linked against the small runtime in ctlsched.cc instead of libtsan: it checks
// every access for a data race by happens-before (vector clocks).  Race freedom of every explored schedule is what
// makes it sound to switch threads only at synchronisation operations.
#pragma once
#include <string>

#include "mc.h"

namespace sched {

struct Options {
    bool atomics = true;       // atomic operations on addresses shared by threads are scheduling points
    int failCreate = -1;       // the n-th thread creation fails with EAGAIN
};
void begin(mc::Ctx& c, Options o = Options());
// Ends the session (threads still running are run to their end first)
struct Result {
    std::string race;     // first data race found, or empty
    std::string raceKey;
    int threads = 0;      // threads created
    int leftRunning = 0;  // threads that had not finished when end() was called
    int points = 0;       // scheduling points passed
    int switches = 0;     // context switches
    bool tracked = false; // accesses were tracked (build variant "sched")
};
Result end();
// a scheduling point (used by test doubles, e.g. at each operation of a data handle)
void point();
// number of managed threads, other than the one that began the session, which have not finished
int alive();
int self();

}  // namespace sched
