// Bounded exhaustive exploration engine ("stateless model checker") used by every check in /verif.
//
// A scenario is a deterministic function body(Ctx&).  Every source of nondeterminism in it -- input values, operation
// sequences, fault positions, scheduling decisions -- is taken from Ctx::choose()/dev().  The engine enumerates EVERY
// path through the choice tree depth first (dev() choices under a deviation budget), running the body once per path
// against the real code.  Work is sharded over worker processes at Ctx::shard() points, crashes (ASan, signals) and
// hangs are caught by the parent process and attributed to the exact path that caused them.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace mc {

struct Violation {
    std::string key;
    std::string msg;
};
struct SkipPath {};

class Ctx {
public:
    // one of n alternatives, all of them explored
    int choose(int n, const char* label = "");
    // one of n alternatives; 0 is the default answer, any other costs one unit of the scenario's deviation budget
    int dev(int n, const char* label = "");
    bool flip(const char* label = "") { return choose(2, label) == 1; }
    template <typename V>
    const typename V::value_type& pick(const V& v, const char* label = "") {
        return v[choose(int(v.size()), label)];
    }
    // everything chosen so far forms one unit of work (distributed over the workers)
    void shard();
    // this path is redundant or outside the stated space: not counted
    [[noreturn]] void skip();
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    void check(bool ok, const std::string& key, const std::string& msg) {
        if (!ok)
            fail(key, msg);
    }
    // label of the operation in progress (used as the key when the process crashes or hangs)
    void at(const std::string& where);
    // human readable trace for replays and samples
    void note(const std::string& s) { notes_.push_back(s); }
    // an observation: distinct ones are counted
    void outcome(const std::string& s);
    void outcome(uint64_t h);
    // this execution exercised something non trivial by the scenario's rule
    void nontrivial() { nontrivial_ = true; }
    // model checking counters
    void state(uint64_t h);
    void state(const std::string& s);
    void transition(uint64_t n = 1) { transitions_ += n; }

    bool thorough = false;
    bool replaying = false;
    int devBound = 0;

    // engine internals
    std::vector<uint16_t> path_, arity_;
    std::vector<uint8_t> isDev_;
    size_t pos_ = 0;
    int devUsed_ = 0;
    bool nontrivial_ = false;
    uint64_t transitions_ = 0;
    std::vector<std::string> notes_;
    std::vector<uint64_t> outcomes_, states_;
    bool sharded_ = false;
    uint64_t shardOrdinal_ = 0;
};

struct Scenario {
    std::string name;
    std::string rule;  // what is enumerated, what is non trivial
    std::function<void(Ctx&)> body;
    int devQuick = 0, devThorough = 0;
    bool quick = true;       // part of the quick tier?
    double hangSeconds = 60;
    bool isolate = false;    // unused
};

uint64_t hashStr(const std::string& s);
std::string hex(const void* p, size_t n);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Scratch directory private to this process (removed by the parent at the end).
const std::string& scratchDir();

// called once in every worker before the first execution
extern std::function<void()> workerInit;

}  // namespace mc

// every check defines this
std::vector<mc::Scenario> scenarios();
