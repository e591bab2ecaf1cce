#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include <unordered_set>

namespace mc {

std::function<void()> workerInit;

static const size_t MAXPATH = 4096;
static const size_t MAXSHARDS = 1 << 22;

struct Slot {
    volatile uint32_t len;
    volatile uint64_t execs;      // heartbeat
    volatile uint32_t running;
    volatile uint32_t done;
    volatile uint64_t evaluations, nontrivial, transitions, skipped;
    volatile uint32_t stopped;
    volatile uint32_t baseLen;
    char where[256];
    uint16_t path[MAXPATH];
    uint16_t arity[MAXPATH];
    uint8_t isDev[MAXPATH];
};

static Slot* g_slots    = nullptr;
static Slot* g_slot     = nullptr;
static uint8_t* g_claim = nullptr;
static volatile uint32_t* g_stop = nullptr;
static int g_worker     = -1;
static uint64_t g_shardCounter = 0;
static uint64_t g_resumeShard  = 0;
static bool g_single = false;
static std::string g_scratchRoot;

uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    return h ^ (h >> 32);
}

std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += d[((const unsigned char*)p)[i] >> 4];
        s += d[((const unsigned char*)p)[i] & 15];
    }
    return s;
}

std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

const std::string& scratchDir() {
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        d     = g_scratchRoot + "/w" + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
    }
    return d;
}

int Ctx::choose(int n, const char*) {
    if (n <= 0 || n > 65535) {
        fprintf(stderr, "mc: choose(%d)\n", n);
        _exit(99);
    }
    if (pos_ < path_.size()) {
        if (arity_[pos_] != n || isDev_[pos_]) {
            fprintf(stderr, "mc: divergence while replaying a prefix at %zu: arity %d, recorded %d\n", pos_, n, arity_[pos_]);
            _exit(98);
        }
        return path_[pos_++];
    }
    if (path_.size() >= MAXPATH) {
        fprintf(stderr, "mc: path too long\n");
        _exit(97);
    }
    path_.push_back(0);
    arity_.push_back(n);
    isDev_.push_back(0);
    if (g_slot) {
        g_slot->path[pos_]  = 0;
        g_slot->arity[pos_] = n;
        g_slot->isDev[pos_] = 0;
        g_slot->len         = pos_ + 1;
    }
    return path_[pos_++];
}

int Ctx::dev(int n, const char*) {
    int eff = (devUsed_ >= devBound) ? 1 : n;
    if (pos_ < path_.size()) {
        if (arity_[pos_] != eff || !isDev_[pos_]) {
            fprintf(stderr, "mc: divergence while replaying a prefix at %zu (dev): arity %d, recorded %d\n", pos_, eff,
                    arity_[pos_]);
            _exit(98);
        }
        if (path_[pos_])
            devUsed_++;
        return path_[pos_++];
    }
    if (path_.size() >= MAXPATH) {
        fprintf(stderr, "mc: path too long\n");
        _exit(97);
    }
    path_.push_back(0);
    arity_.push_back(eff);
    isDev_.push_back(1);
    if (g_slot) {
        g_slot->path[pos_]  = 0;
        g_slot->arity[pos_] = eff;
        g_slot->isDev[pos_] = 1;
        g_slot->len         = pos_ + 1;
    }
    return path_[pos_++];
}

void Ctx::shard() {
    if (sharded_ || replaying || g_single)
        return;
    sharded_ = true;
    // A shard is identified by the position in the deterministic enumeration of prefixes. Only count it when the
    // prefix is new, i.e. nothing after this point has been chosen before.
    shardOrdinal_ = 0;
    std::string p((const char*)path_.data(), pos_ * 2);
    static std::string last;
    static uint64_t ordinal = 0;
    static bool have        = false;
    if (!have || p != last) {
        have    = true;
        last    = p;
        ordinal = hashStr(p) % MAXSHARDS;  // position independent identity (survives resuming after a crash)
        // collisions: linear probing would need the key; a collision would lose work, so verify with a second table
    }
    shardOrdinal_ = ordinal;
    uint64_t full = hashStr(p) | 1;
    uint64_t* table = (uint64_t*)g_claim;  // MAXSHARDS entries of (hash), owner in parallel table
    uint8_t* owner  = g_claim + MAXSHARDS * 8;
    for (uint64_t i = ordinal;; i = (i + 1) % MAXSHARDS) {
        uint64_t cur = __atomic_load_n(&table[i], __ATOMIC_ACQUIRE);
        if (cur == 0) {
            uint64_t expect = 0;
            if (__atomic_compare_exchange_n(&table[i], &expect, full, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                owner[i] = g_worker + 1;
                return;
            }
            cur = expect;
        }
        if (cur == full) {
            if (owner[i] == g_worker + 1)
                return;
            // belongs to somebody else: prune the whole subtree
            path_.resize(pos_);
            arity_.resize(pos_);
            isDev_.resize(pos_);
            throw SkipPath();
        }
    }
}

void Ctx::skip() {
    throw SkipPath();
}

void Ctx::fail(const std::string& key, const std::string& msg) {
    throw Violation{key, msg};
}

void Ctx::at(const std::string& where) {
    if (g_slot) {
        strncpy(g_slot->where, where.c_str(), sizeof(g_slot->where) - 1);
    }
}

void Ctx::outcome(uint64_t h) {
    outcomes_.push_back(h);
}
void Ctx::outcome(const std::string& s) {
    outcomes_.push_back(hashStr(s));
}
void Ctx::state(uint64_t h) {
    states_.push_back(h);
}
void Ctx::state(const std::string& s) {
    states_.push_back(hashStr(s));
}

namespace {

struct Options {
    std::string tier = "quick", out, replay, known, property, replayDir = ".", only;
    int jobs = 8;
    double budget = 1e9;
    bool verbose = false;
};
Options opt;

double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Found {
    std::string scenario, key, msg;
    std::vector<uint16_t> path, arity;
    std::vector<uint8_t> isDev;
    std::vector<std::string> notes;
    bool crash = false, hang = false;
};

std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n')
            r += "\\n";
        else if (c == '\\')
            r += "\\\\";
        else if (c < 32 || c >= 127)
            r += fmt("\\x%02x", c);
        else
            r += c;
    }
    return r;
}

std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127)
            r += fmt("\\u%04x", c);
        else
            r += c;
    }
    return r + "\"";
}

void appendFile(const std::string& f, const std::string& s) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
    ssize_t r = write(fd, s.data(), s.size());
    (void)r;
    close(fd);
}

std::string encPath(const std::vector<uint16_t>& p, const std::vector<uint16_t>& a, const std::vector<uint8_t>& d) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++)
        s += fmt("%s%d/%d%s", i ? " " : "", p[i], a[i], d[i] ? "d" : "");
    return s;
}

void decPath(const std::string& s, Found& f) {
    std::istringstream is(s);
    std::string t;
    while (is >> t) {
        int a = 0, b = 0;
        sscanf(t.c_str(), "%d/%d", &a, &b);
        f.path.push_back(a);
        f.arity.push_back(b);
        f.isDev.push_back(t.back() == 'd');
    }
}

bool nextPath(std::vector<uint16_t>& p, std::vector<uint16_t>& a, std::vector<uint8_t>& d) {
    while (!p.empty()) {
        if (p.back() + 1 < a.back()) {
            p.back()++;
            return true;
        }
        p.pop_back();
        a.pop_back();
        d.pop_back();
    }
    return false;
}

// Runs the body along ctx.path_; returns: 0 ok, 1 skipped, 2 violation
int runOnce(const Scenario& sc, Ctx& ctx, Violation& v) {
    ctx.pos_ = 0;
    ctx.devUsed_ = 0;
    ctx.nontrivial_ = false;
    ctx.transitions_ = 0;
    ctx.notes_.clear();
    ctx.outcomes_.clear();
    ctx.states_.clear();
    ctx.sharded_ = false;
    if (g_slot) {
        for (size_t i = 0; i < ctx.path_.size(); i++) {
            g_slot->path[i]  = ctx.path_[i];
            g_slot->arity[i] = ctx.arity_[i];
            g_slot->isDev[i] = ctx.isDev_[i];
        }
        g_slot->len     = ctx.path_.size();
        g_slot->where[0] = 0;
        g_slot->running = 1;
    }
    int rc = 0;
    try {
        sc.body(ctx);
    }
    catch (SkipPath&) {
        rc = 1;
    }
    catch (Violation& x) {
        v  = x;
        rc = 2;
    }
    catch (std::exception& e) {
        v  = Violation{std::string("exception@") + (g_slot ? g_slot->where : ""), std::string("unexpected exception: ") + e.what()};
        rc = 2;
    }
    if (g_slot) {
        g_slot->running = 0;
        g_slot->execs   = g_slot->execs + 1;
    }
    if (ctx.pos_ < ctx.path_.size() && rc == 0) {
        fprintf(stderr, "mc: path not fully consumed (%zu of %zu)\n", ctx.pos_, ctx.path_.size());
        _exit(98);
    }
    return rc;
}

std::string workFile(const char* kind, int w) {
    return g_scratchRoot + "/" + kind + std::to_string(w);
}

void redirectOutput() {
    int fd = open("/dev/null", O_WRONLY);
    if (!opt.verbose) {
        dup2(fd, 1);
        // keep stderr for engine/ASan messages in a per process log
        std::string log = g_scratchRoot + "/log." + std::to_string(getpid());
        int lf = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(lf, 2);
        close(lf);
    }
    close(fd);
}

std::string foundRecord(const Found& f) {
    std::string s = "V\t" + esc(f.key) + "\t" + esc(f.msg) + "\t" + encPath(f.path, f.arity, f.isDev) + "\t";
    for (auto& n : f.notes)
        s += esc(n) + "\\n";
    return s + "\n";
}

// The worker loop. Returns via _exit.
void workerMain(const Scenario& sc, int w, bool resume) {
    g_worker = w;
    g_slot   = &g_slots[w];
    redirectOutput();
    if (workerInit)
        workerInit();
    Ctx ctx;
    ctx.thorough = opt.tier == "thorough";
    ctx.devBound = ctx.thorough ? sc.devThorough : sc.devQuick;
    if (resume) {
        for (size_t i = 0; i < g_slot->len; i++) {
            ctx.path_.push_back(g_slot->path[i]);
            ctx.arity_.push_back(g_slot->arity[i]);
            ctx.isDev_.push_back(g_slot->isDev[i]);
        }
        if (!nextPath(ctx.path_, ctx.arity_, ctx.isDev_)) {
            g_slot->done = 1;
            _exit(0);
        }
    }
    std::unordered_set<uint64_t> outs, states;
    std::string obuf, sbuf;
    std::map<std::string, int> perKey;
    int nviol = 0, nsamples = 0;
    auto flush = [&] {
        if (!obuf.empty())
            appendFile(workFile("outcomes", w), obuf);
        if (!sbuf.empty())
            appendFile(workFile("states", w), sbuf);
        obuf.clear();
        sbuf.clear();
    };
    while (true) {
        if (*g_stop) {
            g_slot->stopped = 1;
            break;
        }
        Violation v;
        int rc = runOnce(sc, ctx, v);
        if (rc == 0 || rc == 2) {
            g_slot->evaluations = g_slot->evaluations + 1;
            if (ctx.nontrivial_)
                g_slot->nontrivial = g_slot->nontrivial + 1;
            g_slot->transitions = g_slot->transitions + ctx.transitions_;
            for (uint64_t h : ctx.outcomes_)
                if (outs.insert(h).second)
                    obuf.append((const char*)&h, 8);
            for (uint64_t h : ctx.states_)
                if (states.insert(h).second)
                    sbuf.append((const char*)&h, 8);
            if (obuf.size() + sbuf.size() > 4096)
                flush();
            if (rc == 0 && nsamples < 2 && (ctx.nontrivial_ || g_slot->evaluations > 50)) {
                nsamples++;
                std::string s = "S\t" + encPath(ctx.path_, ctx.arity_, ctx.isDev_) + "\t";
                for (auto& n : ctx.notes_)
                    s += esc(n) + "\\n";
                appendFile(workFile("found", w), s + "\n");
            }
        }
        else
            g_slot->skipped = g_slot->skipped + 1;
        if (rc == 2) {
            Found f;
            f.key   = v.key;
            f.msg   = v.msg;
            f.path  = ctx.path_;
            f.arity = ctx.arity_;
            f.isDev = ctx.isDev_;
            f.notes = ctx.notes_;
            if (perKey[v.key]++ < 3)
                appendFile(workFile("found", w), foundRecord(f));
            else if (perKey[v.key] % 1000 == 0)
                appendFile(workFile("found", w), "N\t" + esc(v.key) + "\n");
            nviol++;
        }
        if (!nextPath(ctx.path_, ctx.arity_, ctx.isDev_))
            break;
    }
    flush();
    g_slot->done = 1;
    _exit(0);
}

std::string slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

std::string crashSummary(pid_t pid) {
    std::string log = slurp(g_scratchRoot + "/log." + std::to_string(pid));
    size_t p        = log.find("SUMMARY:");
    if (p != std::string::npos)
        return log.substr(p, log.find('\n', p) - p);
    p = log.find("mc: ");
    if (p != std::string::npos)
        return log.substr(p, log.find('\n', p) - p);
    p = log.find("terminate called");
    if (p != std::string::npos)
        return log.substr(p, 300);
    p = log.find("ERROR: AddressSanitizer");
    if (p != std::string::npos)
        return log.substr(p, 300);
    return "";
}

std::string crashStack(pid_t pid) {
    std::string log = slurp(g_scratchRoot + "/log." + std::to_string(pid));
    size_t p        = log.find("ERROR: AddressSanitizer");
    if (p != std::string::npos)
        return log.substr(p, 2500);
    return "";
}

struct Result {
    std::string scenario, rule;
    uint64_t evaluations = 0, nontrivial = 0, transitions = 0, skipped = 0;
    uint64_t outcomes = 0, states = 0, shards = 0;
    double wall = 0;
    bool capped = false;
    int engineErrors = 0;
    std::vector<Found> found;
    std::vector<std::string> samples;
};

bool isEngineError(int status) {
    return WIFEXITED(status) && (WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 99);
}

std::string statusStr(int status) {
    if (WIFEXITED(status))
        return fmt("exit status %d", WEXITSTATUS(status));
    if (WIFSIGNALED(status))
        return fmt("signal %d", WTERMSIG(status));
    return "?";
}

Result explore(const Scenario& sc, double deadline) {
    Result r;
    r.scenario = sc.name;
    r.rule     = sc.rule;
    int N      = opt.jobs;
    double t0  = now();
    memset((void*)g_slots, 0, sizeof(Slot) * N);
    madvise(g_claim, MAXSHARDS * 9, MADV_REMOVE);
    memset(g_claim, 0, MAXSHARDS * 9);
    *g_stop = 0;
    for (int w = 0; w < N; w++) {
        unlink(workFile("outcomes", w).c_str());
        unlink(workFile("states", w).c_str());
        unlink(workFile("found", w).c_str());
    }
    std::vector<pid_t> pid(N);
    std::vector<uint64_t> lastExec(N, 0);
    std::vector<double> lastTime(N, now());
    std::vector<int> crashes(N, 0);
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < N; w++) {
        pid[w] = fork();
        if (pid[w] == 0)
            workerMain(sc, w, false);
    }
    int alive = N, totalCrashes = 0;
    std::vector<Found> crashFound;
    while (alive) {
        usleep(3000);
        double t = now();
        if (t > deadline && !*g_stop) {
            *g_stop  = 1;
            r.capped = true;
        }
        for (int w = 0; w < N; w++) {
            if (!pid[w])
                continue;
            int status = 0;
            pid_t p    = waitpid(pid[w], &status, WNOHANG);
            if (p < 0)
                continue;
            bool hang  = false;
            if (p == 0) {
                if (g_slots[w].execs != lastExec[w] || !g_slots[w].running) {
                    lastExec[w] = g_slots[w].execs;
                    lastTime[w] = t;
                    continue;
                }
                else if (t - lastTime[w] > sc.hangSeconds) {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &status, 0);
                    hang = true;
                }
                else
                    continue;
            }
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0 && g_slots[w].done) {
                pid[w] = 0;
                alive--;
                unlink((g_scratchRoot + "/log." + std::to_string(p)).c_str());
                continue;
            }
            // crashed (or hung) in the middle of an execution
            pid_t dead = pid[w];
            if (isEngineError(status)) {
                r.engineErrors++;
                fprintf(stderr, "ENGINE ERROR in scenario %s: %s\n", sc.name.c_str(), crashSummary(dead).c_str());
                pid[w] = 0;
                alive--;
                continue;
            }
            Found f;
            f.crash = !hang;
            f.hang  = hang;
            f.key   = std::string(hang ? "hang@" : "crash@") + g_slots[w].where;
            f.msg   = hang ? "no progress for " + fmt("%.0f", sc.hangSeconds) + " s"
                           : statusStr(status) + " " + crashSummary(dead);
            for (size_t i = 0; i < g_slots[w].len; i++) {
                f.path.push_back(g_slots[w].path[i]);
                f.arity.push_back(g_slots[w].arity[i]);
                f.isDev.push_back(g_slots[w].isDev[i]);
            }
            f.notes.push_back(crashStack(dead));
            unlink((g_scratchRoot + "/log." + std::to_string(dead)).c_str());
            crashFound.push_back(f);
            totalCrashes++;
            g_slots[w].evaluations = g_slots[w].evaluations + 1;
            g_slots[w].execs       = g_slots[w].execs + 1;
            g_slots[w].running     = 0;
            if (++crashes[w] > 60 || totalCrashes > 200) {
                r.capped = true;
                *g_stop = 1;
                pid[w]   = 0;
                alive--;
                continue;
            }
            lastExec[w] = g_slots[w].execs;
            lastTime[w] = now();
            pid[w]      = fork();
            if (pid[w] == 0)
                workerMain(sc, w, true);
        }
    }
    std::unordered_set<uint64_t> outs, states;
    for (int w = 0; w < N; w++) {
        r.evaluations += g_slots[w].evaluations;
        r.nontrivial += g_slots[w].nontrivial;
        r.transitions += g_slots[w].transitions;
        std::string o = slurp(workFile("outcomes", w));
        for (size_t i = 0; i + 8 <= o.size(); i += 8) {
            uint64_t h;
            memcpy(&h, &o[i], 8);
            outs.insert(h);
        }
        o = slurp(workFile("states", w));
        for (size_t i = 0; i + 8 <= o.size(); i += 8) {
            uint64_t h;
            memcpy(&h, &o[i], 8);
            states.insert(h);
        }
        std::ifstream is(workFile("found", w));
        std::string line;
        while (std::getline(is, line)) {
            std::vector<std::string> c;
            size_t b = 0;
            while (true) {
                size_t e = line.find('\t', b);
                c.push_back(line.substr(b, e == std::string::npos ? e : e - b));
                if (e == std::string::npos)
                    break;
                b = e + 1;
            }
            if (c[0] == "V") {
                Found f;
                f.scenario = sc.name;
                f.key      = c[1];
                f.msg      = c[2];
                decPath(c[3], f);
                f.notes.push_back(c[4]);
                r.found.push_back(f);
            }
            else if (c[0] == "S" && r.samples.size() < 4)
                r.samples.push_back("[" + c[1] + "] " + c[2]);
        }
    }
    for (auto& f : crashFound) {
        f.scenario = sc.name;
        r.found.push_back(f);
    }
    r.outcomes = outs.size();
    r.states   = states.size();
    r.wall     = now() - t0;
    return r;
}

// Replays one path in a fresh process; true if a violation (any) happens again.
bool replayPath(const Scenario& sc, const Found& f, std::string& what, bool verbose) {
    std::string out = g_scratchRoot + "/replay.out";
    unlink(out.c_str());
    memset((void*)&g_slots[0], 0, sizeof(Slot));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        g_slot   = &g_slots[0];
        g_worker = 0;
        if (!verbose)
            redirectOutput();
        if (workerInit)
            workerInit();
        Ctx ctx;
        ctx.thorough  = opt.tier == "thorough";
        ctx.devBound  = ctx.thorough ? sc.devThorough : sc.devQuick;
        ctx.replaying = true;
        ctx.path_     = f.path;
        ctx.arity_    = f.arity;
        ctx.isDev_    = f.isDev;
        Violation v;
        int rc = runOnce(sc, ctx, v);
        std::string s;
        if (rc == 2) {
            s = "V\t" + v.key + "\t" + v.msg + "\n";
            for (auto& n : ctx.notes_)
                s += "  " + n + "\n";
        }
        else {
            s = "OK\n";
            for (auto& n : ctx.notes_)
                s += "  " + n + "\n";
        }
        appendFile(out, s);
        if (verbose)
            fprintf(stderr, "%s", s.c_str());
        _exit(rc == 2 ? 1 : 0);
    }
    double t0  = now();
    int status = 0;
    while (waitpid(p, &status, WNOHANG) == 0) {
        usleep(5000);
        if (now() - t0 > 2 * sc.hangSeconds) {
            kill(p, SIGKILL);
            waitpid(p, &status, 0);
            what = "hang confirmed: no end after " + fmt("%.0f s", 2 * sc.hangSeconds);
            return true;
        }
    }
    if (isEngineError(status)) {
        what = "divergence on replay";
        return false;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        return false;
    what = slurp(out);
    if (what.empty())
        what = statusStr(status) + " in '" + std::string(g_slots[0].where) + "' " + crashSummary(p) + "\n" + crashStack(p);
    return true;
}

}  // namespace
}  // namespace mc

using namespace mc;

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val      = [&] { return std::string(argv[++i]); };
        if (a == "--tier")
            opt.tier = val();
        else if (a == "--out")
            opt.out = val();
        else if (a == "--replay")
            opt.replay = val();
        else if (a == "--known")
            opt.known = val();
        else if (a == "--property")
            opt.property = val();
        else if (a == "--replay-dir")
            opt.replayDir = val();
        else if (a == "--jobs")
            opt.jobs = atoi(val().c_str());
        else if (a == "--only")
            opt.only = val();
        else if (a == "--budget")
            opt.budget = atof(val().c_str());
        else if (a == "--verbose")
            opt.verbose = true;
        else if (a == "--scratch")
            g_scratchRoot = val();
    }
    if (g_scratchRoot.empty()) {
        fprintf(stderr, "need --scratch\n");
        return 2;
    }
    g_slots = (Slot*)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_claim = (uint8_t*)mmap(nullptr, MAXSHARDS * 9, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_stop  = (volatile uint32_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    std::vector<Scenario> all = scenarios();

    if (!opt.replay.empty()) {
        std::istringstream is(slurp(opt.replay));
        std::string line, scen;
        Found f;
        while (std::getline(is, line)) {
            if (line.rfind("scenario: ", 0) == 0)
                scen = line.substr(10);
            if (line.rfind("tier: ", 0) == 0)
                opt.tier = line.substr(6);
            if (line.rfind("path: ", 0) == 0)
                decPath(line.substr(6), f);
        }
        for (auto& s : all)
            if (s.name == scen) {
                std::string what;
                bool v = replayPath(s, f, what, true);
                printf("%s\n%s\n", v ? "REPRODUCED" : "NOT REPRODUCED", what.c_str());
                return v ? 1 : 0;
            }
        fprintf(stderr, "unknown scenario '%s'\n", scen.c_str());
        return 2;
    }

    std::set<std::string> known;
    {
        std::istringstream is(slurp(opt.known));
        std::string line;
        // known: property=<id> key=<key> -- description
        while (std::getline(is, line)) {
            std::string head = "known: property=" + opt.property + " key=";
            if (line.rfind(head, 0) == 0) {
                std::string k = line.substr(head.size());
                size_t e      = k.find(" -- ");
                known.insert(k.substr(0, e));
            }
        }
    }

    double t0 = now();
    std::vector<Result> results;
    std::map<std::string, std::pair<std::string, uint64_t>> knownSeen;
    int nviol = 0, engineErrors = 0;
    bool capped = false;
    for (auto& sc : all) {
        if (opt.tier == "quick" && !sc.quick)
            continue;
        if (!opt.only.empty() && sc.name.find(opt.only) == std::string::npos)
            continue;
        Result r = explore(sc, t0 + opt.budget);
        fprintf(stderr,
                "scenario %-28s executions=%llu nontrivial=%llu outcomes=%llu states=%llu transitions=%llu violations=%zu "
                "%s%.1fs\n",
                sc.name.c_str(), (unsigned long long)r.evaluations, (unsigned long long)r.nontrivial,
                (unsigned long long)r.outcomes, (unsigned long long)r.states, (unsigned long long)r.transitions,
                r.found.size(), r.capped ? "CAPPED " : "", r.wall);
        engineErrors += r.engineErrors;
        capped |= r.capped;
        std::map<std::string, std::vector<Found>> byKey;
        for (auto& f : r.found)
            byKey[f.key].push_back(f);
        for (auto& kv : byKey) {
            std::vector<Found>& v = kv.second;
            // fewest deviations, then shortest, then lexicographically first
            std::sort(v.begin(), v.end(), [](const Found& a, const Found& b) {
                auto cost = [](const Found& f) {
                    int c = 0;
                    for (size_t i = 0; i < f.path.size(); i++)
                        if (f.isDev[i] && f.path[i])
                            c++;
                    return c;
                };
                int ca = cost(a), cb = cost(b);
                if (ca != cb)
                    return ca < cb;
                if (a.path.size() != b.path.size())
                    return a.path.size() < b.path.size();
                return a.path < b.path;
            });
            if (known.count(kv.first)) {
                knownSeen[kv.first].first = v[0].msg;
                knownSeen[kv.first].second += v.size();
                continue;
            }
            std::string what;
            bool rep = false;
            Found chosen = v[0];
            for (auto& f : v)
                if (replayPath(sc, f, what, false)) {
                    rep    = true;
                    chosen = f;
                    break;
                }
            std::string note;
            if (!rep) {
                // only visible with the state left behind by earlier executions: explore again and see whether it
                // comes back before reporting it
                Result r2 = explore(sc, now() + 300);
                for (auto& f : r2.found)
                    if (f.key == kv.first) {
                        rep    = true;
                        chosen = f;
                        note   = "(visible only after earlier executions in the same process: reproduced by exploring the "
                                 "scenario a second time)";
                    }
            }
            if (!rep) {
                fprintf(stderr, "NOT REPRODUCED: %s %s: %s\n", sc.name.c_str(), kv.first.c_str(), v[0].msg.c_str());
                engineErrors++;
                continue;
            }
            nviol++;
            std::string file = opt.replayDir + "/" + opt.property + "-" + fmt("%d", nviol) + ".txt";
            std::ofstream o(file);
            o << "property: " << opt.property << "\nscenario: " << sc.name << "\ntier: " << opt.tier
              << "\npath: " << encPath(chosen.path, chosen.arity, chosen.isDev) << "\nkey: " << chosen.key << "\n"
              << note << "\n"
              << chosen.msg << "\n---- replay in a fresh process ----\n"
              << what << "\n";
            for (auto& n : chosen.notes)
                o << n << "\n";
            o << "\nreplay with: /verif/check " << opt.property << " --replay " << file << "\n";
            o.close();
            printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), file.c_str());
            printf("  scenario=%s key=%s: %s\n", sc.name.c_str(), chosen.key.c_str(), chosen.msg.substr(0, 600).c_str());
            fflush(stdout);
        }
        results.push_back(r);
    }
    for (auto& kv : knownSeen)
        printf("KNOWN-FINDING: property=%s %s: %s\n", opt.property.c_str(), kv.first.c_str(), kv.second.first.substr(0, 300).c_str());

    std::ofstream o(opt.out);
    o << "{\"scenarios\":[";
    for (size_t i = 0; i < results.size(); i++) {
        auto& r = results[i];
        o << (i ? "," : "") << "{\"name\":" << json(r.scenario) << ",\"rule\":" << json(r.rule)
          << ",\"evaluations\":" << r.evaluations << ",\"nontrivial\":" << r.nontrivial << ",\"outcomes\":" << r.outcomes
          << ",\"states\":" << r.states << ",\"transitions\":" << r.transitions << ",\"wall\":" << r.wall
          << ",\"capped\":" << (r.capped ? "true" : "false") << ",\"samples\":[";
        for (size_t j = 0; j < r.samples.size(); j++)
            o << (j ? "," : "") << json(r.samples[j]);
        o << "]}";
    }
    o << "],\"violations\":" << nviol << ",\"known\":" << knownSeen.size() << ",\"engine_errors\":" << engineErrors
      << ",\"capped\":" << (capped ? "true" : "false") << "}\n";
    o.close();
    fflush(stdout);
    if (nviol)
        return 1;
    return engineErrors ? 3 : 0;
}

// eckit describes every failed assertion with a symbolised stack, which costs far more than the
// operation which failed and which nothing here looks at: these replace the ones of the C library.
extern "C" int backtrace(void**, int) {
    return 0;
}
extern "C" char** backtrace_symbols(void* const*, int) {
    return (char**)calloc(1, sizeof(char*));
}
