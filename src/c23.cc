// C23: how the source delivers its bytes does not matter.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <unistd.h>

#include <set>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PooledHandle.h"
#include "pool.h"
#include "sources.h"

using namespace H;

namespace {

//----------------------------------------------------------------------------------------------------------------------
// What becomes of the reads of a source

enum Fault { FULL, ONE, LESS_ONE, HALF, THREE, MINUS1, THROWS, INTERRUPTED, NFAULTS };
const char* faultName[] = {"all", "one byte", "one byte less", "half", "three bytes", "-1", "an exception", "EINTR"};
bool isError(int f) { return f >= MINUS1; }

struct Plan {
    int always = FULL;                // what every read does
    std::map<long, int> at;           // what the n-th read does
    bool stays     = false;           // an error once, an error for good
    bool mayThrow  = true;
    long calls     = 0;
    int errors     = 0;               // reads which failed
    int shorts     = 0;               // reads which came up short although there was more
    std::vector<long> errorAt;        // where the file was
    // the number of bytes to deliver out of the n asked for and the left ones; -1: failed
    long take(long n, long left) {
        int f = always;
        auto i = at.find(calls++);
        if (i != at.end())
            f = i->second;
        if (stays && errors)
            f = MINUS1;
        long k = std::min(n, left), want = k;
        switch (f) {
            case FULL: break;
            case ONE: k = std::min(k, 1L); break;
            case LESS_ONE: k = k > 1 ? k - 1 : k; break;
            case HALF: k = (k + 1) / 2; break;
            case THREE: k = std::min(k, 3L); break;
            case THROWS:
                errors++;
                if (mayThrow)
                    throw eckit::ReadError("injected");
                errno = EIO;
                return -1;
            default:
                errors++;
                errno = f == INTERRUPTED ? EINTR : EIO;
                return -1;
        }
        if (k < want)
            shorts++;
        return k;
    }
};

// a data handle which can be repositioned
struct Scripted : public eckit::DataHandle {
    const std::string& bytes;
    Plan& plan;
    bool sized;
    long pos = 0;
    Scripted(const std::string& b, Plan& p, bool sized) : bytes(b), plan(p), sized(sized) {}
    void print(std::ostream& s) const override { s << "Scripted"; }
    eckit::Length openForRead() override { return sized ? bytes.size() : 0; }
    void openForWrite(const eckit::Length&) override { NOTIMP; }
    void openForAppend(const eckit::Length&) override { NOTIMP; }
    long read(void* p, long n) override {
        long k = plan.take(n, long(bytes.size()) - pos);
        if (k > 0) {
            memcpy(p, bytes.data() + pos, k);
            pos += k;
        }
        return k;
    }
    long write(const void*, long) override { NOTIMP; }
    void close() override {}
    eckit::Offset position() override { return pos; }
    eckit::Offset seek(const eckit::Offset& o) override {
        pos = o;
        return pos;
    }
    bool canSeek() const override { return true; }
    eckit::DataHandle* clone() const override { return new Scripted(bytes, plan, sized); }
    eckit::Length estimate() override { return sized ? bytes.size() : 0; }
};

struct Stream {
    const std::string& bytes;
    Plan& plan;
    size_t pos = 0;
    static long proc(void* h, void* p, long n) {
        Stream& s = *(Stream*)h;
        long k    = s.plan.take(n, long(s.bytes.size() - s.pos));
        if (k > 0) {
            memcpy(p, s.bytes.data() + s.pos, k);
            s.pos += k;
        }
        return k;
    }
};

// the reads of this file follow the plan
Plan* scriptedPlan = nullptr;
ino_t scriptedIno  = 0;

bool isScripted(int fd) {
    struct stat st;
    return scriptedPlan && scriptedIno && fstat(fd, &st) == 0 && st.st_ino == scriptedIno;
}

}  // namespace

extern "C" ssize_t read(int fd, void* p, size_t n) {
    static ssize_t (*real)(int, void*, size_t) = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
    if (isScripted(fd)) {
        struct stat st;
        fstat(fd, &st);
        long k = scriptedPlan->take(long(n), std::max<long>(0, st.st_size - lseek(fd, 0, SEEK_CUR)));
        return k <= 0 ? k : real(fd, p, k);
    }
    return real(fd, p, n);
}

// n.b. an error which read(2) reports shows in the indicator of the file
extern "C" size_t fread(void* p, size_t size, size_t count, FILE* f) {
    static size_t (*real)(void*, size_t, size_t, FILE*) = reinterpret_cast<size_t (*)(void*, size_t, size_t, FILE*)>(dlsym(RTLD_NEXT, "fread"));
    if (size == 1 && isScripted(fileno(f))) {
        struct stat st;
        fstat(fileno(f), &st);
        long at = ftell(f);
        long k  = scriptedPlan->take(long(count), std::max<long>(0, st.st_size - at));
        if (k < 0) {
            scriptedPlan->errorAt.push_back(at);
            f->_flags |= 0x20;  // _IO_ERR_SEEN
            return 0;
        }
        return k == 0 ? 0 : real(p, 1, k, f);
    }
    return real(p, size, count, f);
}

namespace {

//----------------------------------------------------------------------------------------------------------------------
// streams of frames

struct Data {
    std::string name, bytes;
    std::vector<Frame> frames;
    std::vector<long> lengths;
};

const std::vector<Data>& streams() {
    static std::vector<Data> v;
    if (v.empty())
        for (auto& parts : std::vector<std::vector<std::string>>{
                 {"one row"}, {"int8+string", "int8+string"}, {"wide string", "no rows", "elided"}, {"real double", "bitfield"}, {"int16_string"}, {"constants", "one row", "one row"}}) {
            Data d;
            for (auto& p : parts) {
                d.name += (d.name.empty() ? "" : ", ") + p;
                auto& t = tablePool()[poolIndex(p)].t;
                std::string b = encodeCpp(t);
                d.bytes += b;
                d.lengths.push_back(b.size());
                auto fs = readAllC(b);
                std::string why;
                if (fs.size() != 1 || !matches(t, fs, why))
                    abort();
                d.frames.push_back(fs[0]);
            }
            v.push_back(d);
        }
    return v;
}

std::vector<Frame> expected(const Data& d, bool agg, bool legacy) {
    std::vector<Frame> g;
    for (auto& f : d.frames) {
        if (legacy && f.rows.empty())
            continue;
        bool same = agg && !g.empty() && g.back().cols.size() == f.cols.size();
        if (same)
            for (size_t i = 0; i < f.cols.size(); i++)
                same = same && g.back().cols[i].name == f.cols[i].name && g.back().cols[i].type == f.cols[i].type && g.back().cols[i].size == f.cols[i].size;
        if (same) {
            g.back().rows.insert(g.back().rows.end(), f.rows.begin(), f.rows.end());
            for (auto& p : f.props)
                g.back().props.insert(p);
        }
        else {
            g.push_back(f);
            if (legacy)
                g.back().props.clear();
        }
    }
    return g;
}

enum Kind { K_STREAM, K_HANDLE, K_UNSIZED, K_OWNED, K_FD, K_FDHANDLE, K_LEGACY, K_PATH, NKINDS };
const char* kindName[] = {"odc_open_stream", "Reader(handle)", "Reader(handle of unknown size)", "Reader(handle*)", "odc_open_file_descriptor", "Reader(FileDescHandle)", "odc::Reader(handle)", "odc_open_path"};
bool legacy(int k) { return k == K_LEGACY; }

// Reads to the end, or to the first error, and after it goes on a few times
struct Got {
    std::vector<Frame> frames;
    std::vector<std::string> errors;
    bool ended = false;
    std::vector<size_t> at;  // which frame, counting those whose decoding failed
    size_t passed = 0;       // frames delivered, or whose decoding failed
};

template <typename Next, typename Decode>
Got drain(Plan& plan, int goOn, Next next, Decode dec) {
    Got g;
    while (!g.ended && int(g.errors.size()) <= goOn && g.frames.size() < 20) {
        bool more       = false;
        std::string err = thrown([&] { more = next(); });
        if (err.empty() && !more) {
            g.ended = true;
            break;
        }
        if (err.empty()) {
            Frame f;
            err = thrown([&] { f = dec(); });
            if (err.empty()) {
                g.frames.push_back(f);
                g.at.push_back(g.passed++);
                continue;
            }
            g.passed++;
        }
        g.errors.push_back(err);
    }
    return g;
}

Got readC(odc_reader_t* r, bool agg, Plan& plan, int goOn) {
    CFrame f;
    Got g;
    std::string err = thrown([&] { CAPI(odc_new_frame(&f.f, r)); });
    if (!err.empty()) {
        g.errors.push_back(err);
        return g;
    }
    return drain(plan, goOn,
                 [&] {
                     int rc = agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
                     if (rc == ODC_ITERATION_COMPLETE)
                         return false;
                     if (rc != ODC_SUCCESS)
                         throw ApiError{std::string("odc_next_frame: ") + odc_error_string(rc)};
                     return true;
                 },
                 [&] { return decodeFrameC(f.f); });
}

Got readCpp(std::function<odc::api::Reader*()> open, Plan& plan, int goOn) {
    std::unique_ptr<odc::api::Reader> r;
    Got g;
    std::string err = thrown([&] { r.reset(open()); });
    if (!err.empty()) {
        g.errors.push_back(err);
        return g;
    }
    std::unique_ptr<odc::api::Frame> f;
    return drain(plan, goOn, [&] { f.reset(new odc::api::Frame(r->next())); return bool(*f); }, [&] { return decodeFrameCpp(*f); });
}

Got read(int kind, const std::string& bytes, bool agg, Plan& plan, int goOn) {
    static std::string path = mc::scratchDir() + "/data.odb";
    if (kind == K_FD || kind == K_FDHANDLE || kind == K_PATH) {
        scriptedPlan = nullptr;
        writeFile(path, bytes);
        struct stat st;
        if (stat(path.c_str(), &st) != 0)
            abort();
        scriptedIno = st.st_ino;
    }
    struct Reset {
        ~Reset() { scriptedPlan = nullptr; }
    } reset;
    switch (kind) {
        case K_STREAM: {
            plan.mayThrow = false;
            Stream s{bytes, plan};
            CReader r;
            CAPI(odc_open_stream(&r.r, &s, &Stream::proc));
            return readC(r.r, agg, plan, goOn);
        }
        case K_HANDLE:
        case K_UNSIZED: {
            Scripted h(bytes, plan, kind == K_HANDLE);
            return readCpp([&] { return new odc::api::Reader(h, agg, -1); }, plan, goOn);
        }
        case K_OWNED: return readCpp([&] { return new odc::api::Reader(new Scripted(bytes, plan, true), agg, -1); }, plan, goOn);
        case K_FD: {
            plan.mayThrow = false;
            int fd        = open(path.c_str(), O_RDONLY);
            CReader r;
            CAPI(odc_open_file_descriptor(&r.r, fd));
            close(fd);
            scriptedPlan = &plan;
            return readC(r.r, agg, plan, goOn);
        }
        case K_PATH: {
            plan.mayThrow = false;
            CReader r;
            CAPI(odc_open_path(&r.r, path.c_str()));
            scriptedPlan = &plan;
            return readC(r.r, agg, plan, goOn);
        }
        case K_FDHANDLE: {
            plan.mayThrow = false;
            eckit::FileDescHandle h(open(path.c_str(), O_RDONLY), true);
            h.openForRead();
            scriptedPlan = &plan;
            Got g        = readCpp([&] { return new odc::api::Reader(h, agg, -1); }, plan, goOn);
            h.close();
            return g;
        }
        default: {
            std::unique_ptr<eckit::DataHandle> h(new Scripted(bytes, plan, true));
            Got g;
            Outcome o;
            std::string err = thrown([&] {
                odc::Reader r(*h);
                o = readLegacy(r);
            });
            if (err.empty())
                err = o.error;
            g.frames      = o.frames;
            g.ended       = err.empty();
            g.passed      = g.frames.size();
            for (size_t i = 0; i < g.frames.size(); i++)
                g.at.push_back(i);
            if (!err.empty())
                g.errors.push_back(err);
            return g;
        }
    }
}

std::string showPlan(const Plan& p) {
    std::string s;
    if (p.always)
        s += std::string("every read delivers ") + faultName[p.always] + "; ";
    for (auto& a : p.at)
        s += mc::fmt("read %ld delivers ", a.first) + faultName[a.second] + "; ";
    return s + (p.stays ? "errors for good; " : "");
}

// the number of reads which go well when nothing goes wrong
long readsOf(int kind, size_t which, bool agg) {
    static std::map<std::vector<long>, long> cache;
    std::vector<long> key = {kind, long(which), agg};
    if (!cache.count(key)) {
        Plan p;
        read(kind, streams()[which].bytes, agg, p, 0);
        cache[key] = p.calls;
    }
    return cache[key];
}

void verify(mc::Ctx& c, int kind, size_t which, bool agg, Plan& plan, int goOn) {
    auto& d          = streams()[which];
    std::string what = mc::fmt("%s%s of (%s), %s", kindName[kind], agg ? " aggregated" : "", d.name.c_str(), showPlan(plan).c_str());
    c.at(kindName[kind]);
    Got g = read(kind, d.bytes, agg, plan, goOn);
    c.transition(plan.calls);
    if (plan.errors || plan.shorts)
        c.nontrivial();
    auto want = expected(d, agg, legacy(kind));
    std::string errs;
    for (auto& e : g.errors)
        errs += " [" + e + "]";
    what += mc::fmt(" -> %zu frames of %zu, %s", g.frames.size(), want.size(), g.ended ? "end" : "no end") + errs;
    c.note(what);
    c.outcome(mc::fmt("%d %d%d %d", kind, plan.errors > 0, plan.shorts > 0, int(g.errors.size())));
    std::string key = std::string(kindName[kind]) + (agg ? " aggregated" : "");
    // a stream callback is not able to go back for the data of frames which were looked ahead of
    bool mayRefuse = kind == K_STREAM && agg;
    if (!plan.errors && !plan.shorts && !mayRefuse && !g.errors.empty())
        c.fail("error without a fault: " + key, what);
    bool lost = g.ended && g.passed != want.size();
    if (kind == K_PATH && plan.errors && (g.errors.empty() || lost)) {
        long start = 0;
        std::set<long> starts = {0};
        for (size_t i = 0; i < d.frames.size(); i++)
            starts.insert(start += d.lengths[i]);
        for (long e : plan.errorAt)
            if (starts.count(e))
                c.fail("error between two frames not reported: " + key, what);
    }
    if (plan.errors && g.errors.empty())
        c.fail("error of the source not reported: " + key, what);
    if (lost)
        c.fail("frames lost: " + key, what);
    // what is delivered are the frames of the stream, in order, without a gap except for those whose decoding failed
    for (size_t i = 0; i < g.frames.size(); i++) {
        if (g.at[i] >= want.size())
            c.fail("too many frames: " + key, what);
        Frame w = want[g.at[i]];
        if (legacy(kind) && i + 1 == g.frames.size() && !g.errors.empty() && g.frames[i].rows.size() < w.rows.size())
            w.rows.resize(g.frames[i].rows.size());  // rows before the error
        std::string why;
        if (!sameRows(g.frames[i], w, why))
            c.fail("wrong frame: " + key, what + mc::fmt(": frame %zu: ", i) + why);
    }
}

void uniform(mc::Ctx& c) {
    size_t which = c.choose(streams().size());
    int kind     = c.choose(NKINDS);
    bool agg     = legacy(kind) ? false : c.flip();
    Plan p;
    p.always = c.choose(MINUS1);
    c.shard();
    verify(c, kind, which, agg, p, 2);
}

void faults(mc::Ctx& c, int n) {
    size_t which = c.choose(streams().size());
    int kind     = c.choose(NKINDS);
    bool agg     = legacy(kind) ? false : c.flip();
    c.shard();
    Plan p;
    long reads = readsOf(kind, which, agg) + n;
    long at    = -1;
    for (int k = 0; k < n; k++) {
        if (at + 1 >= reads)
            c.skip();
        at += 1 + c.choose(reads - at - 1);
        p.at[at] = 1 + c.choose(NFAULTS - 1);
    }
    p.stays  = c.flip();
    bool err = false;
    for (auto& a : p.at)
        err = err || isError(a.second);
    if (p.stays && !err)
        c.skip();
    verify(c, kind, which, agg, p, 2);
}

//----------------------------------------------------------------------------------------------------------------------
// bytes in pieces, by handles of all kinds

void pieces(mc::Ctx& c) {
    using namespace eckit;
    size_t which = c.choose(streams().size());
    auto& d      = streams()[which];
    int how      = c.choose(6);
    const char* names[] = {"two files", "file and memory", "two parts of a file", "one part of a larger file", "pooled", "three pieces of memory"};
    bool agg     = c.flip();
    c.shard();
    if (d.bytes.size() > 3000 && !c.thorough && how != 3 && how != 4)
        c.skip();
    size_t cut = how == 3 ? c.choose(3) * 7 : how == 4 ? 0 : c.choose(d.bytes.size() + 1);
    static std::string dir = mc::scratchDir();
    std::string a = dir + "/a.odb", b = dir + "/b.odb";
    std::unique_ptr<DataHandle> h;
    std::string x = d.bytes.substr(0, cut), y = d.bytes.substr(cut);
    size_t mid = cut + y.size() / 2;
    std::string y1 = d.bytes.substr(cut, mid - cut), y2 = d.bytes.substr(mid);
    auto* m = new MultiHandle;
    h.reset(m);
    switch (how) {
        case 0:
            writeFile(a, x);
            writeFile(b, y);
            *m += new FileHandle(a);
            *m += new FileHandle(b);
            break;
        case 1:
            writeFile(a, x);
            *m += new FileHandle(a);
            *m += new MemoryHandle(y.data(), y.size());
            break;
        case 2:
            writeFile(a, d.bytes);
            *m += new PartFileHandle(a, Offset(0), Length(cut));
            *m += new PartFileHandle(a, Offset(cut), Length(d.bytes.size() - cut));
            break;
        case 3:
            writeFile(a, std::string(cut, 'x') + d.bytes + std::string(cut, 'y'));
            h.reset(new PartFileHandle(a, Offset(cut), Length(d.bytes.size())));
            break;
        case 4:
            writeFile(a, d.bytes);
            h.reset(new PooledHandle(a));
            break;
        default:
            *m += new MemoryHandle(x.data(), x.size());
            *m += new MemoryHandle(y1.data(), y1.size());
            *m += new MemoryHandle(y2.data(), y2.size());
    }
    std::string what = mc::fmt("%s%s cut at %zu of (%s)", names[how], agg ? " aggregated" : "", cut, d.name.c_str());
    c.at(names[how]);
    c.nontrivial();
    c.transition();
    Plan plan;
    std::string err = thrown([&] { h->openForRead(); });
    Got g;
    if (!err.empty())
        g.errors.push_back(err);
    else
        g = readCpp([&] { return new odc::api::Reader(*h, agg, -1); }, plan, 0);
    auto want = expected(d, agg, false);
    c.outcome(mc::fmt("%d %d", how, int(g.errors.size())));
    if (!g.errors.empty())
        what += ": " + g.errors[0];
    c.note(what);
    if (g.errors.empty())
        c.check(g.frames.size() == want.size(), std::string("frames: ") + names[how], what + mc::fmt(": %zu frames", g.frames.size()));
    else
        c.check(how != 3 && how != 4, std::string("refused: ") + names[how], what);
    for (size_t i = 0; i < g.frames.size(); i++) {
        std::string why;
        c.check(i < want.size() && sameRows(g.frames[i], want[i], why), std::string("wrong frame: ") + names[how], what + mc::fmt(": frame %zu: ", i) + why);
    }
}

//----------------------------------------------------------------------------------------------------------------------
// the caller's descriptor, between the calls

void descriptor(mc::Ctx& c) {
    static std::string path = mc::scratchDir() + "/desc.odb";
    static size_t held      = ~size_t(0);
    size_t which            = c.choose(streams().size());
    bool agg                = c.flip();
    auto& d                 = streams()[which];
    if (held != which)
        writeFile(path, d.bytes);
    held   = which;
    int fd = open(path.c_str(), O_RDONLY);
    struct Close {
        int& fd;
        ~Close() {
            if (fd >= 0)
                close(fd);
        }
    } closer{fd};
    std::string what = mc::fmt("(%s)%s", d.name.c_str(), agg ? " aggregated" : "");
    CReader r;
    CAPI(odc_open_file_descriptor(&r.r, fd));
    CFrame f;
    CAPI(odc_new_frame(&f.f, r.r));
    auto want = expected(d, agg, false);
    size_t at = 0;
    bool have = false;
    int depth = c.thorough ? 7 : 5;
    bool moved = false;
    for (int step = 0; step < depth; step++) {
        int op = c.choose(7);
        if (step == 1)
            c.shard();
        c.transition();
        if (op == 0) {
            what += "; next";
            int rc = agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
            c.check(rc == (at < want.size() ? ODC_SUCCESS : ODC_ITERATION_COMPLETE), "next", what + mc::fmt(" -> %d %s", rc, odc_error_string(rc)));
            have = at < want.size();
            if (have)
                at++;
        }
        else if (op == 1) {
            what += "; decode";
            if (!have)
                c.skip();
            Frame got;
            std::string why, err = thrown([&] { got = decodeFrameC(f.f); });
            c.check(err.empty(), "decode", what + ": " + err);
            c.check(sameRows(got, want[at - 1], why), "frame", what + ": " + why);
            if (moved)
                c.nontrivial();
        }
        else {
            if (fd < 0)
                c.skip();
            moved = true;
            char b[9];
            switch (op) {
                case 2:
                    what += "; to the start";
                    lseek(fd, 0, SEEK_SET);
                    break;
                case 3:
                    what += "; to 7";
                    lseek(fd, 7, SEEK_SET);
                    break;
                case 4:
                    what += "; to the end";
                    lseek(fd, 0, SEEK_END);
                    break;
                case 5:
                    what += "; read 9";
                    if (::read(fd, b, 9) < 0)
                        abort();
                    break;
                default:
                    what += "; close";
                    close(fd);
                    fd = -1;
            }
        }
    }
    c.outcome(mc::fmt("%zu", at));
}

//----------------------------------------------------------------------------------------------------------------------
// things which cannot be read

void unreadable(mc::Ctx& c) {
    int what = c.choose(5);
    int way  = c.choose(5);
    const char* n[] = {"a directory", "a closed descriptor", "a descriptor for writing only", "a missing file", "an empty file"};
    const char* w[] = {"odc_open_path", "odc_open_file_descriptor", "Reader(path)", "odc::Reader(path)", "Reader(FileHandle)"};
    std::string dir  = mc::scratchDir();
    std::string path = dir + "/unreadable.odb";
    unlink(path.c_str());
    int fd = -1;
    if (what == 0)
        path = dir, fd = open(dir.c_str(), O_RDONLY);
    else if (what == 1 || what == 2) {
        if (way != 1)
            c.skip();
        writeFile(path, streams()[0].bytes);
        fd = what == 2 ? open(path.c_str(), O_WRONLY) : -1;
        if (what == 1) {
            fd = open(path.c_str(), O_RDONLY);
            close(fd);
        }
    }
    else if (what == 3) {
        if (way == 1)
            c.skip();
    }
    else {
        writeFile(path, "");
        fd = open(path.c_str(), O_RDONLY);
    }
    Plan plan;
    Got g;
    std::string err = thrown([&] {
        if (way < 2) {
            CReader r;
            int rc = way == 0 ? odc_open_path(&r.r, path.c_str()) : odc_open_file_descriptor(&r.r, fd);
            if (rc != ODC_SUCCESS) {
                r.r = nullptr;
                throw ApiError(odc_error_string(rc));
            }
            g = readC(r.r, false, plan, 0);
        }
        else if (way == 2)
            g = readCpp([&] { return new odc::api::Reader(path, false, -1); }, plan, 0);
        else if (way == 3) {
            odc::Reader r((eckit::PathName(path)));
            Outcome o = readLegacy(r);
            if (!o.error.empty())
                g.errors.push_back(o.error);
        }
        else
            g = readCpp([&] { return new odc::api::Reader(new eckit::FileHandle(path), false, -1); }, plan, 0);
    });
    if (fd >= 0 && what != 1)
        close(fd);
    if (err.empty() && !g.errors.empty())
        err = g.errors[0];
    c.nontrivial();
    c.transition();
    c.outcome(mc::fmt("%d %d %d", what, way, int(err.empty())));
    std::string desc = std::string(n[what]) + " through " + w[way];
    c.note(desc + ": " + err);
    c.check(g.frames.empty(), "frames: " + desc, desc);
    c.check(err.empty() == (what == 4), (err.empty() ? "not reported: " : "refused: ") + desc, desc + ": " + err);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); streams(); };
    std::string src = "8 kinds of source, plain and aggregated, 6 streams of 1 to 3 frames: ";
    return {
        {"uniform", src + "every read delivers all, one byte, one less than asked for, half, three bytes", uniform},
        {"one-fault", src + "each read in turn comes up short in 4 ways or fails in 3 ways, once or for good, and reading goes on after the error", [](mc::Ctx& c) { faults(c, 1); }},
        {"two-faults", src + "each pair of reads", [](mc::Ctx& c) { faults(c, 2); }},
        {"pieces", "every cut of 6 streams over two files, a file and memory, parts of files, three pieces of memory; parts of larger files; pooled files", pieces},
        {"descriptor", "every sequence of 5 (thorough 7) of reading, decoding, moving, reading from and closing the descriptor of the caller", descriptor},
        {"unreadable", "directories, closed and write only descriptors, missing and empty files, through 5 interfaces", unreadable},
    };
}
