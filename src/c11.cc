// C11: threaded decoding gives the serial result under every schedule.
// The threads of the library (and of the harness) run under the controlled scheduler of ctlsched.cc; every schedule within
// the preemption bound is executed on the real code, with happens-before race detection on every access.
#include <thread>

#include "pool.h"
#include "ctlsched.h"
#include "sources.h"

using namespace H;

namespace {

// A source of data whose every operation is a scheduling point, so that unprotected use by several threads shows
struct Probe : public eckit::DataHandle {
    std::string bytes;
    long pos = 0;
    int reads = 0, failAt = -1, failHow = 0;
    std::vector<long> readsAt;
    explicit Probe(const std::string& b) : bytes(b) {}
    void print(std::ostream& s) const override { s << "Probe"; }
    eckit::Length openForRead() override { pos = 0; return eckit::Length(bytes.size()); }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void* p, long n) override {
        sched::point();
        long at = pos;
        if (reads++ == failAt) {
            if (failHow == 0)
                throw eckit::ReadError("injected", Here());
            if (failHow == 1) {
                pos = at;
                return -1;
            }
            n /= 2;
        }
        n = std::min(n, long(bytes.size()) - at);
        if (n < 0)
            n = 0;
        memcpy(p, bytes.data() + at, n);
        sched::point();
        pos = at + n;
        readsAt.push_back(at);
        return n;
    }
    long write(const void*, long) override { return -1; }
    void close() override {}
    eckit::Length estimate() override { sched::point(); return eckit::Length(bytes.size()); }
    eckit::Length size() override { return eckit::Length(bytes.size()); }
    eckit::Offset position() override { sched::point(); return pos; }
    eckit::Offset seek(const eckit::Offset& o) override { sched::point(); pos = o; return o; }
    bool canSeek() const override { return true; }
};

// Parts with different contents, codecs and row counts but the same columns
Tab part(int kind, int k) {
    Tab t;
    t.cols = {{"k@h", INTEGER, 1, {}}, {"s", STRING, 1, {}}, {"x", DOUBLE, 1, {}}};
    int rows = kind == 0 ? 2 : kind == 1 ? 1 + k : 3 - k;
    if (rows < 1)
        rows = 1;
    for (int r = 0; r < rows; r++) {
        long v = kind == 0 ? 100 * (k + 1) + r : kind == 1 ? (r == 1 ? IMDI : 7 + k) : (k == 0 ? 70000 : 1) * (r + 1);
        t.rows.push_back({rI(v), rS(std::string(kind == 2 && k ? "same" : "s") + char('a' + 3 * k + r)), rD(0.5 * v + k)});
    }
    return t;
}

struct Input {
    std::vector<Tab> parts;
    Tab all;
    std::string bytes;
};
// inputs are encoded once, outside any session
const Input& input(int kind, int n) {
    static std::map<std::pair<int, int>, Input> cache;
    auto it = cache.find({kind, n});
    if (it != cache.end())
        return it->second;
    Input in;
    for (int k = 0; k < n; k++) {
        in.parts.push_back(part(kind, k));
        in.bytes += encodeC(in.parts.back());
    }
    in.all      = in.parts[0];
    in.all.rows.clear();
    for (auto& p : in.parts)
        in.all.rows.insert(in.all.rows.end(), p.rows.begin(), p.rows.end());
    return cache[{kind, n}] = in;
}

// A decoder into memory of ours, filled with a pattern and surrounded by guards
struct Target {
    std::vector<Col> cols;
    size_t rows;
    bool columns;
    std::vector<char> mem;
    std::vector<std::string> names;
    std::vector<odc::api::StridedData> sd;
    static constexpr size_t G = 16;
    std::vector<size_t> offset, stride;
    Target(const Tab& t, bool columnMajor) : cols(t.cols), rows(t.rows.size()), columns(columnMajor) {
        size_t w = cols.size() * 8;
        mem.assign(2 * G + rows * w, char(0xee));
        for (size_t c = 0; c < cols.size(); c++) {
            names.push_back(cols[c].name);
            offset.push_back(G + (columnMajor ? c * rows * 8 : c * 8));
            stride.push_back(columnMajor ? 8 : w);
            sd.emplace_back(mem.data() + offset[c], rows, size_t(8), stride[c]);
        }
    }
    void wipe() { std::fill(mem.begin(), mem.end(), char(0xee)); }
    // differences from the table
    std::string compare(const Tab& t) {
        for (size_t i = 0; i < G; i++)
            if (mem[i] != char(0xee) || mem[mem.size() - 1 - i] != char(0xee))
                return "memory outside the target was written";
        for (size_t r = 0; r < rows; r++)
            for (size_t c = 0; c < cols.size(); c++) {
                Raw got(mem.data() + offset[c] + r * stride[c], 8);
                if (!sameCell(t.rows[r][c], got, cols[c].type))
                    return mc::fmt("row %zu column %zu is %s instead of %s", r, c, show(got, cols[c].type).c_str(),
                                   show(t.rows[r][c], cols[c].type).c_str());
            }
        return "";
    }
};

struct Verdict {
    std::string key, msg;
    void set(const std::string& k, const std::string& m) {
        if (key.empty())
            key = k, msg = m;
    }
};

void conclude(mc::Ctx& ctx, const sched::Result& r, Verdict v) {
    // a race explains whatever else went wrong
    if (!r.race.empty())
        ctx.fail(r.raceKey, r.race);
    if (!v.key.empty())
        ctx.fail(v.key, v.msg);
    if (!ctx.replaying || r.points) {
        ctx.outcome(mc::fmt("threads %d points %d switches %d", r.threads, r.points, r.switches));
        ctx.transition(r.points);
        if (r.switches > r.threads * 2)
            ctx.nontrivial();
    }
}

// one decode call in a session of its own
void decodeOnce(mc::Ctx& ctx, odc::api::Frame& f, odc::api::Decoder& d, Target& t, const Tab& want, int nthreads,
                const char* what) {
    Verdict v;
    sched::begin(ctx);
    std::string err;
    try {
        d.decode(f, nthreads);
    }
    catch (std::exception& e) {
        err = e.what();
    }
    if (sched::alive())
        v.set("left-running", mc::fmt("%s: %d threads still running after the call", what, sched::alive()));
    sched::Result r = sched::end();
    if (!err.empty())
        v.set("error", std::string(what) + " failed: " + err);
    else if (std::string why = t.compare(want); !why.empty())
        v.set("differs", std::string(what) + ": " + why);
    conclude(ctx, r, v);
}

std::vector<int> sorted(std::vector<long> v) {
    std::sort(v.begin(), v.end());
    return std::vector<int>(v.begin(), v.end());
}

void parts(mc::Ctx& ctx) {
    int n        = 2 + ctx.choose(ctx.thorough ? 3 : 2, "parts");
    int nthreads = 2 + ctx.choose(ctx.thorough ? 3 : 2, "threads");
    int kind     = ctx.choose(3, "kind");
    bool colMajor = ctx.flip("colmajor");
    if (n == 4 && (nthreads > 2 || kind != 1))
        ctx.skip();
    if (nthreads == 4 && (n > 3 || kind != 1))
        ctx.skip();
    if (!ctx.thorough && n == 3 && nthreads == 3 && kind != 1)
        ctx.skip();
    ctx.shard();
    const Input& in = input(kind, n);
    Probe src(in.bytes);
    odc::api::Reader reader(src, true);
    odc::api::Frame f = reader.next();
    ctx.check(f && f.rowCount() == in.all.rows.size(), "setup", "aggregation");
    Target t(in.all, colMajor);
    odc::api::Decoder d(t.names, t.sd);
    // what a serial decode reads
    src.readsAt.clear();
    src.pos = 0;
    decodeOnce(ctx, f, d, t, in.all, nthreads, "threaded decode");
    auto threaded = sorted(src.readsAt);
    src.readsAt.clear();
    t.wipe();
    d.decode(f, 1);
    if (std::string why = t.compare(in.all); !why.empty())
        ctx.fail("serial", "serial decode afterwards: " + why);
    if (threaded != sorted(src.readsAt))
        ctx.fail("reads", "the threads together do not read the same data as a serial decode");
}

// the same decoder and frame used twice
void twice(mc::Ctx& ctx) {
    int kind = ctx.choose(2, "kind");
    ctx.shard();
    const Input& in = input(kind, 2);
    Probe src(in.bytes);
    odc::api::Reader reader(src, true);
    odc::api::Frame f = reader.next();
    Target t(in.all, false);
    odc::api::Decoder d(t.names, t.sd);
    decodeOnce(ctx, f, d, t, in.all, 2, "first decode");
    t.wipe();
    decodeOnce(ctx, f, d, t, in.all, 2, "second decode");
}

// the C interface, library allocated and caller memory
void cinterface(mc::Ctx& ctx) {
    int n        = 2 + ctx.choose(2, "parts");
    int nthreads = 2 + ctx.choose(2, "threads");
    int mode     = ctx.choose(3, "memory");  // library: row major, column major; or caller's
    ctx.shard();
    const Input& in = input(1, n);
    CReader r;
    CAPI(odc_open_buffer(&r.r, in.bytes.data(), long(in.bytes.size())));
    CFrame fr;
    CAPI(odc_new_frame(&fr.f, r.r));
    CAPI(odc_next_frame_aggregated(fr.f, -1));
    CDecoder d;
    CAPI(odc_decoder_defaults_from_frame(d.d, fr.f));
    std::vector<char> mem(in.all.rows.size() * 24 + 32, char(0xee));
    if (mode == 1)
        CAPI(odc_decoder_set_column_major(d.d, true));
    if (mode == 2)
        CAPI(odc_decoder_set_data_array(d.d, mem.data() + 16, 24, long(in.all.rows.size()), false));
    Verdict v;
    long rows = 0;
    sched::begin(ctx);
    int rc = odc_decode_threaded(d.d, fr.f, &rows, nthreads);
    if (sched::alive())
        v.set("left-running", "threads still running after the call");
    sched::Result res = sched::end();
    if (rc)
        v.set("error", std::string("odc_decode_threaded failed: ") + odc_error_string(rc));
    else if (rows != long(in.all.rows.size()))
        v.set("rows", "wrong number of rows reported");
    else {
        const void* p;
        long w, h;
        bool cm;
        CAPI(odc_decoder_data_array(d.d, &p, &w, &h, &cm));
        const char* base = static_cast<const char*>(p);
        for (size_t i = 0; i < in.all.rows.size(); i++)
            for (size_t c = 0; c < 3; c++) {
                Raw got(base + (cm ? c * h * 8 + i * 8 : i * w + c * 8), 8);
                if (!sameCell(in.all.rows[i][c], got, in.all.cols[c].type))
                    v.set("differs", mc::fmt("row %zu column %zu is %s", i, c, show(got, in.all.cols[c].type).c_str()));
            }
    }
    conclude(ctx, res, v);
}

// a read of the data fails
void failing(mc::Ctx& ctx) {
    int n   = 2 + ctx.choose(2, "parts");
    int at  = ctx.choose(n, "failing read");
    int how = ctx.choose(3, "how");
    if (n == 3 && how != 0 && !ctx.thorough)
        ctx.skip();
    ctx.shard();
    const Input& in = input(1, n);
    Probe src(in.bytes);
    odc::api::Reader reader(src, true);
    odc::api::Frame f = reader.next();
    Target t(in.all, false);
    odc::api::Decoder d(t.names, t.sd);
    src.reads   = 0;
    src.failAt  = at;
    src.failHow = how;
    Verdict v;
    sched::begin(ctx);
    std::string err;
    try {
        d.decode(f, 2);
    }
    catch (std::exception& e) {
        err = e.what();
        if (err.empty())
            err = "?";
    }
    if (sched::alive())
        v.set("left-running", mc::fmt("%d threads still running after the failed call", sched::alive()));
    sched::Result r = sched::end();
    if (err.empty())
        v.set("unreported", mc::fmt("read %d of the data failed but the decode reports success", at));
    conclude(ctx, r, v);
    // healthy again
    src.failAt = -1;
    t.wipe();
    d.decode(f, 1);
    if (std::string why = t.compare(in.all); !why.empty())
        ctx.fail("after-failure", "decode after a failed one: " + why);
}

// a thread cannot be created
void noThread(mc::Ctx& ctx) {
    int nthreads = 2 + ctx.choose(2, "threads");
    int which    = ctx.choose(nthreads, "failing creation");
    ctx.shard();
    const Input& in = input(1, 2);
    Probe src(in.bytes);
    odc::api::Reader reader(src, true);
    odc::api::Frame f = reader.next();
    Target t(in.all, false);
    odc::api::Decoder d(t.names, t.sd);
    Verdict v;
    sched::Options o;
    o.failCreate = which;
    sched::begin(ctx, o);
    std::string err;
    try {
        d.decode(f, nthreads);
    }
    catch (std::exception& e) {
        err = e.what();
        if (err.empty())
            err = "?";
    }
    if (sched::alive())
        v.set("left-running", mc::fmt("%d threads still running after the failed call", sched::alive()));
    sched::Result r = sched::end();
    if (err.empty())
        if (std::string why = t.compare(in.all); !why.empty())
            v.set("unreported", "a thread could not be created, the decode reports success, but " + why);
    conclude(ctx, r, v);
}

// numbers of threads which are not a sensible choice
void extremes(mc::Ctx& ctx) {
    int n  = 1 + ctx.choose(3, "parts");
    int nt = ctx.choose(3, "threads");
    ctx.shard();
    int nthreads = nt == 0 ? 0 : nt == 1 ? 1 : 5;
    const Input& in = input(1, n);
    Probe src(in.bytes);
    odc::api::Reader reader(src, true);
    odc::api::Frame f = reader.next();
    Target t(in.all, false);
    odc::api::Decoder d(t.names, t.sd);
    Verdict v;
    sched::begin(ctx);
    std::string err;
    try {
        d.decode(f, nthreads);
    }
    catch (std::exception& e) {
        err = e.what();
        if (err.empty())
            err = "?";
    }
    sched::Result r = sched::end();
    std::string why = t.compare(in.all);
    if (err.empty() && !why.empty())
        v.set("differs", mc::fmt("%d threads: success but %s", nthreads, why.c_str()));
    if (!err.empty() && nthreads)
        v.set("error", err);
    ctx.nontrivial();
    conclude(ctx, r, v);
}

// user threads, each with a frame of its own from one reader
void frames(mc::Ctx& ctx) {
    int mode     = ctx.choose(4, "mode");  // single frames; one of them aggregated and decoded by threads; the reader moves on meanwhile; a frame and its copy
    int kind     = ctx.choose(2, "kind");
    ctx.shard();
    const Input& in = input(kind, 3);
    Probe src(in.bytes);
    bool agg = mode == 1;
    odc::api::Reader reader(src, agg, agg ? long(in.parts[0].rows.size() + in.parts[1].rows.size()) : -1);
    std::vector<odc::api::Frame> fs;
    std::vector<Tab> want;
    fs.push_back(reader.next());
    if (mode == 3) {
        fs.push_back(fs[0]);
        want = {in.parts[0], in.parts[0]};
    }
    else
        fs.push_back(reader.next());
    if (mode == 3)
        ;
    else if (agg) {
        want.push_back(in.parts[0]);
        want[0].rows.insert(want[0].rows.end(), in.parts[1].rows.begin(), in.parts[1].rows.end());
        want.push_back(in.parts[2]);
    }
    else
        want = {in.parts[0], in.parts[1]};
    std::vector<std::unique_ptr<Target>> ts;
    std::vector<std::unique_ptr<odc::api::Decoder>> ds;
    for (int i = 0; i < 2; i++) {
        ts.emplace_back(new Target(want[i], i == 1));
        ds.emplace_back(new odc::api::Decoder(ts[i]->names, ts[i]->sd));
    }
    Verdict v;
    std::string err[2];
    odc::api::Frame third;
    sched::begin(ctx);
    auto work = [&](int i) {
        try {
            ds[i]->decode(fs[i], mode == 1 && i == 0 ? 2 : 1);
        }
        catch (std::exception& e) {
            err[i] = std::string("!") + e.what();
        }
    };
    std::thread t1(work, 0);
    std::string err3;
    if (mode == 2) {
        try {
            third = reader.next();
        }
        catch (std::exception& e) {
            err3 = std::string("!") + e.what();
        }
    }
    else
        work(1);
    t1.join();
    if (sched::alive())
        v.set("left-running", "threads still running");
    sched::Result r = sched::end();
    for (int i = 0; i < (mode == 2 ? 1 : 2); i++) {
        if (!err[i].empty())
            v.set("error", mc::fmt("decode of frame %d: %s", i, err[i].c_str()));
        else if (std::string why = ts[i]->compare(want[i]); !why.empty())
            v.set("differs", mc::fmt("frame %d: %s", i, why.c_str()));
    }
    if (mode == 2) {
        if (!err3.empty() || !third || third.rowCount() != in.parts[2].rows.size())
            v.set("reader", "the reader did not go on to the next frame: " + err3);
    }
    conclude(ctx, r, v);
}

// properties, spans, encoded data of one frame while another one is decoded
void mixed(mc::Ctx& ctx) {
    int op = ctx.choose(3, "operation");
    ctx.shard();
    const Input& in = input(1, 2);
    Probe src(in.bytes);
    odc::api::Reader reader(src, false);
    odc::api::Frame a = reader.next(), b = reader.next();
    Target t(in.parts[0], false);
    odc::api::Decoder d(t.names, t.sd);
    Verdict v;
    std::string err, res;
    sched::begin(ctx);
    std::thread th([&] {
        try {
            d.decode(a);
        }
        catch (std::exception& e) {
            err = std::string("!") + e.what();
        }
    });
    try {
        if (op == 0) {
            auto s = b.span({"k@h"}, false);
            for (long x : s.getIntegerValues("k@h"))
                res += std::to_string(x) + ",";
        }
        else if (op == 1) {
            auto buf = b.encodedData();
            res.assign(static_cast<const char*>(buf.data()), buf.size());
        }
        else
            res = b.properties().count("encoder") ? "yes" : "no";
    }
    catch (std::exception& e) {
        res = std::string("!") + e.what();
    }
    th.join();
    sched::Result r = sched::end();
    if (!err.empty())
        v.set("error", err);
    else if (std::string why = t.compare(in.parts[0]); !why.empty())
        v.set("differs", why);
    std::string want;
    if (op == 0) {
        std::set<long> s;
        for (auto& row : in.parts[1].rows)
            s.insert(asI(row[0]));
        for (long x : s)
            want += std::to_string(x) + ",";
    }
    else if (op == 1)
        want = in.bytes.substr(size_t(long(b.offset())), size_t(long(b.length())));
    else
        want = "yes";
    if (res != want)
        v.set("other", "operation on the other frame gave something else");
    conclude(ctx, r, v);
}

// unrelated objects in two threads: encoders, readers, failing calls
void independent(mc::Ctx& ctx) {
    int opA = ctx.choose(3, "A"), opB = ctx.choose(3, "B");
    if (opB < opA)
        ctx.skip();
    ctx.shard();
    Tab t[2] = {part(1, 1), part(2, 0)};
    std::string bytes[2], got[2];
    for (int i = 0; i < 2; i++)
        bytes[i] = encodeC(t[i]);
    Verdict v;
    auto work = [&](int i, int op) {
        try {
            odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);  // a setting of the thread
            if (op == 0)
                got[i] = encodeC(t[i]) == bytes[i] ? "ok" : "encoded differently";
            else if (op == 1) {
                std::string why;
                got[i] = matches(t[i], readAllC(bytes[i]), why) ? "ok" : why;
            }
            else {
                // a failing call and its message
                odc_reader_t* r = nullptr;
                std::string name = mc::fmt("/nonexistent/file-%d", i);
                int rc           = odc_open_path(&r, name.c_str());
                int rc2 = rc == ODC_SUCCESS ? odc_new_frame(reinterpret_cast<odc_frame_t**>(&r), r) : rc;
                got[i] = rc2 == ODC_SUCCESS ? "no error reported"
                         : std::string(odc_error_string(rc2)).find(name) == std::string::npos
                             ? std::string("the error string is not this thread's: ") + odc_error_string(rc2)
                             : "ok";
            }
        }
        catch (std::exception& e) {
            got[i] = std::string("!") + e.what();
        }
    };
    sched::begin(ctx);
    std::thread th(work, 0, opA);
    work(1, opB);
    th.join();
    sched::Result r = sched::end();
    for (int i = 0; i < 2; i++)
        if (got[i] != "ok")
            v.set("independent", mc::fmt("thread %d: %s", i, got[i].c_str()));
    conclude(ctx, r, v);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] {
        H::init();
        // initialisations made once per process are not part of the explored schedules
        auto warm = [] {
            odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
            std::string b = encodeC(part(1, 1)) + encodeC(part(1, 0));
            readAllC(b, {true, -1, 1});
            odc_reader_t* r = nullptr;
            if (odc_open_path(&r, "/nonexistent/file") == ODC_SUCCESS) {
                odc_frame_t* f = nullptr;
                odc_new_frame(&f, r);
                odc_close(r);
            }
        };
        warm();
        std::thread(warm).join();
    };
    std::string rule = "all schedules with at most the stated number of preemptions (deviations), scheduling points at thread "
                       "creation, exit and join, locks, shared atomics and every operation of the source; non trivial: threads interleave";
    std::vector<mc::Scenario> s;
    s.push_back({"parts", "2-4 parts by 2-4 threads, 3 kinds of contents, row and column major; " + rule, parts, 2, 3});
    s.push_back({"twice", "decoder and frame used twice; " + rule, twice, 2, 3});
    s.push_back({"c", "odc_decode_threaded into library and caller memory; " + rule, cinterface, 2, 3});
    s.push_back({"failing", "each read fails in turn, by exception, -1 or short; " + rule, failing, 2, 3});
    s.push_back({"nothread", "each thread creation fails in turn; " + rule, noThread, 2, 4});
    s.push_back({"extremes", "0, 1 and 5 threads for 1-3 parts; " + rule, extremes, 0, 0});
    s.push_back({"frames", "two user threads with a frame each, one aggregated, or one the copy of the other, or with the reader moving on; " + rule, frames, 2, 3});
    s.push_back({"mixed", "span, encoded data or properties of a frame while another is decoded; " + rule, mixed, 3, 4});
    s.push_back({"independent", "unrelated encoders, readers and failing calls in two threads; " + rule, independent, 2, 3});
#ifdef SECOND
    // the same schedules in the AddressSanitizer build (no race detection)
    for (auto& x : s) {
        x.name = "asan-" + x.name;
        if (x.devQuick > 1)
            x.devQuick--;
        if (x.devThorough > 2)
            x.devThorough--;
    }
#endif
    return s;
}
