// C07: concatenated streams read as their parts; frame positions tile the stream.
#include <fcntl.h>
#include "h.h"
using namespace H;

namespace {

struct Part {
    Tab t;
    long rpf;
    std::string bytes;
    std::vector<Tab> frames;  // one per frame
};

const std::vector<Part>& pool() {
    static std::vector<Part> p;
    if (p.empty()) {
        auto add = [&](Tab t, long rpf) {
            Part x;
            x.t     = t;
            x.rpf   = rpf;
            x.bytes = encodeCpp(t, ROWMAJOR, rpf);
            for (size_t r = 0; r < t.rows.size(); r += rpf) {
                Tab f  = t;
                f.rows = std::vector<Row>(t.rows.begin() + r, t.rows.begin() + std::min<size_t>(r + rpf, t.rows.size()));
                x.frames.push_back(f);
            }
            p.push_back(x);
        };
        Tab a;
        a.cols = {{"a@t", INTEGER}, {"s@t", STRING, 1}};
        a.rows = {{rI(1), rS("one")}};
        add(a, 10);
        Tab b;
        b.cols  = a.cols;
        b.props = {{"k", "v"}};
        b.rows  = {{rI(2), rS("two")}, {rI(70000), rS("three")}, {rI(IMDI), rS("four")}};
        add(b, 2);
        Tab d;
        d.cols = {{"w@t", STRING, 3}, {"d@t", DOUBLE}};
        d.rows = {{rS("abcdefghijklmnopqrstuvwx", 3), rD(0.1)}, {rS("x", 3), rD(RMDI)}};
        add(d, 1);
        Tab e = a;
        e.rows = {{rI(5), rS("")}, {rI(5), rS("")}};  // constant
        add(e, 10);
    }
    return p;
}

// frames expected when reading `parts`, with the bytes each covers
struct Exp {
    std::vector<Tab> tabs;  // per physical frame
    std::vector<std::pair<long, long>> pos;
};

struct Grouped {
    std::vector<Tab> phys;
    long offset, length;
};

bool sameCols(const Tab& a, const Tab& b) {
    if (a.cols.size() != b.cols.size())
        return false;
    for (size_t i = 0; i < a.cols.size(); i++) {
        if (a.cols[i].name != b.cols[i].name || a.cols[i].type != b.cols[i].type)
            return false;
        // width is that of the longest value in the frame
        auto w = [&](const Tab& t) {
            size_t n = 1;
            for (auto& r : t.rows)
                n = std::max(n, asS(r[i]).size());
            return (n + 7) / 8;
        };
        if (a.cols[i].type == STRING && w(a) != w(b))
            return false;
    }
    return true;
}

Tab join(const std::vector<Tab>& v) {
    Tab t = v[0];
    for (size_t i = 1; i < v.size(); i++)
        t.rows.insert(t.rows.end(), v[i].rows.begin(), v[i].rows.end());
    return t;
}

std::string stream(const std::vector<int>& parts, bool agg, std::vector<Grouped>& g) {
    std::string bytes;
    std::vector<std::pair<Tab, std::pair<long, long>>> phys;
    for (int p : parts) {
        auto& x = pool()[p];
        // physical extents from decoding the part on its own would be circular: frames of a part are contiguous and of
        // the sizes their own encodings have
        long off = bytes.size();
        for (auto& f : x.frames) {
            long len = encodeCpp(f, ROWMAJOR, 10).size();
            phys.push_back({f, {off, len}});
            off += len;
        }
        bytes += x.bytes;
    }
    g.clear();
    for (auto& f : phys) {
        if (agg && !g.empty() && sameCols(g.back().phys[0], f.first)) {
            g.back().phys.push_back(f.first);
            g.back().length += f.second.second;
        }
        else
            g.push_back({{f.first}, f.second.first, f.second.second});
    }
    return bytes;
}

void verifyFrame(mc::Ctx& c, odc::api::Frame& f, const Grouped& e, const std::string& bytes) {
    Frame d;
    std::string err = thrown([&] { d = decodeFrameCpp(f); });
    if (!err.empty())
        c.fail("decode-error", err);
    std::string why;
    if (!matches(join(e.phys), {d}, why))
        c.fail("wrong-frame", why);
    if (d.offset != e.offset || d.length != e.length)
        c.fail("position", mc::fmt("frame at %ld+%ld, expected %ld+%ld", d.offset, d.length, e.offset, e.length));
}

void verifyData(mc::Ctx& c, odc::api::Frame& f, const Grouped& e, const std::string& bytes) {
    std::string got;
    std::string err = thrown([&] {
        eckit::Buffer b = f.encodedData();
        got.assign((const char*)b.data(), b.size());
    });
    if (!err.empty())
        c.fail("encoded-data-error", err);
    if (got != bytes.substr(e.offset, e.length))
        c.fail("encoded-data", "the encoded data of the frame is not its part of the stream");
    std::vector<Frame> fs;
    err = thrown([&] { fs = readAllCpp(got); });
    if (!err.empty())
        c.fail("encoded-data", "the encoded data of a frame does not decode on its own: " + err);
    std::string why;
    if (!matches(join(e.phys), fs, why))
        c.fail("encoded-data", "decoding the encoded data of a frame: " + why);
}

void concatenation(mc::Ctx& c) {
    int n = 1 + c.choose(c.thorough ? 4 : 3);
    std::vector<int> parts;
    std::string desc;
    for (int i = 0; i < n; i++) {
        parts.push_back(c.choose(pool().size()));
        desc += mc::fmt("%d ", parts.back());
        if (i == 1)
            c.shard();
    }
    c.shard();
    bool agg = c.flip();
    int src  = c.choose(5);
    if (n > 1)
        c.nontrivial();
    c.note("parts " + desc + mc::fmt("aggregated %d source %d", agg, src));
    std::vector<Grouped> g;
    std::string bytes = stream(parts, agg, g);
    std::string path  = mc::scratchDir() + "/c07.odb";
    if (src >= 2) {
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (write(fd, bytes.data(), bytes.size()) != long(bytes.size()))
            abort();
        close(fd);
    }
    size_t k = 0;
    std::string out;
    if (src == 4) {  // C interface: no positions, all contents
        CReader r;
        CAPI(odc_open_path(&r.r, path.c_str()));
        CFrame f;
        CAPI(odc_new_frame(&f.f, r.r));
        while (true) {
            int rc = agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
            if (rc == ODC_ITERATION_COMPLETE)
                break;
            if (rc != ODC_SUCCESS)
                c.fail("read-error", odc_error_string(rc));
            if (k >= g.size())
                c.fail("frame-count", "more frames than the parts have");
            Frame d;
            std::string err = thrown([&] { d = decodeFrameC(f.f); });
            if (!err.empty())
                c.fail("decode-error", err);
            std::string why;
            if (!matches(join(g[k].phys), {d}, why))
                c.fail("wrong-frame", mc::fmt("frame %zu: ", k) + why);
            k++;
        }
    }
    else {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        std::unique_ptr<odc::api::Reader> rd;
        std::unique_ptr<eckit::DataHandle> fh;
        if (src == 0) {
            mh.openForRead();
            rd.reset(new odc::api::Reader(mh, agg));
        }
        else if (src == 1)
            rd.reset(new odc::api::Reader(new eckit::MemoryHandle(bytes.data(), bytes.size()), agg));
        else if (src == 2)
            rd.reset(new odc::api::Reader(path, agg));
        else {
            fh.reset(eckit::PathName(path).fileHandle());
            fh->openForRead();
            rd.reset(new odc::api::Reader(*fh, agg));
        }
        long pos = 0;
        while (true) {
            odc::api::Frame f;
            std::string err = thrown([&] { f = rd->next(); });
            if (!err.empty())
                c.fail("read-error", err);
            if (!f)
                break;
            if (k >= g.size())
                c.fail("frame-count", "more frames than the parts have");
            if (long(f.offset()) != pos)
                c.fail("position", mc::fmt("frame %zu starts at %ld, the previous ended at %ld", k, long(f.offset()), pos));
            pos += long(f.length());
            verifyFrame(c, f, g[k], bytes);
            verifyData(c, f, g[k], bytes);
            k++;
        }
        if (pos != long(bytes.size()))
            c.fail("position", mc::fmt("the frames end at %ld, the stream at %zu", pos, bytes.size()));
    }
    if (k != g.size())
        c.fail("frame-count", mc::fmt("%zu frames, expected %zu", k, g.size()));
    c.outcome(desc + (agg ? "a" : "f"));
}

// every history of operations on a reader and its frames
void histories(mc::Ctx& c) {
    static const std::vector<std::vector<int>> streams = {{1, 2}, {0, 3, 2}, {2, 1, 0}};
    int si   = c.choose(streams.size());
    bool agg = c.flip();
    int mode = c.choose(2);
    std::vector<Grouped> g;
    std::string bytes = stream(streams[si], agg, g);
    std::string path  = mc::scratchDir() + "/c07h.odb";
    std::unique_ptr<odc::api::Reader> rd;
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    if (mode == 0) {
        mh.openForRead();
        rd.reset(new odc::api::Reader(mh, agg));
    }
    else {
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (write(fd, bytes.data(), bytes.size()) != long(bytes.size()))
            abort();
        close(fd);
        rd.reset(new odc::api::Reader(path, agg));
    }
    int depth = c.thorough ? 6 : 5;
    std::vector<odc::api::Frame> fr;
    std::vector<size_t> which;
    size_t next = 0;
    std::string desc;
    for (int step = 0; step < depth; step++) {
        // 0: next, 1+3i..: decode / encoded data / span+filter-free copy of frame i
        int nops = 1 + 3 * std::min<int>(fr.size(), 3);
        int op   = c.choose(nops);
        if (step == 2)
            c.shard();
        if (op == 0) {
            odc::api::Frame f;
            std::string err = thrown([&] { f = rd->next(); });
            desc += "next ";
            if (!err.empty())
                c.fail("read-error", desc + err);
            if (next >= g.size()) {
                if (f)
                    c.fail("frame-count", desc + ": a frame after the end");
                continue;
            }
            if (!f)
                c.fail("frame-count", desc + mc::fmt(": only %zu frames", next));
            which.push_back(next++);
            fr.push_back(std::move(f));
            continue;
        }
        int i = (op - 1) / 3;
        c.note(desc);
        switch ((op - 1) % 3) {
            case 0:
                desc += mc::fmt("decode%d ", i);
                verifyFrame(c, fr[i], g[which[i]], bytes);
                if (i + 1 < int(fr.size()))
                    c.nontrivial();
                break;
            case 1:
                desc += mc::fmt("data%d ", i);
                verifyData(c, fr[i], g[which[i]], bytes);
                break;
            case 2: {
                desc += mc::fmt("copy%d ", i);
                odc::api::Frame cp(fr[i]);
                verifyFrame(c, cp, g[which[i]], bytes);
                break;
            }
        }
    }
    c.note(desc);
    c.outcome(desc + mc::fmt("%d %d", si, agg));
    if (mode == 0) {
        fr.clear();
        rd.reset();
        mh.close();
    }
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"concatenation", "all sequences of <=3 (thorough 4) of 4 streams (1-2 frames each, 2 structures) x aggregated or not x 5 kinds of source: contents, tiling, encoded data; non trivial: several parts", concatenation},
        {"histories", "every history of 5 (thorough 6) operations {next, decode i, encoded data i, copy and decode i} on 3 streams x aggregated x memory/file; non trivial: an earlier frame decoded after a later one was read", histories},
    };
}
