// C14: the byte order of the file does not matter.
#include "codecs.h"
#include "odc/Select.h"
using namespace H;

namespace {

enum { VIA_C, VIA_C_AGG, VIA_CPP, VIA_LEGACY, VIA_SPAN, VIA_FILTER, VIA_SELECT, VIA_SUBSET, VIA_FRAME_FILTER, VIA_COPY, NVIAS };
const char* viaNames[] = {"odc_next_frame", "odc_next_frame_aggregated", "odc::api::Reader (aggregated)", "odc::Reader", "span", "filter", "odc::Select", "selected columns", "Frame::filter", "odc_copy_frame"};

struct Spans : odc::api::SpanVisitor {
    std::string s;
    void operator()(const std::string& n, const std::set<long>& v) override {
        s += n + "=";
        for (auto x : v)
            s += mc::fmt("%ld,", x);
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        s += n + "=";
        for (auto x : v)
            s += mc::fmt("%.17g,", x);
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        s += n + "=";
        for (auto& x : v)
            s += mc::hex(x.data(), x.size()) + ",";
    }
};

std::string showFrames(const std::vector<Frame>& fs) {
    std::string s;
    for (auto& f : fs) {
        s += "[";
        for (auto& c : f.cols) {
            s += mc::fmt("%s:%d/%d ", c.name.c_str(), c.type, c.size);
            for (auto& b : c.bits)
                s += mc::fmt("%s:%d ", b.first.c_str(), b.second);
        }
        for (auto& r : f.rows) {
            s += "|";
            for (auto& x : r)
                s += mc::hex(x.data(), x.size()) + " ";
        }
        for (auto& p : f.props)
            s += p.first + "=" + p.second + ";";
        s += "]";
    }
    return s;
}

// everything the interface shows of the stream
std::string observe(int via, const std::string& bytes) {
    if (via == VIA_C || via == VIA_C_AGG) {
        Outcome o = readSource(C_BUFFER, bytes, via == VIA_C_AGG);
        return o.error.empty() ? showFrames(o.frames) : "error: " + o.error;
    }
    if (via == VIA_CPP) {
        Outcome o = readSource(CPP_MEMORY, bytes, true);
        return o.error.empty() ? showFrames(o.frames) : "error: " + o.error;
    }
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    if (via == VIA_LEGACY) {
        odc::Reader r(mh);
        Outcome o = readLegacy(r);
        return o.error.empty() ? showFrames(o.frames) : "error: " + o.error;
    }
    std::string res;
    std::string err = thrown([&] {
        if (via == VIA_COPY) {
            CReader r;
            CFrame f, g;
            CAPI(odc_open_buffer(&r.r, bytes.data(), bytes.size()));
            CAPI(odc_new_frame(&f.f, r.r));
            while (true) {
                int rc = odc_next_frame(f.f);
                if (rc == ODC_ITERATION_COMPLETE)
                    return;
                CAPI(rc);
                odc_frame_t* copy = nullptr;
                CAPI(odc_copy_frame(f.f, &copy));
                CFrame owner;
                owner.f = copy;
                res += showFrames({decodeFrameC(copy)});
            }
        }
        mh.openForRead();
        if (via == VIA_SELECT) {
            odc::Select sel("select *", mh, false);
            auto it = sel.begin(), end = sel.end();
            while (it != end) {
                for (size_t k = 0; k < it->columns().size(); k++)
                    res += mc::hex(&(*it).data(k), 8 * it->columns()[k]->dataSizeDoubles()) + " ";
                res += "|";
                ++it;
            }
            return;
        }
        if (via == VIA_FILTER) {
            eckit::MemoryHandle out(size_t(1024), true);
            out.openForWrite(0);
            odc::api::filter("select *", mh, out);
            std::string got((const char*)out.data(), size_t(out.position()));
            res = showFrames(readAllC(got));
            return;
        }
        odc::api::Reader rd(mh, via == VIA_SPAN);
        while (odc::api::Frame f = rd.next()) {
            if (via == VIA_FRAME_FILTER) {
                odc::api::Frame g = f.filter("select *");
                res += g ? showFrames({decodeFrameCpp(g)}) : "none";
            }
            else if (via == VIA_SPAN) {
                std::vector<std::string> names;
                for (auto& i : f.columnInfo())
                    names.push_back(i.name);
                Spans sp;
                f.span(names, false).visit(sp);
                res += sp.s;
                for (auto& n : names) {
                    std::string e = thrown([&] { Spans q; f.span({n}, true).visit(q); res += "const " + q.s; });
                    if (!e.empty())
                        res += "not const " + n;
                }
            }
            else
                for (size_t k = 0; k < f.columnCount(); k++) {
                    auto& i = f.columnInfo()[k];
                    std::vector<char> m(f.rowCount() * i.decodedSize + 1, 0);
                    std::vector<odc::api::StridedData> sd;
                    sd.emplace_back(m.data(), f.rowCount(), i.decodedSize, i.decodedSize);
                    odc::api::Decoder d({i.name}, sd);
                    d.decode(f);
                    res += mc::hex(m.data(), m.size()) + " ";
                }
        }
    });
    if (!err.empty())
        return "error: " + err;
    return res;
}

void compare(mc::Ctx& c, const std::string& native, const std::string& other, const std::string& what, int via) {
    bool dbl = c.flip();
    odc_integer_behaviour(dbl ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    c.at(mc::fmt("read-%d", via));
    std::string a = observe(via, native), b = observe(via, other);
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    c.note(what + mc::fmt(" integers as %s, %s: ", dbl ? "doubles" : "longs", viaNames[via]) + a.substr(0, 300));
    c.outcome(b);
    if (a != b)
        c.fail(mc::fmt("differs-%s", viaNames[via]), what + mc::fmt(", through %s: native order gives ", viaNames[via]) + a.substr(0, 300) + " and the opposite order " + b.substr(0, 300));
}

void oneColumn(mc::Ctx& c) {
    Kind k = kinds()[c.choose(kinds().size())];
    int n  = c.choose(c.thorough ? 4 : 3);
    std::vector<Row> rows;
    for (int i = 0; i < n; i++) {
        rows.push_back({c.pick(values(k.type))});
        if (i == 0)
            c.shard();
    }
    Ref::Frame f;
    Tab t;
    if (!foreign({k}, rows, f, t))
        c.skip();
    f.minor = 4 + c.choose(2);
    int via = c.choose(NVIAS);
    if (n)
        c.nontrivial();
    std::string a = Ref::encode(f);
    f.swap        = true;
    std::string b = Ref::encode(f);
    compare(c, a, b, std::string(k.codec) + " " + showTab(t), via);
    // and what is read is right
    if (via == VIA_C || via == VIA_LEGACY) {
        Outcome o;
        if (via == VIA_C)
            o = readSource(C_BUFFER, b, false);
        else {
            eckit::MemoryHandle mh(b.data(), b.size());
            odc::Reader r(mh);
            o = readLegacy(r);
        }
        std::string why;
        if (!o.error.empty() || !matches(t, o.frames, why))
            c.fail(mc::fmt("misread-%s", viaNames[via]), std::string(k.codec) + " " + showTab(t) + ": " + o.error + why);
    }
}

void pairs(mc::Ctx& c) {
    std::vector<Kind> ks = {kinds()[c.choose(kinds().size())], kinds()[c.choose(kinds().size())]};
    c.shard();
    static const std::vector<std::vector<int>> seqs = {{0, 0, 0, 0}, {0, 1, 2, 3}, {0, 0, 1, 1}, {0, 1, 0, 1}, {0, 0, 0, 1}};
    std::vector<Row> rows(4);
    for (int i = 0; i < 2; i++) {
        auto& q   = seqs[c.choose(c.thorough ? seqs.size() : 3)];
        auto& val = values(ks[i].type);
        for (int r = 0; r < 4; r++)
            rows[r].push_back(val[(q[r] + 3 * i) % val.size()]);
    }
    Ref::Frame f;
    Tab t;
    if (!foreign(ks, rows, f, t))
        c.skip();
    f.policy = c.choose(3);
    f.props  = {{"key", "value"}, {"empty", ""}};
    c.nontrivial();
    std::string a = Ref::encode(f);
    f.swap        = true;
    std::string b = Ref::encode(f);
    compare(c, a, b, mc::fmt("%s, %s: ", ks[0].codec, ks[1].codec) + showTab(t), c.choose(NVIAS));
}

// streams whose frames have any mixture of byte orders, including changes of codec from frame to frame
void mixed(mc::Ctx& c) {
    static const std::vector<std::vector<Kind>> variants = {
        {{INTEGER, "int8"}, {STRING, "int8_string"}, {REAL, "short_real"}, {DOUBLE, "long_real"}},
        {{INTEGER, "int32"}, {STRING, "int16_string"}, {REAL, "short_real2"}, {DOUBLE, "constant"}},
        {{INTEGER, "int16_missing"}, {STRING, "long_constant_string"}, {REAL, "real_constant_or_missing"}, {DOUBLE, "short_real"}}};
    int n = 2 + c.choose(c.thorough ? 3 : 2);
    std::string native, other, what;
    bool swapped = false;
    for (int i = 0; i < n; i++) {
        int v     = c.choose(variants.size());
        int nrows = n > 2 && !c.thorough ? 1 : c.choose(3);
        bool sw   = c.flip();
        if (i == 0)
            c.shard();
        std::vector<Row> rows;
        for (int r = 0; r < nrows; r++)
            rows.push_back({v == 2 && r ? rI(IMDI) : rI(3 + r * i), rS(v == 2 ? "a long constant" : r ? "bb" : "a", 3), v == 2 ? rD(1.5) : rD(1.5 * r + i), rD(v == 1 ? 4 : 0.5 * i)});
        Ref::Frame f;
        Tab t;
        if (!foreign(variants[v], rows, f, t))
            abort();
        f.props = {{mc::fmt("p%d", i), "x"}, {"p", mc::fmt("%d", i)}};
        native += Ref::encode(f);
        f.swap = sw;
        other += Ref::encode(f);
        swapped |= sw;
        what += mc::fmt("[%d rows, variant %d%s] ", nrows, v, sw ? ", swapped" : "");
    }
    if (!swapped)
        c.skip();
    int via = c.choose(NVIAS);
    c.nontrivial();
    compare(c, native, other, what, via);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    std::string vias = mc::fmt(" x %d ways of reading x integers as longs/doubles, compared with the same stream in native order", NVIAS);
    return {
        {"one-column", "25 (type, codec) pairs x every sequence of <=2 (thorough 3) values it can represent x minor version" + vias, oneColumn},
        {"two-columns", "every pair of (type, codec) x change patterns of 4 rows x marker policies" + vias, pairs},
        {"mixed-streams", "2-3 (thorough 4) frames x 3 codec variants x 0-2 rows (quick: 3 frames of 1 row) x byte order of each" + vias, mixed},
    };
}
