// C10: corrupt or hostile input never corrupts memory, hangs or crashes the reader.
// Memory errors are seen by AddressSanitizer, endless loops by a bound on frames and by the time limit of the engine,
// absurd allocations by the allocator, and contents which do not come from the stream by reading it twice with
// different contents in fresh memory.
#include "codecs.h"
#include "odc/Select.h"
#include "bounded_new.h"
using namespace H;

namespace {

constexpr size_t allocationBound = 16 << 20;
constexpr size_t frameBound      = 50;

enum { VIA_C, VIA_C_AGG, VIA_CPP, VIA_LEGACY, VIA_SPAN, VIA_FILTER, VIA_SELECT, VIA_SUBSET, VIA_FRAME_FILTER, NVIAS };
const char* viaNames[] = {"odc_next_frame", "odc_next_frame_aggregated, 2 threads", "odc::api::Reader (aggregated)", "odc::Reader", "span", "filter", "odc::Select", "one column", "Frame::filter"};

struct TooMany {};

struct Spans : odc::api::SpanVisitor {
    std::string s;
    void operator()(const std::string& n, const std::set<long>& v) override {
        s += n + "=";
        for (auto x : v)
            s += mc::fmt("%ld,", x);
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        s += n + "=";
        for (auto x : v)
            s += mc::fmt("%.17g,", x);
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        s += n + "=";
        for (auto& x : v)
            s += mc::hex(x.data(), x.size()) + ",";
    }
};

void show(std::string& s, const Frame& f) {
    s += "[";
    for (auto& c : f.cols) {
        s += mc::fmt("%s:%d/%d ", c.name.c_str(), c.type, c.size);
        for (auto& b : c.bits)
            s += mc::fmt("%s:%d ", b.first.c_str(), b.second);
    }
    for (auto& r : f.rows) {
        s += "|";
        for (auto& x : r)
            s += mc::hex(x.data(), x.size()) + " ";
    }
    for (auto& p : f.props)
        s += p.first + "=" + p.second + ";";
    s += "]";
}

// Everything the interface shows of the stream, up to and including the first error
std::string observe(int via, const std::string& bytes, size_t& frames, std::string& err) {
    frames = 0;
    std::string res;
    auto more = [&] {
        if (++frames > frameBound)
            throw TooMany{};
    };
    // exactly sized copy, so that ASan sees reads beyond the source
    std::unique_ptr<char[]> copy(new char[bytes.size()]);
    memcpy(copy.get(), bytes.data(), bytes.size());
    err = thrown([&] {
        if (via == VIA_C || via == VIA_C_AGG) {
            CReader r;
            CFrame f;
            CAPI(odc_open_buffer(&r.r, copy.get(), bytes.size()));
            CAPI(odc_new_frame(&f.f, r.r));
            while (true) {
                int rc = via == VIA_C_AGG ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
                if (rc == ODC_ITERATION_COMPLETE)
                    return;
                if (rc != ODC_SUCCESS)
                    throw ApiError{odc_error_string(rc)};
                more();
                Frame d;
                long n;
                describeC(f.f, d, n);
                show(res, d);
                show(res, decodeFrameC(f.f, via == VIA_C_AGG ? 2 : 1));
            }
        }
        eckit::MemoryHandle mh(copy.get(), bytes.size());
        if (via == VIA_LEGACY) {
            odc::Reader r(mh);
            auto it  = r.begin();
            auto end = r.end();
            while (it != end) {
                if (it->isNewDataset())
                    more();
                auto& md = it->columns();
                for (size_t c = 0; c < md.size(); c++)
                    res += mc::hex(&(*it).data(c), 8 * md[c]->dataSizeDoubles()) + " ";
                if (res.size() > 4000000)
                    throw TooMany{};
                ++it;
            }
            return;
        }
        mh.openForRead();
        if (via == VIA_SELECT) {
            odc::Select sel("select *", mh, false);
            auto it = sel.begin(), end = sel.end();
            while (it != end) {
                for (size_t k = 0; k < it->columns().size(); k++)
                    res += mc::hex(&(*it).data(k), 8 * it->columns()[k]->dataSizeDoubles()) + " ";
                res += "|";
                if (res.size() > 4000000)
                    throw TooMany{};
                ++it;
            }
            return;
        }
        if (via == VIA_FILTER) {
            eckit::MemoryHandle out(size_t(1024), true);
            out.openForWrite(0);
            odc::api::filter("select *", mh, out);
            res = std::string((const char*)out.data(), size_t(out.position()));
            return;
        }
        odc::api::Reader rd(mh, via == VIA_CPP);
        while (odc::api::Frame f = rd.next()) {
            more();
            if (via == VIA_CPP) {
                eckit::Buffer b = f.encodedData();
                res += mc::fmt("(%lld+%lld %zu) ", (long long)f.offset(), (long long)f.length(), b.size());
                Frame d = decodeFrameCpp(f);
                show(res, d);
            }
            else if (via == VIA_FRAME_FILTER) {
                odc::api::Frame g = f.filter("select *");
                if (g)
                    show(res, decodeFrameCpp(g));
            }
            else if (via == VIA_SPAN) {
                for (auto& i : f.columnInfo()) {
                    Spans sp, q;
                    f.span({i.name}, false).visit(sp);
                    res += sp.s;
                    if (thrown([&] { f.span({i.name}, true).visit(q); }).empty())
                        res += "const " + q.s;
                }
            }
            else
                for (size_t k = 0; k < f.columnCount(); k++) {
                    auto& i = f.columnInfo()[k];
                    std::vector<char> m(f.rowCount() * i.decodedSize, 0x77);
                    std::vector<odc::api::StridedData> sd;
                    sd.emplace_back(m.data(), f.rowCount(), i.decodedSize, i.decodedSize);
                    odc::api::Decoder d({i.name}, sd);
                    d.decode(f);
                    res += mc::hex(m.data(), m.size()) + " ";
                }
        }
    });
    return res;
}

std::string safely(mc::Ctx& c, int via, const std::string& bytes, size_t& frames, std::string& err, const std::string& what) {
    std::string res;
    alloc::reset();
    try {
        res = observe(via, bytes, frames, err);
    }
    catch (TooMany&) {
        c.fail(mc::fmt("endless-%d", via), what + mc::fmt(", through %s: more than %zu frames are delivered from %zu bytes", viaNames[via], frameBound, bytes.size()));
    }
    size_t most = alloc::largest;
    if (most > allocationBound)
        c.fail(mc::fmt("allocation-%d", via), what + mc::fmt(", through %s: %zu bytes of memory requested at once for a stream of %zu bytes", viaNames[via], most, bytes.size()));
    return res;
}

void verify(mc::Ctx& c, const std::string& bytes, const std::string& what, int via) {
    c.at(viaNames[via]);
    c.note(what + ", through " + viaNames[via]);
    size_t frames, frames2;
    std::string err, err2;
    alloc::fill   = 0x31;
    std::string a = safely(c, via, bytes, frames, err, what);
    alloc::fill   = 0xc5;
    std::string b = safely(c, via, bytes, frames2, err2, what);
    alloc::fill   = -1;
    c.outcome(mc::fmt("%zu ", frames) + err.substr(0, 50) + mc::fmt(" %zu", std::hash<std::string>()(a)));
    if (a != b || frames != frames2 || err.empty() != err2.empty()) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            i++;
        size_t from = i > 40 ? i - 40 : 0;
        c.fail(mc::fmt("undefined-%d", via), what + mc::fmt(", through %s: what is delivered depends on the previous contents of memory: ", viaNames[via]) +
                                                 (via == VIA_FILTER ? "" : a.substr(from, 120) + " / " + b.substr(from, 120)) + " (" + err + " / " + err2 + ")");
    }
}

//----------------------------------------------------------------------------------------------------------------------
// the streams which are damaged

struct Base {
    std::string name;
    Ref::Frame f;
    std::string bytes, desc, data;
    size_t header;
    std::vector<std::pair<std::string, std::pair<size_t, size_t>>> fields;
};

Base base(const char* name, const std::vector<Kind>& ks, const std::vector<Row>& rows, bool swap = false, int policy = 0, bool props = false) {
    Base b;
    b.name = name;
    Tab t;
    if (!foreign(ks, rows, b.f, t))
        abort();
    b.f.swap   = swap;
    b.f.policy = policy;
    if (props)
        b.f.props = {{"key", "value"}, {"k2", ""}};
    Ref::W w;
    w.swap   = swap;
    b.data   = Ref::rowData(b.f);
    Ref::description(w, b.f, b.data.size());
    b.desc   = w.s;
    b.fields = w.fields;
    b.bytes  = Ref::assemble(b.desc, b.data, swap, 5);
    b.header = b.bytes.size() - b.data.size();
    return b;
}

const std::vector<Base>& bases() {
    static std::vector<Base> v;
    if (v.empty()) {
        std::vector<Row> ints = {{rI(1), rI(300), rI(70000), rI(IMDI), rI(4)}, {rI(2), rI(300), rI(5), rI(9), rI(4)}, {rI(2), rI(300), rI(6), rI(10), rI(4)}, {rI(1), rI(301), rI(6), rI(9), rI(IMDI)}};
        v.push_back(base("integers", {{INTEGER, "int8"}, {INTEGER, "int16"}, {INTEGER, "int32"}, {INTEGER, "int8_missing"}, {INTEGER, "constant_or_missing"}}, ints));
        std::vector<Row> strs = {{rS("a", 3), rS("0123456789", 3), rS("xyz", 3), rS("same", 3), rS("a long constant", 3)}, {rS("a", 3), rS("0123456789abcdef", 3), rS("xyz", 3), rS("same", 3), rS("a long constant", 3)}, {rS("bb", 3), rS("", 3), rS("abcdefgh", 3), rS("same", 3), rS("a long constant", 3)}};
        v.push_back(base("strings", {{STRING, "int8_string"}, {STRING, "int16_string"}, {STRING, "chars"}, {STRING, "constant_string"}, {STRING, "long_constant_string"}}, strs));
        std::vector<Row> reals = {{rD(1.5), rD(2.5), rD(3.5), rD(RMDI), rD(7)}, {rD(1.5), rD(2.25), rD(3.5), rD(4), rD(7)}, {rD(1), rD(2.25), rD(3), rD(4), rD(7)}};
        v.push_back(base("reals", {{REAL, "short_real"}, {REAL, "short_real2"}, {DOUBLE, "long_real"}, {DOUBLE, "real_constant_or_missing"}, {DOUBLE, "constant"}}, reals));
        std::vector<Row> mix = {{rI(1), rS("0123456789", 3), rI(5), rD(1)}, {rI(1), rS("0123456789", 3), rI(6), rD(1)}, {rI(2), rS("z", 3), rI(6), rD(2)}};
        v.push_back(base("bitfield, properties", {{BITFIELD, "int32"}, {STRING, "int8_string"}, {INTEGER, "int16_missing"}, {REAL, "short_real"}}, mix, false, 0, true));
        v.push_back(base("other byte order", {{BITFIELD, "int8"}, {STRING, "int16_string"}, {INTEGER, "int32"}, {DOUBLE, "long_real"}}, mix, true, 2, true));
        v.push_back(base("one column", {{STRING, "int8_string"}}, {{rS("0123456789", 3)}, {rS("a", 3)}}));
        v.push_back(base("no rows", {{INTEGER, "int32"}, {STRING, "int8_string"}}, {}));
    }
    return v;
}

std::string around(mc::Ctx& c, const std::string& bad) {
    // alone, or followed by a good frame
    static const std::string good = bases()[5].bytes;
    return c.flip() ? bad + good : bad;
}

void dataBytes(mc::Ctx& c) {
    auto& b    = bases()[c.choose(bases().size() - 1)];
    size_t pos = c.choose(b.data.size());
    c.shard();
    int v             = c.choose(256);
    unsigned char old = b.bytes[b.header + pos];
    unsigned char x   = old ^ v;
    if (v == old)
        c.skip();
    if (!c.thorough && (x & (x - 1)) && v != 0 && v != 255 && v > 6)
        c.skip();
    std::string bad       = b.bytes;
    bad[b.header + pos]   = char(v);
    std::string s         = around(c, bad);
    int via               = c.choose(NVIAS);
    c.nontrivial();
    verify(c, s, mc::fmt("%s: data byte %zu of %zu changed from %02x to %02x", b.name.c_str(), pos, b.data.size(), old, v), via);
}

// two bytes of the data
void dataPairs(mc::Ctx& c) {
    auto& b  = bases()[c.choose(bases().size() - 1)];
    size_t p = c.choose(b.data.size());
    size_t q = c.choose(b.data.size());
    if (q <= p || (!c.thorough && q > p + 3))
        c.skip();
    c.shard();
    static const std::vector<int> vals = {0x00, 0x01, 0x04, 0x7f, 0x80, 0xff};
    std::string bad                    = b.bytes;
    bad[b.header + p]                  = char(c.pick(vals));
    bad[b.header + q]                  = char(c.pick(vals));
    int via                            = c.thorough ? c.choose(NVIAS) : c.pick(std::vector<int>{VIA_C, VIA_LEGACY, VIA_SPAN});
    c.nontrivial();
    verify(c, bad, mc::fmt("%s: data bytes %zu and %zu of %zu changed to %02x and %02x", b.name.c_str(), p, q, b.data.size(), (unsigned char)bad[b.header + p], (unsigned char)bad[b.header + q]), via);
}

// length of the data against the header
void dataLength(mc::Ctx& c) {
    auto& b     = bases()[c.choose(bases().size())];
    long change = c.choose(61) - 40;
    c.shard();
    bool declared = c.flip();
    std::string data = b.data;
    if (change < 0) {
        if (size_t(-change) > data.size())
            c.skip();
        data.resize(data.size() + change);
    }
    else
        data += std::string(change, c.flip() ? '\0' : '\xff');
    Ref::Frame f = b.f;
    f.dataSize   = declared ? long(data.size()) : long(b.data.size());
    Ref::W w;
    w.swap = f.swap;
    Ref::description(w, f, 0);
    std::string s = around(c, Ref::assemble(w.s, data, f.swap, 5));
    c.nontrivial();
    verify(c, s, mc::fmt("%s: %ld bytes of data more than its rows need%s", b.name.c_str(), change, declared ? ", declared" : ""), c.choose(NVIAS));
}

//----------------------------------------------------------------------------------------------------------------------
// descriptions with a correct checksum

template <typename T>
T get(const std::string& s, size_t off, bool swap) {
    char b[sizeof(T)];
    memcpy(b, s.data() + off, sizeof(T));
    if (swap)
        std::reverse(b, b + sizeof(T));
    T v;
    memcpy(&v, b, sizeof(T));
    return v;
}
template <typename T>
void put(std::string& s, size_t off, T v, bool swap) {
    char b[sizeof(T)];
    memcpy(b, &v, sizeof(T));
    if (swap)
        std::reverse(b, b + sizeof(T));
    s.replace(off, sizeof(T), b, sizeof(T));
}

int alternatives(const Base& b, size_t field) {
    auto& f = b.fields[field];
    return f.second.second == 4 ? 16 : f.first == "min" || f.first == "max" || f.first == "missing" ? 12 : 18;
}

// the which-th replacement of a field; returns false if it is the same
bool replace(const Base& b, std::string& desc, size_t field, int which, std::string& what) {
    auto& f    = b.fields[field];
    size_t off = f.second.first;
    bool sw    = b.f.swap;
    if (f.second.second == 4) {
        int32_t cur           = get<int32_t>(desc, off, sw);
        const int32_t vals[]  = {0, 1, 2, 3, 5, -1, cur + 1, cur - 1, 2 * cur, -cur, 255, 65536, 1000000, 0x7fffffff, int32_t(0x80000000), 0x7ffffff8};
        int32_t v             = vals[which];
        if (v == cur)
            return false;
        put<int32_t>(desc, off, v, sw);
        what += mc::fmt(" %s=%d (was %d)", f.first.c_str(), v, cur);
        return true;
    }
    if (f.first == "min" || f.first == "max" || f.first == "missing") {
        double cur         = get<double>(desc, off, sw);
        const double vals[] = {0, -0.0, 1, -1, 254, RMDI, double(IMDI), NAN, INFINITY, -INFINITY, 1e308, -1e19};
        double v           = vals[which];
        if (memcmp(&v, &cur, 8) == 0)
            return false;
        put<double>(desc, off, v, sw);
        what += mc::fmt(" %s=%g (was %g)", f.first.c_str(), v, cur);
        return true;
    }
    int64_t cur          = get<int64_t>(desc, off, sw);
    int64_t head         = b.header;
    const int64_t vals[] = {0, 1, 2, 3, -1, cur - 1, cur + 1, cur + 2, 2 * cur, -cur, -head, -head - cur, 1 << 20, int64_t(1) << 31, int64_t(1) << 32, int64_t(1) << 40, INT64_MAX, INT64_MIN};
    int64_t v            = vals[which];
    if (v == cur)
        return false;
    put<int64_t>(desc, off, v, sw);
    what += mc::fmt(" %s=%lld (was %lld)", f.first.c_str(), (long long)v, (long long)cur);
    return true;
}

void oneField(mc::Ctx& c) {
    auto& b      = bases()[c.choose(bases().size())];
    size_t field = c.choose(b.fields.size());
    c.shard();
    std::string what = b.name + ":", desc = b.desc;
    if (!replace(b, desc, field, c.choose(alternatives(b, field)), what))
        c.skip();
    std::string s = around(c, Ref::assemble(desc, b.data, b.f.swap, 5));
    c.nontrivial();
    verify(c, s, what, c.choose(NVIAS));
}

void twoFields(mc::Ctx& c) {
    auto& b  = bases()[c.thorough ? c.choose(bases().size()) : 5];
    size_t f = c.choose(b.fields.size());
    size_t g = c.choose(b.fields.size());
    if (g <= f)
        c.skip();
    c.shard();
    std::string what = b.name + ":", desc = b.desc;
    if (!replace(b, desc, f, c.choose(alternatives(b, f)), what) || !replace(b, desc, g, c.choose(alternatives(b, g)), what))
        c.skip();
    int via = b.fields.size() < 30 && c.thorough ? c.choose(NVIAS) : c.pick(std::vector<int>{VIA_C, VIA_LEGACY});
    c.nontrivial();
    verify(c, Ref::assemble(desc, b.data, b.f.swap, 5), what, via);
}

void descriptionBytes(mc::Ctx& c) {
    auto& b    = bases()[c.choose(bases().size())];
    size_t pos = c.choose(b.desc.size());
    c.shard();
    int v             = c.choose(256);
    unsigned char old = b.desc[pos];
    unsigned char x   = old ^ v;
    if (v == old)
        c.skip();
    if (!c.thorough && v != 0 && v != 255 && x != 1 && x != 0x80)
        c.skip();
    std::string desc = b.desc;
    desc[pos]        = char(v);
    int via          = c.choose(NVIAS);
    c.nontrivial();
    verify(c, Ref::assemble(desc, b.data, b.f.swap, 5), mc::fmt("%s: byte %zu of %zu of the description changed from %02x to %02x", b.name.c_str(), pos, b.desc.size(), old, v), via);
}

// cut, extended, blocks removed and duplicated
void descriptionBlocks(mc::Ctx& c) {
    auto& b    = bases()[c.choose(bases().size())];
    int kind   = c.choose(3);
    size_t pos = c.choose(b.desc.size());
    c.shard();
    static const std::vector<int> all = {1, 2, 4, 8, 12, 16}, few = {1, 4};
    size_t len                        = kind == 0 ? 0 : c.pick(c.thorough ? all : few);
    if (pos + len > b.desc.size())
        c.skip();
    std::string desc = b.desc;
    if (kind == 0)
        desc.resize(pos);
    else if (kind == 1)
        desc.erase(pos, len);
    else
        desc.insert(pos, b.desc.substr(pos, len));
    int via = c.choose(NVIAS);
    c.nontrivial();
    static const char* kinds[] = {"ends", "lacks", "repeats"};
    verify(c, Ref::assemble(desc, b.data, b.f.swap, 5), mc::fmt("%s: description of %zu bytes %s at %zu, %zu bytes", b.name.c_str(), b.desc.size(), kinds[kind], pos, len), via);
}

// any type with any codec
void mismatch(mc::Ctx& c) {
    static const std::vector<const char*> names = {"int8", "int16", "int32", "int8_missing", "int16_missing", "constant_or_missing", "constant", "long_real", "short_real", "short_real2", "real_constant_or_missing", "chars", "constant_string", "long_constant_string", "int8_string", "int16_string", "", "nonsense"};
    static const std::vector<int> types         = {0, 1, 2, 3, 4, 5, 6, -1, 1000};
    int k = c.choose(kinds().size());
    auto& kind = kinds()[k];
    c.shard();
    Ref::Frame f;
    Tab t;
    std::vector<Row> rows = {{kind.type == STRING ? rS("abc", 3) : kind.type == INTEGER || kind.type == BITFIELD ? rI(4) : rD(4), rI(1)}, {kind.type == STRING ? rS("abc", 3) : kind.type == INTEGER || kind.type == BITFIELD ? rI(4) : rD(4), rI(2)}};
    if (!foreign({kind, {INTEGER, "int8"}}, rows, f, t))
        c.skip();
    f.swap          = c.flip();
    std::string data = Ref::rowData(f);
    std::string name = c.pick(names);
    Ref::W w;
    w.swap = f.swap;
    f.cols[0].codec = name;
    if (name == "int8_string" || name == "int16_string" || name == "long_constant_string")
        f.cols[0].dict = {"abc", "0123456789"};
    Ref::description(w, f, data.size());
    std::string desc = w.s;
    int type         = c.pick(types);
    size_t off = 0;
    for (auto& x : w.fields)
        if (x.first == "col.type") {
            off = x.second.first;
            break;
        }
    put<int32_t>(desc, off, type, f.swap);
    c.nontrivial();
    verify(c, Ref::assemble(desc, data, f.swap, 5), mc::fmt("data of codec %s read as %s, type %d%s", kind.codec, name.c_str(), type, f.swap ? ", other byte order" : ""), c.choose(NVIAS));
}

// a hostile frame between good ones, same and other columns
void sequence(mc::Ctx& c) {
    auto& b      = bases()[c.choose(bases().size())];
    size_t field = c.choose(b.fields.size());
    c.shard();
    std::string what = b.name + ":", desc = b.desc;
    if (!replace(b, desc, field, c.choose(alternatives(b, field)), what))
        c.skip();
    std::string s = b.bytes + Ref::assemble(desc, b.data, b.f.swap, 5) + (c.flip() ? b.bytes : std::string());
    int via = c.thorough ? c.choose(NVIAS) : c.pick(std::vector<int>{VIA_C_AGG, VIA_LEGACY, VIA_SELECT});
    c.nontrivial();
    verify(c, s, what + ", after a good frame", via);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { alloc::limit = allocationBound * 4; H::init(); bases(); };
    std::string vias = mc::fmt(" x %d ways of reading", NVIAS);
    std::vector<mc::Scenario> v;
    auto add = [&](const char* n, const std::string& rule, std::function<void(mc::Ctx&)> f) {
        mc::Scenario s{n, rule, f};
        s.hangSeconds = 30;
        v.push_back(s);
    };
    add("data-bytes", "every byte of the data of 6 frames (all codecs, both byte orders) replaced (quick: one bit, 0-6, ff; thorough: all values) x last / followed by a good frame" + vias, dataBytes);
    add("data-pairs", "every two bytes of the data (quick: at most 6 apart) replaced by 6 values each" + vias + " (quick: 3)", dataPairs);
    add("data-length", "data shorter by 1-40 or longer by 1-20 bytes than the rows need, declared or not" + vias, dataLength);
    add("one-field", "every field of the descriptions of 7 frames replaced by 12-18 values (negative, off by one, doubled, huge, not a number), checksum correct, last / followed by a good frame" + vias, oneField);
    add("two-fields", "every two fields of the description (quick: of a frame with one column) x their values, checksum correct", twoFields);
    add("description-bytes", "every byte of the descriptions replaced (quick: 4 values; thorough: all), checksum correct" + vias, descriptionBytes);
    add("description-blocks", "descriptions cut at every byte, with blocks of 1-16 bytes removed or repeated, checksum correct" + vias, descriptionBlocks);
    add("type-codec", "data of every (type, codec) read as any of 18 codec names x 9 types x byte orders" + vias, mismatch);
    add("sequence", "a frame with any field replaced after (and before) the undamaged frame" + vias + " (quick: 3)", sequence);
    return v;
}
