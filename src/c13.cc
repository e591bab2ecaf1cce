// C13: frame properties and column metadata survive encoding, reading and access.
#include "sources.h"
using namespace H;

namespace {

std::string longText(size_t n, int seed) {
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += char('!' + (i * 7 + seed) % 90);
    return s;
}

std::string encoderEntry() {
    const char* v;
    CAPI(odc_version(&v));
    return std::string("odc version ") + v;
}

// everything the interfaces say about the properties of the current frame
void checkProps(mc::Ctx& c, odc_frame_t* f, const Props& want, const std::vector<int>& outOfRange) {
    int n = -1;
    CAPI(odc_frame_properties_count(f, &n));
    if (n != int(want.size()))
        c.fail("count", mc::fmt("%d properties, expected %zu", n, want.size()));
    Props got;
    for (int i = 0; i < n; i++) {
        const char *k = nullptr, *v = nullptr;
        CAPI(odc_frame_property_idx(f, i, &k, &v));
        if (!got.insert({k, v}).second)
            c.fail("index", mc::fmt("'%s' is given by two indices", k));
    }
    if (got != want)
        c.fail("index", "properties by index differ from those encoded");
    for (auto& p : want) {
        const char* v = nullptr;
        CAPI(odc_frame_property(f, p.first.c_str(), &v));
        if (!v || v != p.second)
            c.fail("key", mc::fmt("property '%s' is '%s', expected '%s'", p.first.c_str(), v ? v : "(null)", p.second.c_str()));
    }
    const char* v = "x";
    CAPI(odc_frame_property(f, "no such key", &v));
    if (v)
        c.fail("absent", "a property which does not exist has a value");
    for (int i : outOfRange) {
        if (i >= 0)
            i += n;
        const char *k = nullptr, *v = nullptr;
        if (odc_frame_property_idx(f, i, &k, &v) == ODC_SUCCESS)
            c.fail("range", mc::fmt("property %d of %d was returned", i, n));
    }
}

const std::vector<std::string>& keys() {
    static const std::vector<std::string> k = {"", "k", "encoder", "a key", "\xff\xfe\n\x01", longText(300, 1), "K", "k "};
    return k;
}
const std::vector<std::string>& vals() {
    static const std::vector<std::string> v = {"", "v", "\x80\xff\t", longText(70000, 2), "0"};
    return v;
}

void properties(mc::Ctx& c) {
    Tab t;
    t.cols = {{"a@t", INTEGER}};
    t.rows = {{rI(1)}, {rI(2)}, {rI(3)}};
    int n  = c.choose(4);
    int k  = -1;
    for (int i = 0; i < n; i++) {
        k++;
        k += c.choose(keys().size() - k - (n - 1 - i));
        t.props[keys()[k]] = i == 2 && !c.thorough ? "third" : c.pick(vals());
    }
    c.shard();
    int perFrame = c.flip() ? 1 : 0;
    bool cpp     = c.flip();
    Props want   = t.props;
    want["encoder"] = encoderEntry();
    c.note(mc::fmt("%zu properties", t.props.size()));
    if (n)
        c.nontrivial();
    std::string b;
    if (cpp)
        b = encodeCpp(t, ROWMAJOR, perFrame ? perFrame : 10000);
    else {
        Image im = image(t, ROWMAJOR);
        Encoder e;
        configureColumns(e.e, t);
        for (auto& p : t.props)
            CAPI(odc_encoder_add_property(e.e, p.first.c_str(), p.second.c_str()));
        configureData(e.e, t, im);
        if (perFrame)
            CAPI(odc_encoder_set_rows_per_frame(e.e, perFrame));
        b = encodeBuf(e.e, 1 << 20);
    }
    CReader r;
    CAPI(odc_open_buffer(&r.r, b.data(), b.size()));
    CFrame f;
    CAPI(odc_new_frame(&f.f, r.r));
    bool agg   = c.flip();
    int frames = 0;
    while (true) {
        int rc = agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
        if (rc == ODC_ITERATION_COMPLETE)
            break;
        CAPI(rc);
        checkProps(c, f.f, want, t.props.size() < 2 ? std::vector<int>{-1, 0, 1, 1 << 30} : std::vector<int>{});
        frames++;
    }
    if (frames != (perFrame && !agg ? 3 : 1))
        c.fail("frames", mc::fmt("%d frames", frames));
    auto fs = readAllCpp(b, {agg});
    for (auto& x : fs)
        if (x.props != want)
            c.fail("cpp", "Frame::properties differ from those encoded");
    c.outcome(b);
}

// C++ strings may hold NULs
void embedded(mc::Ctx& c) {
    static const std::vector<std::string> s = {std::string("a\0b", 3), std::string("\0", 1), "a", "", std::string("a\0c", 3)};
    Tab t;
    t.cols = {{"a@t", INTEGER}};
    t.rows = {{rI(1)}};
    std::string k1 = c.pick(s), k2 = c.pick(s);
    t.props[k1] = c.pick(s);
    t.props[k2] = c.pick(s);
    c.nontrivial();
    std::string b   = encodeCpp(t);
    Props want      = t.props;
    want["encoder"] = encoderEntry();
    auto fs         = readAllCpp(b);
    if (fs.size() != 1 || fs[0].props != want)
        c.fail("cpp", "Frame::properties differ from those encoded");
    eckit::MemoryHandle mh(b.data(), b.size());
    mh.openForRead();
    c.outcome(b);
}

// columns ------------------------------------------------------------------------------------------------------------

struct BitsCase {
    std::vector<std::pair<std::string, int>> bits;
};

void columns(mc::Ctx& c) {
    static const std::vector<std::string> names = {"a", "a@t", "A@t", "x.y@tbl", "a@t@u", "col with space", "\xc3\xa9@t", longText(300, 4), "@", "a@"};
    static const std::vector<int> sizes         = {1, 2, 3, 7, 8, 31, 32};
    static const std::vector<std::string> bn    = {"f", "", "g@x", "F", longText(100, 3)};
    int ncols                                   = 1 + c.choose(c.thorough ? 3 : 2);
    Tab t;
    std::vector<std::vector<int>> offsets;
    for (int i = 0; i < ncols; i++) {
        Col col;
        col.name = names[i == 0 ? c.choose(names.size()) : (c.choose(i == 1 ? 4 : 2) * 3 + i) % names.size()];
        if (i == 0)
            c.shard();
        static const std::vector<int> types = {INTEGER, REAL, STRING, BITFIELD, DOUBLE};
        col.type = i == 0 ? c.pick(types) : types[2 + c.choose(2)];
        offsets.emplace_back();
        if (col.type == STRING)
            col.w = 1 + c.choose(i == 0 ? 3 : 2);
        if (col.type == BITFIELD) {
            int nb = c.choose(i == 0 ? c.thorough ? 4 : 3 : 2);
            int o  = 0;
            for (int b = 0; b < nb; b++) {
                int s = b == 2 || i > 0 ? 1 + i : c.pick(sizes);
                if (o + s > 32)
                    c.skip();
                col.bits.push_back({bn[(b == 0 ? c.choose(bn.size()) : b + 1) % bn.size()], s});
                offsets.back().push_back(o);
                o += s;
            }
        }
        t.cols.push_back(col);
    }
    bool distinct = true;
    for (int i = 0; i < ncols; i++)
        for (int j = 0; j < i; j++)
            distinct &= t.cols[i].name != t.cols[j].name;
    if (!distinct)
        c.skip();
    c.nontrivial();
    Row row;
    for (auto& col : t.cols)
        row.push_back(col.type == STRING ? rS(std::string(col.w * 8, 'x'), col.w) : col.type == REAL || col.type == DOUBLE ? rD(1) : rI(1));
    t.rows   = {row};
    bool cpp = c.flip();
    bool bad = cpp && t.cols[0].name == names[0];  // reporting errors is slow
    c.note(showTab(t));
    std::string b = cpp ? encodeCpp(t) : encodeC(t);
    c.outcome(b);
    CReader r;
    CAPI(odc_open_buffer(&r.r, b.data(), b.size()));
    CFrame f;
    CAPI(odc_new_frame(&f.f, r.r));
    CAPI(odc_next_frame(f.f));
    int n = -1;
    CAPI(odc_frame_column_count(f.f, &n));
    if (n != ncols)
        c.fail("columns", mc::fmt("%d columns, expected %d", n, ncols));
    for (int i = 0; i < n; i++) {
        const char* nm = nullptr;
        int ty = -1, sz = -1, nb = -1;
        CAPI(odc_frame_column_attributes(f.f, i, &nm, &ty, &sz, &nb));
        auto& col = t.cols[i];
        if (nm != col.name || ty != col.type || sz != 8 * col.w || nb != int(col.bits.size()))
            c.fail("attributes", mc::fmt("column %d is %s type %d size %d with %d fields", i, nm, ty, sz, nb));
        for (int k = 0; k < nb; k++) {
            int o = -1;
            CAPI(odc_frame_bitfield_attributes(f.f, i, k, &nm, &o, &sz));
            if (nm != col.bits[k].first || sz != col.bits[k].second || o != offsets[i][k])
                c.fail("bits", mc::fmt("column %d field %d is '%s' at %d, %d bits", i, k, nm, o, sz));
        }
        for (int k : {-1, nb, nb + 1})
            if (bad && odc_frame_bitfield_attributes(f.f, i, k, &nm, &sz, &sz) == ODC_SUCCESS)
                c.fail("range", "a field which does not exist has attributes");
    }
    for (int i : {-1, n, n + 1}) {
        if (!bad)
            break;
        const char* nm;
        int x;
        if (odc_frame_column_attributes(f.f, i, &nm, &x, &x, &x) == ODC_SUCCESS || odc_frame_bitfield_attributes(f.f, i, 0, &nm, &x, &x) == ODC_SUCCESS)
            c.fail("range", "a column which does not exist has attributes");
    }
    eckit::MemoryHandle mh(b.data(), b.size());
    mh.openForRead();
    odc::api::Reader rd(mh, false);
    odc::api::Frame fr = rd.next();
    auto& ci           = fr.columnInfo();
    if (int(ci.size()) != ncols || int(fr.columnCount()) != ncols)
        c.fail("columns", "columnInfo has another number of columns");
    for (int i = 0; i < ncols; i++) {
        auto& col = t.cols[i];
        bool same = ci[i].name == col.name && int(ci[i].type) == col.type && int(ci[i].decodedSize) == 8 * col.w && ci[i].bitfield.size() == col.bits.size();
        for (size_t k = 0; same && k < col.bits.size(); k++)
            same = ci[i].bitfield[k].name == col.bits[k].first && int(ci[i].bitfield[k].size) == col.bits[k].second && int(ci[i].bitfield[k].offset) == offsets[i][k];
        if (!same)
            c.fail("attributes", mc::fmt("columnInfo of column %d differs", i));
        if (!fr.hasColumn(col.name))
            c.fail("hasColumn", "hasColumn denies " + col.name);
        auto at = col.name.find('@');
        if (at != std::string::npos && at > 0 && !fr.hasColumn(col.name.substr(0, at)))
            c.fail("hasColumn", "hasColumn denies the bare name of " + col.name);
    }
    if (fr.hasColumn("nosuchcolumn") || fr.hasColumn("nosuchcolumn@t"))
        c.fail("hasColumn", "hasColumn confirms a column which does not exist");
}

// accesses -----------------------------------------------------------------------------------------------------------

// streams of frames with different properties
const std::vector<Props>& frameProps() {
    static const std::vector<Props> p = {{{"k", "first"}, {"only1", ""}}, {{"k", "second"}, {"x", "y"}, {"z", "1"}}, {}};
    return p;
}
std::string stream(bool compatible) {
    std::string b;
    for (size_t i = 0; i < frameProps().size(); i++) {
        Tab t;
        t.cols  = {{compatible ? "a@t" : mc::fmt("a%zu@t", i), INTEGER}};
        t.rows  = {{rI(i)}};
        t.props = frameProps()[i];
        b += encodeC(t);
    }
    return b;
}

// merged properties of frames from..to-1
Props merged(size_t from, size_t to) {
    Props p;
    for (size_t i = from; i < to; i++)
        p.insert(frameProps()[i].begin(), frameProps()[i].end());
    p["encoder"] = encoderEntry();
    return p;
}

struct Handle {
    odc_frame_t* f = nullptr;
    bool valid     = false;
    Props want;
    ~Handle() {
        if (f)
            odc_free_frame(f);
    }
};

void accesses(mc::Ctx& c) {
    int mode = c.choose(3);  // 0 frame by frame, 1 aggregated all, 2 aggregated up to two rows
    bool compatible = mode > 0;
    std::string b   = stream(compatible);
    CReader r;
    CAPI(odc_open_buffer(&r.r, b.data(), b.size()));
    Handle h[3];
    CAPI(odc_new_frame(&h[0].f, r.r));
    size_t next = 0;
    bool ended  = false;
    std::string trace;
    int depth = c.thorough ? 7 : 6;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(7);
        if (d == 2)
            c.shard();
        if (op == 0)
            break;
        if (op == 1) {  // next
            int rc = mode == 0 ? odc_next_frame(h[0].f) : odc_next_frame_aggregated(h[0].f, mode == 1 ? -1 : 2);
            trace += "next ";
            c.note(trace);
            size_t step = mode == 0 ? 1 : mode == 1 ? 3 : 2;
            if (next >= 3) {
                if (rc != ODC_ITERATION_COMPLETE)
                    c.fail("end", trace + mc::fmt(": returned %d at the end", rc));
                h[0].valid = false;
                ended      = true;
            }
            else {
                if (rc != ODC_SUCCESS)
                    c.fail("next", trace + ": " + odc_error_string(rc));
                size_t to  = std::min<size_t>(3, next + step);
                h[0].valid = true;
                h[0].want  = merged(next, to);
                next       = to;
            }
            continue;
        }
        if (op == 2) {  // copy the frame to a free slot
            int slot = h[1].f ? 2 : 1;
            if (!h[0].valid || h[slot].f)
                c.skip();
            trace += mc::fmt("copy%d ", slot);
            c.note(trace);
            CAPI(odc_copy_frame(h[0].f, &h[slot].f));
            h[slot].valid = true;
            h[slot].want  = h[0].want;
            continue;
        }
        if (op == 3) {  // the original goes away first
            if (!h[1].f)
                c.skip();
            trace += "free ";
            c.note(trace);
            CAPI(odc_free_frame(h[0].f));
            h[0].f     = h[1].f;
            h[0].valid = h[1].valid;
            h[0].want  = h[1].want;
            h[1].f     = nullptr;
            continue;
        }
        // look at the properties through one of the handles: all, one by index, one by key
        int slot = c.choose(3);
        if (!h[slot].f)
            c.skip();
        trace += mc::fmt("%s%d ", op == 4 ? "all" : op == 5 ? "index" : "key", slot);
        c.note(trace);
        if (!h[slot].valid) {
            const char *k = nullptr, *v = nullptr;
            int n = 0;
            if (op == 4 ? odc_frame_properties_count(h[slot].f, &n) == ODC_SUCCESS && n > 0 : op == 5 ? odc_frame_property_idx(h[slot].f, 0, &k, &v) == ODC_SUCCESS : odc_frame_property(h[slot].f, "k", &v) == ODC_SUCCESS && v)
                c.fail("no-frame", trace + ": properties without a frame");
            continue;
        }
        if (op == 4)
            checkProps(c, h[slot].f, h[slot].want, {0});
        else if (op == 5) {
            const char *k = nullptr, *v = nullptr;
            int last = h[slot].want.size() - 1;
            CAPI(odc_frame_property_idx(h[slot].f, last, &k, &v));
            if (!h[slot].want.count(k) || h[slot].want[k] != v)
                c.fail("index", trace + mc::fmt(": property %d is %s=%s", last, k, v));
        }
        else {
            const char* v = nullptr;
            CAPI(odc_frame_property(h[slot].f, "k", &v));
            if (h[slot].want.count("k") ? !v || v != h[slot].want["k"] : v != nullptr)
                c.fail("key", trace + mc::fmt(": property k is %s", v ? v : "(null)"));
        }
        c.nontrivial();
        c.transition();
    }
    c.outcome(trace);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"properties", "every set of 0-3 of 8 keys (empty, binary, 300 bytes, the library's own) x 5 values (empty, binary, 70000 bytes) x one or three frames x C/C++ x aggregated or not; by index, by key, absent keys, indices out of range, C++", properties},
        {"embedded", "keys and values with NUL bytes, C++", embedded},
        {"columns", "1-2 (thorough 3) columns x names x types x widths x 0-3 bitfields x sizes, C/C++; every attribute through C and C++, indices out of range (for one name), hasColumn", columns},
        {"access", "every sequence of 6 (7) of: next frame, copy, free the original, all properties, one by index, one by key on the frame and its copies, over three frames with different properties, read one by one, aggregated, and aggregated in twos", accesses},
    };
}
