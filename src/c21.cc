// C21: a reused encoder or decoder behaves like a fresh one.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "h.h"
#include "sources.h"

using namespace H;

namespace {

//----------------------------------------------------------------------------------------------------------------------
// the frames: names shared, numbers of rows, widths, types, orders and sets of columns different

std::vector<Tab> tables() {
    std::vector<Tab> t(6);
    t[0].cols = {{"i", INTEGER}, {"s", STRING, 2}, {"r", REAL}};
    t[0].rows = {{rI(1), rS("a-long-string", 2), rD(1.5)}, {rI(-2), rS("b", 2), rD(RMDI)}, {rI(300), rS("sixteen-charact3", 2), rD(-0.25)}};
    t[1].cols = {{"i", INTEGER}, {"s", STRING, 1}, {"r", REAL}};
    t[1].rows = {{rI(70000), rS("short"), rD(3)}, {rI(IMDI), rS("eightchr"), rD(4)}};
    t[2].cols = {{"i", INTEGER}, {"s", STRING, 3}, {"r", DOUBLE}};
    for (int k = 0; k < 5; k++)
        t[2].rows.push_back({rI(1000 + k), rS(mc::fmt("twenty-four-characters-%d", k), 3), rD(0.1 * k)});
    t[3].cols = {{"r", REAL}, {"x", INTEGER}, {"i", INTEGER}};
    t[3].rows = {{rD(8), rI(5), rI(6)}, {rD(9), rI(5), rI(7)}};
    t[4].cols = {{"s", STRING, 2}, {"r", INTEGER}, {"i", REAL}};
    t[4].rows = {{rS("constant-string!", 2), rI(11), rD(0.5)}};
    return t;
}

const int NFRAMES = 6;  // five stored frames, and an aggregated one (0 and 0' of two and three rows)

Tab aggregatedTab(int part) {
    Tab t = tables()[0];
    if (part == 1)
        t.rows = {{rI(7), rS("second-frame", 2), rD(RMDI)}, {rI(8), rS("", 2), rD(1e10)}};
    return t;
}

struct World {
    std::vector<std::string> bytes;
    std::vector<Tab> truth;
    World() {
        truth = tables();
        for (int k = 0; k < 5; k++)
            bytes.push_back(encodeC(truth[k], ROWMAJOR));
        bytes.push_back(encodeC(aggregatedTab(0), ROWMAJOR) + encodeC(aggregatedTab(1), ROWMAJOR));
        truth[5] = aggregatedTab(0);
        for (auto& r : aggregatedTab(1).rows)
            truth[5].rows.push_back(r);
    }
};
const World& world() {
    static World w;
    return w;
}

struct Held {
    CReader r;
    CFrame f;
    explicit Held(int k) {
        auto& b = world().bytes[k];
        CAPI(odc_open_buffer(&r.r, b.data(), b.size()));
        CAPI(odc_new_frame(&f.f, r.r));
        CAPI(odc_next_frame_aggregated(f.f, -1));
    }
};

//----------------------------------------------------------------------------------------------------------------------
// decoders

// The configuration of a decoder: what a fresh decoder would be told
struct Config {
    struct Column {
        std::string name;
        int elem = 0, stride = 0, block = -1;  // block: memory of the caller for this column
    };
    std::vector<Column> cols;
    long rows = 0;
    int ext   = -1;
    long extWidth = 0, extHeight = 0;
    bool cm = false;
};

const size_t BLOCK = 400;
const int NBLOCKS  = 5;  // two arrays, three columns

struct Memory {
    std::vector<std::unique_ptr<char[]>> b;
    Memory() {
        for (int i = 0; i < NBLOCKS; i++) {
            b.emplace_back(new char[BLOCK]);
            memset(b[i].get(), 0x40 + i, BLOCK);
        }
    }
    Memory(const Memory& o) {
        for (int i = 0; i < NBLOCKS; i++) {
            b.emplace_back(new char[BLOCK]);
            memcpy(b[i].get(), o.b[i].get(), BLOCK);
        }
    }
    std::string difference(const Memory& o) const {
        for (int i = 0; i < NBLOCKS; i++)
            for (size_t k = 0; k < BLOCK; k++)
                if (b[i][k] != o.b[i][k])
                    return mc::fmt("byte %zu of caller memory %d is %02x, %02x expected", k, i, (unsigned char)b[i][k], (unsigned char)o.b[i][k]);
        return "";
    }
    int holds(const void* p, long& off) const {
        for (int i = 0; i < NBLOCKS; i++)
            if ((const char*)p >= b[i].get() && (const char*)p < b[i].get() + BLOCK) {
                off = (const char*)p - b[i].get();
                return i;
            }
        return -1;
    }
};

void configure(odc_decoder_t* d, const Config& g, Memory& m) {
    for (size_t k = 0; k < g.cols.size(); k++) {
        auto& col = g.cols[k];
        CAPI(odc_decoder_add_column(d, col.name.c_str()));
        if (col.block >= 0)
            CAPI(odc_decoder_column_set_data_array(d, k, col.elem, col.stride, m.b[col.block].get()));
        else if (col.elem)
            CAPI(odc_decoder_column_set_data_size(d, k, col.elem));
    }
    if (g.ext >= 0)
        CAPI(odc_decoder_set_data_array(d, m.b[g.ext].get(), g.extWidth, g.extHeight, g.cm));
    CAPI(odc_decoder_set_column_major(d, g.cm));
    CAPI(odc_decoder_set_row_count(d, g.rows));
}

// what the caller sees of a decoding: where everything lies, and the values of all the rows
struct Seen {
    bool accepted = false;
    std::string error;
    long rows = -1, allocated = -1;
    std::string layout;
    std::vector<Row> cells;  // in column order
};

bool anyLibrary(const Config& g) {
    for (auto& col : g.cols)
        if (col.block < 0)
            return true;
    return false;
}

Seen decode(odc_decoder_t* d, const Config& g, odc_frame_t* f, int nthreads, const Memory& m, const Config* describe = nullptr) {
    Seen s;
    long got = -1;
    if (odc_decode_threaded(d, f, &got, nthreads) != ODC_SUCCESS) {
        s.error = odc_error_string(ODC_ERROR_GENERAL_EXCEPTION);
        return s;
    }
    s.accepted = true;
    s.rows     = got;
    CAPI(odc_decoder_row_count(d, &s.allocated));
    const void* base = nullptr;
    long w = -1, h = -1;
    bool cm = false;
    if (anyLibrary(g)) {
        CAPI(odc_decoder_data_array(d, &base, &w, &h, &cm));
        long off  = -1;
        int owner = m.holds(base, off);
        s.layout += mc::fmt("array %ld x %ld %s in %d+%ld;", w, h, cm ? "column" : "row", owner, off);
    }
    int n;
    CAPI(odc_decoder_column_count(d, &n));
    for (int k = 0; k < n; k++) {
        int es, st;
        const void* p;
        CAPI(odc_decoder_column_data_array(d, k, &es, &st, &p));
        long off  = -1;
        int owner = m.holds(p, off);
        if (owner < 0)
            off = (const char*)p - (const char*)base;
        s.layout += mc::fmt(" size %d stride %d in %d+%ld", es, st, owner, off);
        bool scattered = g.cols[k].block < 0 && cm && es > 8;
        Row v;
        for (long r = 0; r < got; r++) {
            Raw x;
            if (scattered)
                for (int q = 0; q < es / 8; q++)
                    x += Raw((const char*)p + 8 * (r + q * h), 8);
            else
                x = Raw((const char*)p + st * r, es);
            v.push_back(x);
        }
        s.cells.push_back(v);
    }
    return s;
}

struct Op {
    std::string name;
    std::function<void(odc_decoder_t*, Config&, Memory&)> f;
};

std::vector<Op> decoderOps() {
    std::vector<Op> v;
    for (long n : {0L, 3L, 6L})
        v.push_back({mc::fmt("set_row_count(%ld)", n), [n](odc_decoder_t* d, Config& g, Memory&) {
                         CAPI(odc_decoder_set_row_count(d, n));
                         g.rows = n;
                     }});
    for (bool cm : {false, true})
        v.push_back({mc::fmt("set_column_major(%d)", cm), [cm](odc_decoder_t* d, Config& g, Memory&) {
                         CAPI(odc_decoder_set_column_major(d, cm));
                         g.cm = cm;
                     }});
    struct A {
        int block;
        long w, h;
        bool cm;
    };
    for (A a : {A{0, 32, 3, false}, A{1, 40, 6, true}, A{0, 48, 5, false}})
        v.push_back({mc::fmt("set_data_array(%d, %ld, %ld, %d)", a.block, a.w, a.h, a.cm), [a](odc_decoder_t* d, Config& g, Memory& m) {
                         CAPI(odc_decoder_set_data_array(d, m.b[a.block].get(), a.w, a.h, a.cm));
                         g.ext       = a.block;
                         g.extWidth  = a.w;
                         g.extHeight = a.h;
                         g.cm        = a.cm;
                         g.rows      = a.h;
                     }});
    struct B {
        int col, elem, stride, block;
    };
    for (B b : {B{0, 8, 8, 2}, B{0, 0, 0, 3}, B{0, 16, 24, 2}, B{1, 16, 16, 3}, B{1, 24, 0, 4}, B{1, 0, 0, -1}, B{0, 0, 0, -1}})
        v.push_back({mc::fmt("column_set_data_array(%d, %d, %d, %d)", b.col, b.elem, b.stride, b.block), [b](odc_decoder_t* d, Config& g, Memory& m) {
                         if (size_t(b.col) >= g.cols.size())
                             return;
                         CAPI(odc_decoder_column_set_data_array(d, b.col, b.elem, b.stride, b.block < 0 ? nullptr : m.b[b.block].get()));
                         g.cols[b.col].elem   = b.elem;
                         g.cols[b.col].stride = b.block < 0 ? 0 : b.stride;
                         g.cols[b.col].block  = b.block;
                     }});
    struct Z {
        int col, elem;
    };
    for (Z z : {Z{0, 16}, Z{0, 0}, Z{1, 8}, Z{1, 24}})
        v.push_back({mc::fmt("column_set_data_size(%d, %d)", z.col, z.elem), [z](odc_decoder_t* d, Config& g, Memory&) {
                         if (size_t(z.col) >= g.cols.size())
                             return;
                         CAPI(odc_decoder_column_set_data_size(d, z.col, z.elem));
                         g.cols[z.col].elem = z.elem;
                     }});
    v.push_back({"add_column(x)", [](odc_decoder_t* d, Config& g, Memory&) {
                     CAPI(odc_decoder_add_column(d, "x"));
                     Config::Column col;
                     col.name = "x";
                     g.cols.push_back(col);
                 }});
    return v;
}

// What the use of a decoder settles of what its configuration left open
void settle(mc::Ctx& c, odc_decoder_t* d, Config& g, const Tab& frame, bool succeeded, const std::string& hist) {
    long rows;
    CAPI(odc_decoder_row_count(d, &rows));
    if (g.rows == 0) {
        c.check(rows == long(frame.rows.size()) || (!succeeded && rows == 0), "row count settled wrongly", hist + mc::fmt(": %ld rows", rows));
        g.rows = rows;
    }
    c.check(rows == g.rows, "row count changed", hist + mc::fmt(": %ld rows, not %ld", rows, g.rows));
    for (size_t k = 0; k < g.cols.size(); k++) {
        auto& col = g.cols[k];
        int es, st;
        CAPI(odc_decoder_column_data_array(d, k, &es, &st, nullptr));
        if (col.elem == 0) {
            int expect = 8;
            if (col.block < 0)
                for (auto& fc : frame.cols)
                    if (fc.name == col.name)
                        expect = 8 * fc.w;
            c.check(es == expect || (!succeeded && es == 0), "size settled wrongly", hist + mc::fmt(": column %zu has size %d, not %d", k, es, expect));
            col.elem = es;
        }
        c.check(es == col.elem, "size changed", hist + mc::fmt(": column %zu has size %d, not %d", k, es, col.elem));
        if (col.block >= 0) {
            if (col.stride == 0) {
                c.check(st == col.elem || (!succeeded && st == 0), "stride settled wrongly", hist + mc::fmt(": column %zu has stride %d, not %d", k, st, col.elem));
                col.stride = st;
            }
            c.check(st == col.stride, "stride changed", hist + mc::fmt(": column %zu has stride %d, not %d", k, st, col.stride));
        }
    }
}

void decoderHistories(mc::Ctx& c) {
    static const std::vector<Op> ops = decoderOps();
    static const std::vector<std::vector<std::string>> starts = {{"i", "s"}, {"s"}, {"r", "s", "i"}, {"i"}, {"x", "i"}};
    static std::vector<std::unique_ptr<Held>> frames;
    if (frames.empty())
        for (int k = 0; k < NFRAMES; k++)
            frames.emplace_back(new Held(k));
    Config g;
    size_t start = c.choose(c.thorough ? starts.size() : 3);
    int depth    = c.thorough && start == 0 ? 4 : 3;
    for (auto& n : starts[start]) {
        Config::Column col;
        col.name = n;
        g.cols.push_back(col);
    }
    std::string hist = mc::fmt("columns");
    for (auto& col : g.cols)
        hist += " " + col.name;
    Memory mine;
    CDecoder d;
    for (auto& col : g.cols)
        CAPI(odc_decoder_add_column(d.d, col.name.c_str()));
    int nthreads = 1;
    int uses     = 0;
    for (int step = 0; step <= depth; step++) {
        size_t op = step == depth ? ops.size() + c.choose(NFRAMES) : c.choose(ops.size() + NFRAMES);
        if (step == 1)
            c.shard();
        if (op < ops.size()) {
            hist += "; " + ops[op].name;
            ops[op].f(d.d, g, mine);
            continue;
        }
        // a use of the decoder, and of a fresh one with the same configuration
        int k = op - ops.size();
        hist += mc::fmt("; decode(frame %d)", k);
        if (k == 5)
            nthreads = 2;
        const Tab& truth = world().truth[k];
        // columns of the caller which overlap themselves or each other: the caller's mistake
        for (auto& col : g.cols)
            if (col.block >= 0 && col.stride && col.stride < (col.elem ? col.elem : 8))
                c.skip();
        for (size_t q = 0; q < g.cols.size(); q++)
            for (size_t z = 0; z < q; z++)
                if (g.cols[q].block >= 0 && g.cols[q].block == g.cols[z].block)
                    c.skip();
        Memory theirs(mine), before(mine);
        CDecoder fresh;
        configure(fresh.d, g, theirs);
        Seen want = decode(fresh.d, g, frames[k]->f.f, nthreads, theirs);
        Seen got  = decode(d.d, g, frames[k]->f.f, nthreads, mine);
        uses++;
        c.transition();
        c.outcome(mc::fmt("use %d: %s", std::min(uses, 3), want.accepted ? "accepted" : "refused"));
        if (want.accepted && !got.accepted)
            c.fail("refused when reused", hist + ": " + got.error);
        if (!want.accepted && got.accepted)
            c.fail("accepted only when reused", hist + ": " + want.error);
        std::string diff = mine.difference(want.accepted ? theirs : before);
        if (!diff.empty())
            c.fail(want.accepted ? "caller memory" : "caller memory changed by a refused use", hist + ": " + diff);
        settle(c, d.d, g, truth, got.accepted, hist);
        if (!got.accepted)
            continue;
        if (uses > 1)
            c.nontrivial();
        c.check(got.rows == want.rows && got.allocated == want.allocated, "rows", hist + mc::fmt(": %ld of %ld rows, %ld of %ld expected", got.rows, got.allocated, want.rows, want.allocated));
        c.check(got.layout == want.layout, "layout", hist + ": " + got.layout + ", expected " + want.layout);
        c.check(got.rows == long(truth.rows.size()), "row count", hist);
        for (size_t q = 0; q < g.cols.size(); q++) {
            size_t fc = 0;
            while (truth.cols[fc].name != g.cols[q].name)
                fc++;
            for (size_t r = 0; r < truth.rows.size(); r++) {
                Raw expect = truth.rows[r][fc];
                // an aggregated or narrower column: padded
                Raw have = got.cells[q][r];
                if (truth.cols[fc].type == STRING) {
                    if (asS(have) != asS(expect))
                        c.fail("value", hist + mc::fmt(": column %zu row %zu is ", q, r) + show(have, STRING) + ", expected " + show(expect, STRING));
                }
                else if (have.substr(0, 8) != expect)
                    c.fail("value", hist + mc::fmt(": column %zu row %zu is ", q, r) + show(have, truth.cols[fc].type) + ", expected " + show(expect, truth.cols[fc].type));
                if (have.substr(0, std::min(have.size(), want.cells[q][r].size())) != want.cells[q][r].substr(0, have.size()))
                    c.fail("bytes", hist + mc::fmt(": column %zu row %zu is ", q, r) + show(have, STRING) + ", fresh " + show(want.cells[q][r], STRING));
            }
        }
    }
}

//----------------------------------------------------------------------------------------------------------------------
// one decoder of the C++ interface, or slices of it, for a series of frames

void cppSeries(mc::Ctx& c) {
    using namespace odc::api;
    int len = c.thorough ? 5 : 4;
    static const std::vector<std::vector<std::string>> sel = {{"i", "s"}, {"s", "r", "i"}, {"r", "i"}, {"i"}};
    auto names   = c.pick(sel);
    int width    = c.pick(std::vector<int>{1, 2, 3});
    bool slices  = c.flip();
    bool spaced  = c.flip();
    int nthreads = 1 + c.choose(2);
    c.shard();
    size_t cap = slices ? 5 * len : 6;
    std::vector<std::unique_ptr<char[]>> mem;
    std::vector<std::string> model;
    std::vector<StridedData> sd;
    std::vector<size_t> es, st;
    for (auto& n : names) {
        es.push_back(n == "s" ? 8 * width : 8);
        st.push_back(es.back() + (spaced ? 8 : 0));
        size_t bytes = st.back() * (cap - 1) + es.back();
        mem.emplace_back(new char[bytes]);
        memset(mem.back().get(), 0x7e, bytes);
        model.emplace_back(bytes, 0x7e);
        sd.emplace_back(mem.back().get(), cap, es.back(), st.back());
    }
    Decoder whole(names, sd);
    std::string hist = "columns";
    for (auto& n : names)
        hist += " " + n;
    hist += mc::fmt(" width %d%s%s threads %d;", width, slices ? " slices" : "", spaced ? " spaced" : "", nthreads);
    size_t at = 0;
    for (int step = 0; step < len; step++) {
        int k = c.choose(NFRAMES);
        hist += mc::fmt(" %d", k);
        const Tab& t = world().truth[k];
        auto& b      = world().bytes[k];
        eckit::MemoryHandle dh(b.data(), b.size());
        dh.openForRead();
        Reader reader(dh, true, -1);
        odc::api::Frame f = reader.next();
        size_t off        = slices ? at : 0;
        bool fits = true;
        std::vector<int> idx;
        for (size_t q = 0; q < names.size(); q++) {
            int found = -1;
            for (size_t z = 0; z < t.cols.size(); z++)
                if (t.cols[z].name == names[q])
                    found = z;
            idx.push_back(found);
            fits = fits && found >= 0 && size_t(8 * t.cols[found].w) <= es[q];
        }
        std::string err = thrown([&] {
            if (slices) {
                Decoder part = whole.slice(off, t.rows.size());
                part.decode(f, nthreads);
            }
            else
                whole.decode(f, nthreads);
        });
        c.transition();
        c.outcome(err.empty() ? "accepted" : "refused");
        if (fits) {
            c.check(err.empty(), "refused", hist + ": " + err);
            for (size_t q = 0; q < names.size(); q++)
                for (size_t r = 0; r < t.rows.size(); r++) {
                    Raw v = t.rows[r][idx[q]];
                    v.resize(es[q], '\0');
                    memcpy(&model[q][st[q] * (off + r)], v.data(), es[q]);
                }
            at += t.rows.size();
            if (step)
                c.nontrivial();
        }
        else
            c.check(!err.empty(), "accepted", hist);
        for (size_t q = 0; q < names.size(); q++)
            for (size_t z = 0; z < model[q].size(); z++)
                if (mem[q][z] != model[q][z])
                    c.fail(fits ? "memory" : "memory changed by a refused use", hist + mc::fmt(": column %zu, byte %zu is %02x, expected %02x", q, z, (unsigned char)mem[q][z], (unsigned char)model[q][z]));
    }
}

//----------------------------------------------------------------------------------------------------------------------
// encoders

struct EncConfig {
    struct Column {
        std::string name;
        int type;
        int size = 0, stride = 0, source = -1;
        std::vector<std::pair<std::string, int>> bits;
    };
    std::vector<Column> cols;
    int array = -1;
    long rows = 0;
    bool fromArray = false;
    long perFrame  = 10000;
    Props props;
};

// Arrays of the caller: i, s, d in this order
struct Array {
    Tab t;
    Layout layout;
    Image im;
    Array(const Tab& t, Layout l) : t(t), layout(l), im(image(t, l)) {}
};

const std::vector<Array>& arrays() {
    static std::vector<Array> v;
    if (v.empty()) {
        for (int k = 0; k < 4; k++) {
            Tab t;
            t.cols = {{"i", INTEGER}, {"s", STRING, k == 1 ? 2 : 1}, {"d", DOUBLE}};
            int n  = k == 0 ? 3 : k == 1 ? 5 : k == 2 ? 2 : 4;
            for (int r = 0; r < n; r++)
                t.rows.push_back({rI(100 * k + r), rS(mc::fmt("t%dr%d", k, r), t.cols[1].w), rD(k + 0.5 * r)});
            v.emplace_back(t, k == 3 ? COLMAJOR : ROWMAJOR);
        }
    }
    return v;
}

// Columns of the caller: dense or spaced, three rows each
const int NSOURCES = 4;
struct Sources {
    std::vector<Raw> values[NSOURCES];
    int size[NSOURCES]   = {8, 8, 16, 8};
    int stride[NSOURCES] = {0, 16, 0, 24};
    std::vector<char> mem[NSOURCES];
    Sources() {
        for (int k = 0; k < NSOURCES; k++) {
            int st = stride[k] ? stride[k] : size[k];
            mem[k].assign(st * 3 + 16, 0x11);
            for (int r = 0; r < 3; r++) {
                Raw v = k == 2 ? rS(mc::fmt("source%d-row%d-wide", k, r), 2) : k == 0 ? rI(-5 - r) : rI(40 + r);
                v.resize(size[k]);
                values[k].push_back(v);
                memcpy(&mem[k][st * r], v.data(), size[k]);
            }
        }
    }
};
const Sources& sources() {
    static Sources s;
    return s;
}

struct EncOp {
    std::string name;
    std::function<void(odc_encoder_t*, EncConfig&)> f;
};

void setArray(odc_encoder_t* e, int k) {
    if (k < 0)
        CAPI(odc_encoder_set_data_array(e, nullptr, 0, 0, 0));
    else
        CAPI(odc_encoder_set_data_array(e, arrays()[k].im.array.get(), arrays()[k].im.width, arrays()[k].im.height, arrays()[k].layout == COLMAJOR ? 8 : 0));
}

std::vector<EncOp> encoderOps() {
    std::vector<EncOp> v;
    for (int k = -1; k < 4; k++)
        v.push_back({mc::fmt("set_data_array(%d)", k), [k](odc_encoder_t* e, EncConfig& g) {
                         setArray(e, k);
                         if (g.array >= 0)
                             for (auto& col : g.cols)
                                 col.source = -1, col.stride = 0;
                         g.array = k;
                         if (g.rows == 0 || g.fromArray) {
                             g.rows      = k < 0 ? 0 : arrays()[k].im.height;
                             g.fromArray = true;
                         }
                     }});
    for (long n : {0L, 2L, 3L})
        v.push_back({mc::fmt("set_row_count(%ld)", n), [n](odc_encoder_t* e, EncConfig& g) {
                         CAPI(odc_encoder_set_row_count(e, n));
                         g.rows      = n;
                         g.fromArray = false;
                     }});
    for (long n : {1L, 2L, 10000L})
        v.push_back({mc::fmt("set_rows_per_frame(%ld)", n), [n](odc_encoder_t* e, EncConfig& g) {
                         CAPI(odc_encoder_set_rows_per_frame(e, n));
                         g.perFrame = n;
                     }});
    struct S {
        int col, source;
    };
    for (S s : {S{0, 0}, S{1, 1}, S{1, 2}, S{2, 3}, S{0, 3}, S{1, -1}})
        v.push_back({mc::fmt("column_set_data_array(%d, %d)", s.col, s.source), [s](odc_encoder_t* e, EncConfig& g) {
                         if (size_t(s.col) >= g.cols.size())
                             return;
                         auto& src = sources();
                         auto& col = g.cols[s.col];
                         if (s.source < 0)
                             CAPI(odc_encoder_column_set_data_array(e, s.col, 8, 0, nullptr));
                         else
                             CAPI(odc_encoder_column_set_data_array(e, s.col, src.size[s.source], src.stride[s.source], src.mem[s.source].data()));
                         col.size   = s.source < 0 ? 8 : src.size[s.source];
                         col.stride = s.source < 0 ? 0 : src.stride[s.source];
                         col.source = s.source;
                     }});
    for (int n : {8, 16})
        v.push_back({mc::fmt("column_set_data_size(1, %d)", n), [n](odc_encoder_t* e, EncConfig& g) {
                         CAPI(odc_encoder_column_set_data_size(e, 1, n));
                         g.cols[1].size = n;
                     }});
    for (const char* p : {"one", "two"})
        v.push_back({mc::fmt("add_property(key, %s)", p), [p](odc_encoder_t* e, EncConfig& g) {
                         CAPI(odc_encoder_add_property(e, "key", p));
                         g.props["key"] = p;
                     }});
    v.push_back({"add_column(d)", [](odc_encoder_t* e, EncConfig& g) {
                     CAPI(odc_encoder_add_column(e, "d", DOUBLE));
                     EncConfig::Column col;
                     col.name = g.cols.size() == 2 ? "d" : "d";
                     col.type = DOUBLE;
                     g.cols.push_back(col);
                 }});
    return v;
}

struct Encoded {
    bool accepted = false;
    std::string bytes, error;
};

long toString(void* h, const void* p, long n) {
    ((std::string*)h)->append((const char*)p, n);
    return n;
}
long fails(void*, const void*, long) { return -1; }

// ways: into a buffer, a stream, a file; into a buffer which is too small, a stream which fails
Encoded encode(odc_encoder_t* e, int way) {
    Encoded r;
    long n = -1;
    int rc;
    if (way == 0 || way == 3) {
        std::vector<char> b(way == 0 ? 20000 : 100);
        rc = odc_encode_to_buffer(e, b.data(), b.size(), &n);
        if (rc == ODC_SUCCESS)
            r.bytes.assign(b.data(), n);
    }
    else if (way == 1 || way == 4)
        rc = odc_encode_to_stream(e, &r.bytes, way == 1 ? toString : fails, &n);
    else {
        std::string p = mc::scratchDir() + "/out.odb";
        int fd        = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        rc            = odc_encode_to_file_descriptor(e, fd, &n);
        close(fd);
        if (rc == ODC_SUCCESS)
            r.bytes = readFile(p);
    }
    r.accepted = rc == ODC_SUCCESS;
    if (!r.accepted)
        r.error = odc_error_string(rc);
    return r;
}

void configure(odc_encoder_t* e, const EncConfig& g) {
    auto& src = sources();
    for (auto& p : g.props)
        CAPI(odc_encoder_add_property(e, p.first.c_str(), p.second.c_str()));
    for (size_t k = 0; k < g.cols.size(); k++) {
        auto& col = g.cols[k];
        CAPI(odc_encoder_add_column(e, col.name.c_str(), col.type));
        if (col.source >= 0)
            CAPI(odc_encoder_column_set_data_array(e, k, col.size, src.stride[col.source], src.mem[col.source].data()));
        else if (col.size)
            CAPI(odc_encoder_column_set_data_size(e, k, col.size));
        if (col.source >= 0 && col.size != src.size[col.source])
            CAPI(odc_encoder_column_set_data_size(e, k, col.size));
    }
    if (g.array >= 0)
        setArray(e, g.array);
    if (!g.fromArray)
        CAPI(odc_encoder_set_row_count(e, g.rows));
    CAPI(odc_encoder_set_rows_per_frame(e, g.perFrame));
}

// The table which the configuration describes; false when it describes none
bool described(const EncConfig& g, Tab& t) {
    if (g.rows <= 0 || g.cols.empty())
        return false;
    auto& src = sources();
    for (size_t k = 0; k < g.cols.size(); k++)
        t.cols.push_back({g.cols[k].name, g.cols[k].type, (g.cols[k].size ? g.cols[k].size : 8) / 8});
    t.rows.assign(g.rows, Row());
    t.props  = g.props;
    long off = 0;
    for (auto& col : g.cols) {
        int size = col.size ? col.size : 8;
        if (g.array >= 0) {
            if (col.source >= 0)
                return false;
            auto& a = arrays()[g.array];
            if (g.rows > a.im.height || off + size > a.im.width)
                return false;
            for (long r = 0; r < g.rows; r++) {
                Raw v;
                for (int q = 0; q < size / 8; q++)
                    v += a.layout == ROWMAJOR ? Raw(a.im.array.get() + a.im.width * r + off + 8 * q, 8) : Raw(a.im.array.get() + (off / 8 + q) * 8 * a.im.height + 8 * r, 8);
                t.rows[r].push_back(v);
            }
        }
        else {
            if (col.source < 0)
                return false;
            int st = src.stride[col.source] ? src.stride[col.source] : size;
            for (long r = 0; r < g.rows; r++)
                t.rows[r].push_back(Raw(&src.mem[col.source][st * r], size));
        }
        off += size;
    }
    return true;
}

void encoderHistories(mc::Ctx& c) {
    static const std::vector<EncOp> ops = encoderOps();
    const int WAYS = 5;
    int depth      = c.thorough ? 4 : 3;
    EncConfig g;
    Encoder e;
    for (auto& col : std::vector<std::pair<std::string, int>>{{"i", INTEGER}, {"s", STRING}}) {
        EncConfig::Column k;
        k.name = col.first;
        k.type = col.second;
        g.cols.push_back(k);
        CAPI(odc_encoder_add_column(e.e, col.first.c_str(), col.second));
    }
    std::string hist;
    int start = c.choose(3);
    std::vector<size_t> prefix;
    if (start == 1)
        prefix = {2};  // an array
    if (start == 2)
        prefix = {7, 11, 12};  // columns, three rows
    for (size_t op : prefix) {
        ops[op].f(e.e, g);
        hist += ops[op].name + "; ";
    }
    int uses = 0;
    for (int step = 0; step <= depth; step++) {
        size_t op;
        if (step == depth)
            op = ops.size();
        else if (step == 0 && start)
            op = ops.size() + c.choose(WAYS);
        else
            op = c.choose(ops.size() + (c.thorough ? WAYS : 2));
        if (!c.thorough && step != 0 && op == ops.size() + 1)
            op = ops.size() + 3;
        if (step == 1)
            c.shard();
        if (op < ops.size()) {
            hist += ops[op].name + "; ";
            ops[op].f(e.e, g);
            continue;
        }
        int way = op - ops.size();
        hist += mc::fmt("encode(%d); ", way);
        // rows further than the memory of the caller, and columns twice: not the business of this check
        for (auto& col : g.cols)
            if (col.source >= 0) {
                int st = sources().stride[col.source] ? sources().stride[col.source] : col.size;
                if (g.rows && st * (g.rows - 1) + col.size > long(sources().mem[col.source].size()))
                    c.skip();
            }
        if (g.cols.size() > 3)
            c.skip();
        Encoder fresh;
        configure(fresh.e, g);
        Encoded want = encode(fresh.e, way), got = encode(e.e, way);
        Tab t;
        bool valid = described(g, t);
        uses++;
        c.transition();
        c.outcome(mc::fmt("use %d, way %d: %s", std::min(uses, 3), way, want.accepted ? "accepted" : "refused"));
        c.check(want.accepted == (valid && way < 3), want.accepted ? "fresh encoder accepts" : "fresh encoder refuses", hist + want.error);
        c.check(got.accepted == want.accepted, got.accepted ? "accepted only when reused" : "refused when reused", hist + got.error + want.error);
        for (auto& col : g.cols)
            if (col.size == 0 && got.accepted)
                col.size = 8;
        if (!got.accepted)
            continue;
        if (uses > 1)
            c.nontrivial();
        c.check(got.bytes == want.bytes, "bytes", hist + mc::fmt(": %zu bytes, %zu expected", got.bytes.size(), want.bytes.size()));
        auto frames = readAllC(got.bytes);
        size_t at   = 0;
        for (auto& f : frames) {
            c.check(f.rows.size() == std::min<size_t>(g.perFrame, t.rows.size() - at), "rows per frame", hist);
            for (auto& p : t.props)
                c.check(f.props.count(p.first) && f.props.at(p.first) == p.second, "properties", hist);
            c.check(f.cols.size() == t.cols.size(), "columns", hist);
            for (auto& row : f.rows) {
                for (size_t k = 0; k < t.cols.size(); k++) {
                    bool same = t.cols[k].type == STRING ? asS(row[k]) == asS(t.rows[at][k]) : row[k] == t.rows[at][k].substr(0, 8);
                    if (!same)
                        c.fail("value", hist + mc::fmt(": row %zu column %zu is ", at, k) + show(row[k], t.cols[k].type) + ", expected " + show(t.rows[at][k], t.cols[k].type));
                }
                at++;
            }
        }
        c.check(at == t.rows.size(), "rows", hist);
    }
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"decoder", "every sequence of 3 (thorough, from the first set of columns, 4) of 20 configuring calls and decodings of 6 frames (one aggregated, by two threads) and then a decoding, from 3 (thorough 5) sets of columns; each decoding repeated by a fresh decoder", decoderHistories},
        {"cpp", "every sequence of 4 (thorough 5) of 6 frames into one C++ decoder or consecutive slices of it: column sets, widths, strides, threads", cppSeries},
        {"encoder", "every sequence of 3 (thorough 4) of 22 configuring calls and encodings (5 ways, two of which fail) and then an encoding, from 3 states; each encoding repeated by a fresh encoder and decoded", encoderHistories},
    };
}
