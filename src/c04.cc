// C04: decoding fills exactly the requested cells, in every target layout.
#include "h.h"
using namespace H;

namespace {

struct Src {
    Tab t;
    std::string bytes;
    bool agg;
    std::vector<int> w;  // decoded width in words as reported by the frame
};

Src source(mc::Ctx& c, int maxCols, int nkinds = 4) {
    struct K { int type, w; };
    static const std::vector<K> kinds = {{INTEGER, 1}, {STRING, 2}, {DOUBLE, 1}, {STRING, 3}};
    Src s;
    int nc = 1 + c.choose(maxCols);
    for (int i = 0; i < nc; i++) {
        K k = kinds[c.choose(nkinds)];
        s.t.cols.push_back({mc::fmt("c%d@t", i), k.type, k.w, {}});
    }
    int nr = 1 + c.choose(3), pattern = c.choose(3), rpf = c.choose(3);
    if (rpf >= nr)
        c.skip();
    for (int r = 0; r < nr; r++) {
        Row row;
        for (int i = 0; i < nc; i++) {
            int k = pattern == 0 || (pattern == 2 && i == nc - 1) ? r : 0;
            auto& col = s.t.cols[i];
            if (col.type == INTEGER)
                row.push_back(rI(1000 * k + i));
            else if (col.type == DOUBLE)
                row.push_back(rD(0.1 * k + i));
            else {  // full width in every row, so that the frame's own width is the declared one
                std::string v(8 * col.w, char('a' + i));
                v[0] = 'A' + k;
                v[v.size() - 1] = 'P' + k;
                row.push_back(rS(v, col.w));
            }
        }
        s.t.rows.push_back(row);
    }
    s.agg = rpf > 0;
    std::string err = thrown([&] { s.bytes = encodeC(s.t, ROWMAJOR, rpf); });
    if (!err.empty())
        c.fail("encode-error", err);
    return s;
}

struct Open {
    CReader r;
    CFrame f;
    Open(const Src& s) {
        CAPI(odc_open_buffer(&r.r, s.bytes.data(), s.bytes.size()));
        CAPI(odc_new_frame(&f.f, r.r));
        CAPI(s.agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f));
    }
};

// memory with canaries around it
struct Mem {
    std::vector<char> m;
    size_t n;
    unsigned char fill;
    static const size_t G = 64;
    Mem(size_t n, unsigned char fill) : m(n + 2 * G, char(fill)), n(n), fill(fill) {}
    char* p() { return m.data() + G; }
    // every byte not in `cells` is untouched
    bool untouched(const std::vector<char>& cell, size_t& where) {
        for (size_t i = 0; i < m.size(); i++)
            if ((i < G || i >= G + n || !cell[i - G]) && (unsigned char)(m[i]) != fill) {
                where = i - G;
                return false;
            }
        return true;
    }
};

// compare a cell
void cmp(mc::Ctx& c, const Src& s, int r, int col, const Raw& got, const std::string& how) {
    if (!sameCell(s.t.rows[r][col], got, s.t.cols[col].type))
        c.fail("wrong-cell", mc::fmt("%s: row %d column %d is %s, expected %s", how.c_str(), r, col, show(got, s.t.cols[col].type).c_str(),
                                     show(s.t.rows[r][col], s.t.cols[col].type).c_str()));
}

Raw cellAt(const char* p, int es, long stride, bool cm, long height, int r) {
    if (!cm || es == 8)
        return Raw(p + (cm ? 8 : stride) * r, es);
    Raw x;
    for (int k = 0; k < es / 8; k++)
        x.append(p + 8 * (k * height + r), 8);
    return x;
}

std::vector<int> chooseSizes(mc::Ctx& c, const Src& s, bool& tooSmall) {
    // element size per column in words; 0: not set
    std::vector<int> es;
    tooSmall = false;
    for (auto& col : s.t.cols) {
        int k = c.choose(col.type == STRING ? 4 : 2);
        es.push_back(k == 0 ? 0 : k == 1 ? col.w : k == 2 ? col.w + 1 : col.w - 1);
        tooSmall |= es.back() && es.back() < col.w;
    }
    return es;
}

// library allocated memory
void owned(mc::Ctx& c) {
    Src s = source(c, c.thorough ? 3 : 2);
    c.shard();
    bool cm = c.flip(), tooSmall;
    int slack = c.choose(3);  // 0 default row count, 1 = rows, 2 = rows + 2
    auto es   = chooseSizes(c, s, tooSmall);
    int nth   = s.agg ? 1 + c.choose(2) : 1;
    size_t nc = s.t.cols.size(), nr = s.t.rows.size();
    if (nr > 1)
        c.nontrivial();
    c.note(mc::fmt("library memory, column major %d, row count mode %d, %s%d threads: ", cm, slack, tooSmall ? "too small, " : "", nth) + showTab(s.t));
    Open o(s);
    CDecoder d;
    for (size_t i = 0; i < nc; i++) {
        CAPI(odc_decoder_add_column(d.d, s.t.cols[i].name.c_str()));
        if (es[i])
            CAPI(odc_decoder_column_set_data_size(d.d, i, 8 * es[i]));
    }
    CAPI(odc_decoder_set_column_major(d.d, cm));
    if (slack)
        CAPI(odc_decoder_set_row_count(d.d, nr + (slack == 2 ? 2 : 0)));
    long rows = -1;
    c.at("decode");
    std::string err = thrown([&] { CAPI(odc_decode_threaded(d.d, o.f.f, &rows, nth)); });
    c.outcome(err.empty() ? showTab(s.t) + mc::fmt("%d %d", cm, slack) : err);
    if (tooSmall) {
        c.check(!err.empty(), "too-small-accepted", "a string column decoded into a cell narrower than its values");
        return;
    }
    if (!err.empty())
        c.fail("decode-error", err);
    c.check(rows == long(nr), "row-count", mc::fmt("%ld rows decoded", rows));
    const void* base = nullptr;
    long width = -1, height = -1, nrows = -1;
    bool rcm = !cm;
    CAPI(odc_decoder_data_array(d.d, &base, &width, &height, &rcm));
    CAPI(odc_decoder_row_count(d.d, &nrows));
    long expW = 0, expH = nr + (slack == 2 ? 2 : 0);
    for (size_t i = 0; i < nc; i++)
        expW += 8 * (es[i] ? es[i] : s.t.cols[i].w);
    c.check(width == expW && height == expH && rcm == cm && nrows == expH, "reported-layout",
            mc::fmt("reported width %ld height %ld rows %ld column major %d, expected %ld %ld", width, height, nrows, rcm, expW, expH));
    long off = 0;
    for (size_t i = 0; i < nc; i++) {
        int e, st;
        const void* p;
        CAPI(odc_decoder_column_data_array(d.d, i, &e, &st, &p));
        int ex = 8 * (es[i] ? es[i] : s.t.cols[i].w);
        c.check(e == ex, "reported-layout", mc::fmt("column %zu reported %d wide, expected %d", i, e, ex));
        c.check(p == (const char*)base + (cm ? off * height : off), "reported-layout", mc::fmt("column %zu is not where the array layout has it", i));
        for (size_t r = 0; r < nr; r++)
            cmp(c, s, r, i, cellAt((const char*)p, e, st, cm, height, r), "library memory");
        off += e;
    }
}

// one array supplied by the caller
void array(mc::Ctx& c) {
    Src s = source(c, c.thorough ? 3 : 2);
    c.shard();
    bool cm = c.flip(), tooSmall;
    auto es   = chooseSizes(c, s, tooSmall);
    int hs    = c.choose(4);  // height: rows, rows + 2, rows - 1, or rows + 2 with the row count set to rows afterwards
    int ws    = c.choose(3);  // width: exact, + 8, - 8
    int nth   = s.agg ? 1 + c.choose(2) : 1;
    size_t nc = s.t.cols.size(), nr = s.t.rows.size();
    long height = nr + (hs == 0 ? 0 : hs == 2 ? -1 : 2);
    long width  = 0;
    for (size_t i = 0; i < nc; i++)
        width += 8 * (es[i] ? es[i] : s.t.cols[i].w);
    width += ws == 0 ? 0 : ws == 1 ? 8 : -8;
    if (height <= 0 || width <= 0)
        c.skip();
    tooSmall |= hs == 2 || ws == 2;
    if (nr > 1)
        c.nontrivial();
    c.note(mc::fmt("caller array %ldx%ld, column major %d, height mode %d %s%d threads: ", width, height, cm, hs, tooSmall ? "too small, " : "", nth) + showTab(s.t));
    for (unsigned char fill : {0x00, 0xe7}) {
        Open o(s);
        CDecoder d;
        Mem m(width * height, fill);
        for (size_t i = 0; i < nc; i++) {
            CAPI(odc_decoder_add_column(d.d, s.t.cols[i].name.c_str()));
            if (es[i])
                CAPI(odc_decoder_column_set_data_size(d.d, i, 8 * es[i]));
        }
        CAPI(odc_decoder_set_data_array(d.d, m.p(), width, height, cm));
        if (hs == 3)
            CAPI(odc_decoder_set_row_count(d.d, nr));
        long rows = -1;
        c.at("decode");
        std::string err = thrown([&] { CAPI(odc_decode_threaded(d.d, o.f.f, &rows, nth)); });
        c.outcome(err.empty() ? showTab(s.t) + mc::fmt("%d %d %d", cm, hs, ws) : err);
        std::vector<char> cell(m.n, 0);
        size_t where;
        if (tooSmall) {
            c.check(!err.empty(), "too-small-accepted", "decoding into a target which is too small was not refused");
            std::vector<char> all(m.n, 1);
            if (!m.untouched(all, where))
                c.fail("overrun", mc::fmt("byte %zd outside the array was written", ssize_t(where)));
            continue;
        }
        if (!err.empty())
            c.fail("decode-error", err);
        c.check(rows == long(nr), "row-count", mc::fmt("%ld rows decoded", rows));
        const void* base = nullptr;
        long rw = -1, rh = -1, nrows = -1;
        bool rcm = !cm;
        CAPI(odc_decoder_data_array(d.d, &base, &rw, &rh, &rcm));
        CAPI(odc_decoder_row_count(d.d, &nrows));
        c.check(base == m.p() && rw == width && rh == height && rcm == cm && nrows == (hs == 3 ? long(nr) : height), "reported-layout",
                "the layout reported is not the one supplied");
        long off = 0;
        for (size_t i = 0; i < nc; i++) {
            int e, st;
            const void* p;
            CAPI(odc_decoder_column_data_array(d.d, i, &e, &st, &p));
            int ex = 8 * (es[i] ? es[i] : s.t.cols[i].w);
            char* at = m.p() + (cm ? off * height : off);
            c.check(e == ex && p == at, "reported-layout", mc::fmt("column %zu is reported elsewhere", i));
            for (size_t r = 0; r < nr; r++) {
                cmp(c, s, r, i, cellAt(at, e, width, cm, height, r), "caller array");
                for (int k = 0; k < e / 8; k++) {
                    size_t b = cm ? off * height + 8 * (k * height + r) : off + width * r + 8 * k;
                    memset(&cell[b], 1, 8);
                }
            }
            off += e;
        }
        if (!m.untouched(cell, where))
            c.fail("stray-write", mc::fmt("byte %zd, which belongs to no decoded cell, was written", ssize_t(where)));
    }
}

// separate columns supplied by the caller, or a mixture of these and library memory
void separate(mc::Ctx& c) {
    Src s     = source(c, 2, c.thorough ? 4 : 3);
    size_t nc = s.t.cols.size(), nr = s.t.rows.size();
    c.shard();
    bool tooSmall;
    auto es = chooseSizes(c, s, tooSmall);
    std::vector<int> mode, stride;
    bool anyOwned = false, order = nc > 1 ? c.flip() : false;
    for (size_t i = 0; i < nc; i++) {
        mode.push_back(c.choose(nc > 1 ? 2 : 1));  // 0 caller, 1 library
        int e = es[i] ? es[i] : (mode[i] == 1 ? s.t.cols[i].w : 1);
        int k = mode[i] == 0 ? c.choose(c.thorough ? 4 : 2) : 0;
        if (k == 1 && !c.thorough)
            k = i ? 2 : 3;
        stride.push_back(k == 0 ? 0 : k == 1 ? 8 * e : k == 2 ? 8 * e + 8 : 8 * e + 4);
        if (mode[i] == 0 && es[i] == 0 && s.t.cols[i].w > 1)
            tooSmall = true;  // the default is one word
        anyOwned |= mode[i] == 1;
    }
    int slack = c.choose(c.thorough ? 4 : 3);  // row count: default, exact, + 1, - 1
    if (slack && !c.thorough)
        slack++;
    if (slack == 3 && nr == 1)
        c.skip();
    tooSmall |= slack == 3;
    int nth = s.agg ? 1 + c.choose(2) : 1;
    if (nr > 1)
        c.nontrivial();
    std::string desc;
    for (size_t i = 0; i < nc; i++)
        desc += mc::fmt("[%s size %d stride %d] ", mode[i] ? "library" : "caller", 8 * es[i], stride[i]);
    c.note("separate columns " + desc + mc::fmt("row count mode %d, %s%d threads: ", slack, tooSmall ? "too small, " : "", nth) + showTab(s.t));
    size_t cap = nr + (slack == 2 ? 1 : slack == 3 ? -1 : 0);
    for (unsigned char fill : c.thorough ? std::vector<unsigned char>{0x00, 0xe7} : std::vector<unsigned char>{0xe7}) {
        Open o(s);
        CDecoder d;
        std::vector<std::unique_ptr<Mem>> m(nc);
        std::vector<size_t> idx;
        for (size_t i = 0; i < nc; i++)
            idx.push_back(order ? nc - 1 - i : i);
        for (size_t k = 0; k < nc; k++) {
            size_t i = idx[k];
            CAPI(odc_decoder_add_column(d.d, s.t.cols[i].name.c_str()));
            int e  = es[i] ? 8 * es[i] : 8;
            int st = stride[i] ? stride[i] : e;
            if (mode[i] == 0) {
                m[i].reset(new Mem(st * (cap - 1) + e, fill));
                CAPI(odc_decoder_column_set_data_array(d.d, k, 8 * es[i], stride[i], m[i]->p()));
            }
            else if (es[i])
                CAPI(odc_decoder_column_set_data_size(d.d, k, 8 * es[i]));
        }
        if (slack)
            CAPI(odc_decoder_set_row_count(d.d, cap));
        long rows = -1;
        c.at("decode");
        std::string err = thrown([&] { CAPI(odc_decode_threaded(d.d, o.f.f, &rows, nth)); });
        c.outcome(err.empty() ? showTab(s.t) + desc : err);
        size_t where;
        if (tooSmall) {
            c.check(!err.empty(), "too-small-accepted", "decoding into a target which is too small was not refused");
            for (auto& x : m)
                if (x && !x->untouched(std::vector<char>(x->n, 1), where))
                    c.fail("overrun", mc::fmt("byte %zd outside the column was written", ssize_t(where)));
            continue;
        }
        if (!err.empty())
            c.fail("decode-error", err);
        c.check(rows == long(nr), "row-count", mc::fmt("%ld rows decoded", rows));
        for (size_t k = 0; k < nc; k++) {
            size_t i = idx[k];
            int e, st;
            const void* p;
            CAPI(odc_decoder_column_data_array(d.d, k, &e, &st, &p));
            int ex = 8 * (es[i] ? es[i] : mode[i] == 0 ? 1 : s.t.cols[i].w);
            c.check(e == ex && p, "reported-layout", mc::fmt("column %zu reported %d wide, expected %d", i, e, ex));
            if (mode[i] == 0) {
                int xs = stride[i] ? stride[i] : ex;
                c.check(p == m[i]->p() && st == xs, "reported-layout", mc::fmt("column %zu reported stride %d, expected %d", i, st, xs));
                std::vector<char> cell(m[i]->n, 0);
                for (size_t r = 0; r < nr; r++)
                    memset(&cell[xs * r], 1, ex);
                if (!m[i]->untouched(cell, where))
                    c.fail("stray-write", mc::fmt("byte %zd, which belongs to no decoded cell, was written", ssize_t(where)));
            }
            for (size_t r = 0; r < nr; r++)
                cmp(c, s, r, i, Raw((const char*)p + st * r, e), "separate column");
        }
    }
}

// the C++ decoder
void cpp(mc::Ctx& c) {
    Src s     = source(c, c.thorough ? 3 : 2);
    size_t nc = s.t.cols.size(), nr = s.t.rows.size();
    c.shard();
    bool tooSmall = false;
    std::vector<int> es, stride;
    for (size_t i = 0; i < nc; i++) {
        int k = c.choose(s.t.cols[i].type == STRING ? 3 : 1);
        es.push_back(s.t.cols[i].w + (k == 1 ? 1 : k == 2 ? -1 : 0));
        tooSmall |= k == 2;
        // dense, with a gap of a word, or as in packed structures
        stride.push_back(8 * es[i] + c.pick(std::vector<int>{0, 8, 4}));
    }
    int slack = c.choose(3);
    if (slack == 2 && nr == 1)
        c.skip();
    size_t cap = nr + (slack == 1 ? 1 : slack == 2 ? -1 : 0);
    tooSmall |= slack == 2;
    int nth = s.agg ? 1 + c.choose(2) : 1;
    if (nr > 1)
        c.nontrivial();
    c.note(mc::fmt("C++ decoder, %zu rows, %s%d threads: ", cap, tooSmall ? "too small, " : "", nth) + showTab(s.t));
    for (unsigned char fill : {0x00, 0xe7}) {
        std::vector<std::unique_ptr<Mem>> m;
        std::vector<odc::api::StridedData> sd;
        std::vector<std::string> names;
        for (size_t i = 0; i < nc; i++) {
            m.emplace_back(new Mem(stride[i] * (cap - 1) + 8 * es[i], fill));
            sd.emplace_back(m[i]->p(), cap, size_t(8 * es[i]), size_t(stride[i]));
            names.push_back(s.t.cols[i].name);
        }
        eckit::MemoryHandle mh(s.bytes.data(), s.bytes.size());
        mh.openForRead();
        c.at("decode");
        std::string err = thrown([&] {
            odc::api::Reader rd(mh, s.agg);
            odc::api::Frame f = rd.next();
            odc::api::Decoder d(names, sd);
            d.decode(f, nth);
        });
        mh.close();
        c.outcome(err.empty() ? showTab(s.t) : err);
        size_t where;
        if (tooSmall) {
            c.check(!err.empty(), "too-small-accepted", "decoding into a target which is too small was not refused");
            for (auto& x : m)
                if (!x->untouched(std::vector<char>(x->n, 1), where))
                    c.fail("overrun", mc::fmt("byte %zd outside the column was written", ssize_t(where)));
            continue;
        }
        if (!err.empty())
            c.fail("decode-error", err);
        for (size_t i = 0; i < nc; i++) {
            std::vector<char> cell(m[i]->n, 0);
            for (size_t r = 0; r < nr; r++) {
                memset(&cell[stride[i] * r], 1, 8 * es[i]);
                cmp(c, s, r, i, Raw(m[i]->p() + stride[i] * r, 8 * es[i]), "C++ column");
            }
            if (!m[i]->untouched(cell, where))
                c.fail("stray-write", mc::fmt("byte %zd, which belongs to no decoded cell, was written", ssize_t(where)));
        }
    }
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    std::string src = "tables of <=2 (thorough 3) columns of {INTEGER, STRING 2 words, DOUBLE, STRING 3 words} x <=3 rows x 3 change patterns, in one frame or aggregated from several; ";
    return {
        {"library-memory", src + "row/column major x row count x element sizes (unset, exact, wider, narrower) x threads", owned},
        {"caller-array", src + "row/column major x height (exact, larger, smaller, row count set afterwards) x width (exact, wider, narrower) x element sizes; two fills", array},
        {"caller-columns", src + "each column caller supplied (sizes, strides 0/dense/spaced by a word or by four bytes) or library allocated, row counts, column order; two fills", separate},
        {"cpp", src + "C++ decoder: cell sizes, strides (dense, spaced by a word or by four bytes), capacities", cpp},
    };
}
