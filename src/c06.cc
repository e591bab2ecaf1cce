// C06: frames partition the rows, and aggregation preserves them in order.
#include "h.h"
using namespace H;

namespace {

// splitting into frames
void split(mc::Ctx& c) {
    int n   = 1 + c.choose(c.thorough ? 12 : 8);
    int f   = 1 + c.choose(c.thorough ? 13 : 9);
    int api = c.choose(2), kind = c.choose(3);
    c.shard();
    Tab t;
    t.cols = {{"i", INTEGER}, {"s", STRING, 2}};
    for (int r = 0; r < n; r++)
        t.rows.push_back({rI(kind == 0 ? r : kind == 1 ? 7 : r / 2 * 300), rS("row" + std::to_string(kind == 1 ? 0 : r) + "0123456789", 2)});
    if (n > f)
        c.nontrivial();
    c.note(mc::fmt("%d rows, %d per frame, %s", n, f, api ? "C++" : "C"));
    std::string b;
    std::string err = thrown([&] { b = api ? encodeCpp(t, ROWMAJOR, f) : encodeC(t, ROWMAJOR, f); });
    if (!err.empty())
        c.fail("encode-error", err);
    c.outcome(b);
    if (f == 1) {  // no rows in a frame: refused
        odc_encoder_t* e = nullptr;
        if (odc_new_encoder(&e) != ODC_SUCCESS)
            c.fail("encode-error", "no encoder");
        int zero = odc_encoder_set_rows_per_frame(e, 0), less = odc_encoder_set_rows_per_frame(e, -n);
        odc_free_encoder(e);
        if (zero == ODC_SUCCESS || less == ODC_SUCCESS)
            c.fail("no-rows-per-frame", "frames of no or less rows were accepted");
        if (api && thrown([&] { encodeCpp(t, ROWMAJOR, 0); }).empty())
            c.fail("no-rows-per-frame", "frames of no rows were accepted");
    }
    for (int mode = 0; mode < n + 3; mode++) {  // 0: frame by frame; m: aggregated, limit m-2 (-1: none)
        long limit = mode - 2;
        std::vector<Frame> fs;
        err = thrown([&] { ReadOpt o; o.aggregated = mode > 0; o.maxRows = limit; fs = api ? readAllCpp(b, o) : readAllC(b, o); });
        long rem = n;
        std::vector<long> phys;
        while (rem > 0) {
            phys.push_back(std::min<long>(rem, f));
            rem -= f;
        }
        std::vector<long> exp;
        bool over = false;
        if (mode == 0)
            exp = phys;
        else
            for (long p : phys) {
                if (limit >= 0 && p > limit)
                    over = true;
                if (!exp.empty() && (limit < 0 || exp.back() + p <= limit))
                    exp.back() += p;
                else
                    exp.push_back(p);
            }
        if (over) {
            if (err.empty()) {
                std::string why;
                if (!matches(t, fs, why))
                    c.fail("limit-below-frame", "a limit smaller than a frame was accepted, but " + why);
            }
            continue;
        }
        if (!err.empty())
            c.fail("read-error", err);
        std::string why;
        if (!matches(t, fs, why))
            c.fail("rows", mc::fmt("mode %d: ", mode) + why);
        bool same = fs.size() == exp.size();
        for (size_t k = 0; same && k < exp.size(); k++)
            same = long(fs[k].rows.size()) == exp[k];
        if (!same) {
            std::string g, e;
            for (auto& x : fs)
                g += mc::fmt("%zu ", x.rows.size());
            for (long x : exp)
                e += mc::fmt("%ld ", x);
            c.fail("frame-sizes", mc::fmt("aggregated %d limit %ld: frames of %s rows, expected %s", mode > 0, limit, g.c_str(), e.c_str()));
        }
    }
}

const std::vector<std::vector<Col>>& structures() {
    static std::vector<std::vector<Col>> s = {
        {{"a@t", INTEGER}, {"s@t", STRING, 1}},                       // 0
        {{"s@t", STRING, 1}, {"a@t", INTEGER}},                       // 1 columns reordered: agrees with 0
        {{"a@t", DOUBLE}, {"s@t", STRING, 1}},                        // 2 another type
        {{"a@t", INTEGER}, {"s@t", STRING, 2}},                       // 3 another width
        {{"a@u", INTEGER}, {"s@t", STRING, 1}},                       // 4 another name
        {{"a@t", INTEGER}, {"s@t", STRING, 1}, {"z@t", INTEGER}},     // 5 one more
        {{"a@t", BITFIELD, 1, {{"x", 3}}}, {"s@t", STRING, 1}},       // 6 bitfield
        {{"a@t", BITFIELD, 1, {{"y", 5}}}, {"s@t", STRING, 1}},       // 7 same type, other bit names: agrees with 6
        {{"a@t", INTEGER}},                                           // 8 fewer
    };
    return s;
}
bool agree(int x, int y) {
    if (x == y)
        return true;
    return (x < 2 && y < 2) || (x >= 6 && x <= 7 && y >= 6 && y <= 7);
}

void sequences(mc::Ctx& c) {
    int nf = 2 + c.choose(c.thorough ? 3 : 2);
    std::vector<int> st, nr;
    std::vector<Tab> parts;
    std::string bytes, desc;
    int v = 0;
    // all sequences over pairs of structures and row counts 1, 2 (and 0, which only the C++ interface can write)
    int s0 = c.choose(structures().size()), s1 = c.choose(structures().size());
    c.shard();
    bool both = false;
    for (int i = 0; i < nf; i++) {
        int s = i == 0 ? s0 : c.flip() ? s1 : s0;
        both |= s == s1;
        int n = c.choose(3);
        n     = n == 2 ? 0 : n + 1;
        st.push_back(s);
        nr.push_back(n);
        Tab t;
        t.cols = structures()[s];
        for (int r = 0; r < n; r++) {
            Row row;
            v++;
            for (auto& col : t.cols)
                row.push_back(col.type == STRING ? rS(mc::fmt("%0*d", 8 * col.w, v), col.w) : col.type == DOUBLE ? rD(v * 0.5) : rI(v));
            t.rows.push_back(row);
        }
        parts.push_back(t);
        desc += mc::fmt("[structure %d, %d rows] ", s, n);
    }
    if (s0 == s1 && !both)
        c.skip();
    if (s0 == s1 || both)
        c.nontrivial();
    for (auto& t : parts) {
        std::string err = thrown([&] { bytes += encodeCpp(t); });
        if (!err.empty())
            c.fail("encode-error", err);
    }
    static const std::vector<long> limits = {-2, -1, 1, 2, 3, 4, 5};
    long limit = c.pick(limits);  // -2: not aggregated
    int api    = c.choose(2);
    c.note(desc + mc::fmt("limit %ld", limit));
    std::vector<Frame> fs;
    std::string err = thrown([&] { ReadOpt o; o.aggregated = limit > -2; o.maxRows = limit; fs = api ? readAllCpp(bytes, o) : readAllC(bytes, o); });
    bool over = false;
    for (int n : nr)
        over |= limit >= 0 && n > limit;
    if (over) {
        if (err.empty())
            c.outcome("limit below frame accepted");
        return;
    }
    if (!err.empty())
        c.fail("read-error", desc + err);
    // the width of a string column is that of the frame's own values: one word if there are none
    for (int i = 0; i < nf; i++)
        if (st[i] == 3 && nr[i] == 0)
            st[i] = 0;
    // reference
    struct G { int s; std::vector<int> parts; long n; };
    std::vector<G> exp;
    for (int i = 0; i < nf; i++) {
        if (limit > -2 && !exp.empty() && agree(exp.back().s, st[i]) && (limit < 0 || exp.back().n + nr[i] <= limit)) {
            exp.back().parts.push_back(i);
            exp.back().n += nr[i];
        }
        else
            exp.push_back({st[i], {i}, nr[i]});
    }
    std::string o;
    for (auto& f : fs)
        o += mc::fmt("%zu/%zu ", f.rows.size(), f.cols.size());
    c.outcome(desc + o);
    if (fs.size() != exp.size())
        c.fail("frame-sizes", mc::fmt("%zu frames (%s), expected %zu", fs.size(), o.c_str(), exp.size()));
    for (size_t k = 0; k < exp.size(); k++) {
        auto& cols = structures()[exp[k].s];
        Tab m;  // expected contents in the column order of the first part
        m.cols = cols;
        for (int p : exp[k].parts)
            for (auto& row : parts[p].rows) {
                Row x;
                for (auto& col : cols)
                    for (size_t j = 0; j < row.size(); j++)
                        if (parts[p].cols[j].name == col.name)
                            x.push_back(row[j]);
                m.rows.push_back(x);
            }
        std::string why;
        if (!matches(m, {fs[k]}, why))
            c.fail("rows", mc::fmt("frame %zu: ", k) + why);
    }
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"split", "1..8 (thorough 12) rows x 1..9 (13) rows per frame (0 and less refused) x contents x C/C++ x frame by frame and aggregated with every limit -1..n; a limit smaller than a frame may be refused; non trivial: several frames", split},
        {"sequences", "all sequences of 2-3 (thorough 4) frames over every pair of 9 column structures and 0-2 rows each, not aggregated and aggregated with limits -1,1..5, C/C++", sequences},
    };
}
