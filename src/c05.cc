// C05: decoding selected columns is the projection of decoding them all.
#include <algorithm>
#include "h.h"
using namespace H;

namespace {

// column profiles: each makes the encoder choose a different codec
struct Profile {
    int type, w;
    std::vector<Raw> v;  // successive values
};
const std::vector<Profile>& profiles() {
    static std::vector<Profile> p = {
        {INTEGER, 1, {rI(7), rI(7), rI(7), rI(7)}},                                                    // constant
        {STRING, 2, {rS("abcdefghij", 2), rS("b", 2), rS("", 2), rS("abcdefghijklmnop", 2)}},          // int8_string, wide
        {INTEGER, 1, {rI(1), rI(200), rI(3), rI(100)}},                                                // int8
        {DOUBLE, 1, {rD(0.1), rD(RMDI), rD(1e300), rD(-1)}},                                           // long_real
        {REAL, 1, {rD(1.5), rD(RMDI), rD(-2.25), rD(0.5)}},                                            // short_real2
        {INTEGER, 1, {rI(1), rI(IMDI), rI(60000), rI(2)}},                                             // int16_missing
        {STRING, 1, {rS("same"), rS("same"), rS("same"), rS("same")}},                                 // constant_string
        {INTEGER, 1, {rI(-100000), rI(100000), rI(5), rI(6)}},                                         // int32
        {BITFIELD, 1, {rI(1), rI(IMDI), rI(3), rI(4)}},                                                // int8_missing
        {INTEGER, 1, {rI(5), rI(IMDI), rI(5), rI(IMDI)}},                                              // constant_or_missing
        {DOUBLE, 1, {rD(5.5), rD(RMDI), rD(5.5), rD(RMDI)}},                                           // real_constant_or_missing
        {INTEGER, 1, {rI(0), rI(30000), rI(1000), rI(2)}},                                             // int16
    };
    return p;
}

Tab table(mc::Ctx& c, int nc, int nr, const std::vector<int>& which, const std::vector<std::string>& names) {
    Tab t;
    for (int i = 0; i < nc; i++) {
        auto& p = profiles()[which[i]];
        t.cols.push_back({names[i], p.type, p.w, {}});
    }
    std::vector<int> k(nc, 0);
    for (int r = 0; r < nr; r++) {
        if (r) {
            int start = c.choose(nc + 1);  // columns from here on change
            for (int i = start; i < nc; i++)
                k[i] = (k[i] + 1) % 4;
        }
        Row row;
        for (int i = 0; i < nc; i++)
            row.push_back(profiles()[which[i]].v[k[i]]);
        t.rows.push_back(row);
    }
    return t;
}

// decode `sel` (names); cells [row][k].  throws ApiError
std::vector<Row> decodeSel(const std::string& bytes, const std::vector<std::string>& sel, int api, bool agg) {
    std::vector<Row> out;
    if (api == 0) {
        CReader r;
        CAPI(odc_open_buffer(&r.r, bytes.data(), bytes.size()));
        CFrame f;
        CAPI(odc_new_frame(&f.f, r.r));
        while (true) {
            int rc = agg ? odc_next_frame_aggregated(f.f, -1) : odc_next_frame(f.f);
            if (rc == ODC_ITERATION_COMPLETE)
                break;
            CAPI(rc);
            CDecoder d;
            long n;
            CAPI(odc_frame_row_count(f.f, &n));
            for (auto& s : sel)
                CAPI(odc_decoder_add_column(d.d, s.c_str()));
            CAPI(odc_decoder_set_row_count(d.d, n));
            CAPI(odc_decode(d.d, f.f, nullptr));
            size_t at = out.size();
            out.resize(at + n, Row(sel.size()));
            for (size_t k = 0; k < sel.size(); k++) {
                int es, st;
                const void* p;
                CAPI(odc_decoder_column_data_array(d.d, k, &es, &st, &p));
                for (long i = 0; i < n; i++)
                    out[at + i][k] = Raw((const char*)p + st * i, es);
            }
        }
    }
    else {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::api::Reader rd(mh, agg);
        while (true) {
            odc::api::Frame f = rd.next();
            if (!f)
                break;
            size_t n = f.rowCount();
            std::vector<std::unique_ptr<char[]>> buf;
            std::vector<odc::api::StridedData> sd;
            std::vector<std::string> names = sel;
            for (size_t k = 0; k < sel.size(); k++) {
                buf.emplace_back(new char[16 * n]);
                memset(buf.back().get(), 0xe7, 16 * n);
                sd.emplace_back(buf.back().get(), n, size_t(16), size_t(16));
            }
            odc::api::Decoder d(names, sd);
            d.decode(f);
            size_t at = out.size();
            out.resize(at + n, Row(sel.size()));
            for (size_t k = 0; k < sel.size(); k++)
                for (size_t i = 0; i < n; i++)
                    out[at + i][k] = Raw(buf[k].get() + 16 * i, 16);
        }
    }
    return out;
}

// got cells may be wider than the column
void compare(mc::Ctx& c, const Tab& t, const std::vector<int>& sel, const std::vector<Row>& got) {
    if (got.size() != t.rows.size())
        c.fail("row-count", mc::fmt("%zu rows, expected %zu", got.size(), t.rows.size()));
    for (size_t r = 0; r < got.size(); r++)
        for (size_t k = 0; k < sel.size(); k++) {
            int type = t.cols[sel[k]].type;
            Raw g    = got[r][k];
            if (type != STRING) {
                if (g.find_first_not_of('\0', 8) != std::string::npos)
                    c.fail("padding", "undefined bytes after a numeric value");
                g.resize(8);
            }
            if (!sameCell(t.rows[r][sel[k]], g, type))
                c.fail("not-the-projection", mc::fmt("row %zu column %d: %s instead of %s", r, sel[k], show(g, type).c_str(), show(t.rows[r][sel[k]], type).c_str()));
        }
}

void selections(mc::Ctx& c, int nc, int np) {
    std::vector<int> which;
    for (int i = 0; i < nc; i++)
        which.push_back(c.choose(np));
    c.shard();
    std::vector<std::string> names = {"p@x", "q@x", "r@x", "s@x"};
    Tab t   = table(c, nc, 3, which, names);
    int rpf = c.choose(2) * 2;  // one frame, or 2 + 1 rows aggregated
    // ordered subset
    std::vector<int> sel;
    std::vector<bool> used(nc, false);
    while (int(sel.size()) < nc) {
        std::vector<int> left;
        for (int i = 0; i < nc; i++)
            if (!used[i])
                left.push_back(i);
        int k = c.choose(left.size() + (sel.empty() ? 0 : 1));
        if (k == int(left.size()))
            break;
        sel.push_back(left[k]);
        used[left[k]] = true;
    }
    int naming = c.choose(2);
    if (int(sel.size()) < nc)
        c.nontrivial();
    std::string desc;
    std::vector<std::string> ask;
    for (int s : sel) {
        ask.push_back(naming ? t.cols[s].name.substr(0, 1) : t.cols[s].name);
        desc += ask.back() + " ";
    }
    c.note("select " + desc + mc::fmt("rows per frame %d from ", rpf) + showTab(t));
    std::string bytes;
    std::string err = thrown([&] { bytes = encodeC(t, ROWMAJOR, rpf); });
    if (!err.empty())
        c.fail("encode-error", err);
    int api = naming;
    for (bool agg : {false, true}) {
        std::vector<Row> got;
        err = thrown([&] { got = decodeSel(bytes, ask, api, agg); });
        if (!err.empty())
            c.fail("decode-error", err);
        compare(c, t, sel, got);
        std::string o = desc;
        for (auto& r : got)
            for (auto& x : r)
                o += x;
        c.outcome(o);
        if (!rpf)
            break;
    }
}

// naming rules, unknown and duplicated columns
void naming(mc::Ctx& c) {
    static const std::vector<std::vector<std::string>> sets = {
        {"a@t", "b@t", "c@u"}, {"a@t", "a@u", "b"}, {"a", "a@t", "b@t"}, {"a@t", "ab@t", "abc"}, {"a@t", "A@t", "a.b@t"}};
    static const std::vector<std::string> asks = {"a", "a@t", "a@u", "b", "b@t", "ab", "abc", "a@", "", "A", "@t", "a.b", "t", "a@tt"};
    static const std::vector<std::string> parts = {"a", "a@t", "a@u", "b", "b@t"};
    std::vector<std::string> names;
    size_t set = c.choose(int(sets.size()) + 1);
    if (set < sets.size())
        names = sets[set];
    else
        for (int i = 0; i < 3; i++) {  // every order of three names sharing parts
            names.push_back(c.pick(parts));
            for (int j = 0; j < i; j++)
                if (names[j] == names[i])
                    c.skip();
        }
    int n = 1 + c.choose(2);
    std::vector<std::string> ask;
    for (int i = 0; i < n; i++)
        ask.push_back(c.pick(asks));
    int api = c.choose(2);
    c.shard();
    Tab t   = table(c, 3, 2, {1, 2, 3}, names);
    std::string bytes;
    std::string err = thrown([&] { bytes = encodeC(t); });
    if (!err.empty())
        c.fail("encode-error", err);
    // reference lookup: exact, or by the part before '@'
    std::vector<std::vector<int>> cand;
    bool unknown = false;
    for (auto& a : ask) {
        std::vector<int> x;
        for (int i = 0; i < 3; i++)
            if (names[i] == a)
                x = {i};
        if (x.empty())
            for (int i = 0; i < 3; i++)
                if (names[i].substr(0, names[i].find('@')) == a)
                    x.push_back(i);
        unknown |= x.empty();
        cand.push_back(x);
    }
    bool dup  = n == 2 && !unknown && cand[0].size() == 1 && cand[0] == cand[1];
    bool open = n == 2 && !dup && !unknown && (cand[0].size() > 1 || cand[1].size() > 1);  // ambiguous bare names
    c.nontrivial();
    c.note("names " + names[0] + " " + names[1] + " " + names[2] + " ask " + ask[0] + (n > 1 ? ", " + ask[1] : ""));
    std::vector<Row> got;
    // the same handle for the failing and the following full decode
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    mh.openForRead();
    odc::api::Reader rd(mh, false);
    odc::api::Frame f = rd.next();
    if (api == 0)
        err = thrown([&] { got = decodeSel(bytes, ask, 0, false); });
    else
        err = thrown([&] {
            size_t nr = f.rowCount();
            std::vector<std::unique_ptr<char[]>> buf;
            std::vector<odc::api::StridedData> sd;
            std::vector<std::string> nm = ask;
            for (size_t k = 0; k < ask.size(); k++) {
                buf.emplace_back(new char[16 * nr]);
                sd.emplace_back(buf.back().get(), nr, size_t(16), size_t(16));
            }
            odc::api::Decoder d(nm, sd);
            d.decode(f);
            got.assign(nr, Row(ask.size()));
            for (size_t k = 0; k < ask.size(); k++)
                for (size_t i = 0; i < nr; i++)
                    got[i][k] = Raw(buf[k].get() + 16 * i, 16);
        });
    c.outcome(err.empty() ? names[0] + ask[0] : err);
    if (unknown || dup) {
        if (err.empty())
            c.fail(unknown ? "unknown-column-accepted" : "duplicate-column-accepted", "decoding was not refused");
    }
    else if (err.empty()) {
        bool ok = false;
        for (int a : cand[0])
            for (int b : n == 2 ? cand[1] : std::vector<int>{0}) {
                if (n == 2 && a == b)
                    continue;
                std::vector<int> sel = {a};
                if (n == 2)
                    sel.push_back(b);
                try {
                    compare(c, t, sel, got);
                    ok = true;
                }
                catch (mc::Violation&) {
                }
            }
        if (!ok)
            c.fail("wrong-column", "the cells decoded are not those of the column asked for");
    }
    else if (!open)
        c.fail("decode-error", err);
    // still decodable
    Frame full;
    err = thrown([&] { full = decodeFrameCpp(f); });
    if (!err.empty())
        c.fail("table-spoilt", "after this the full decode fails: " + err);
    std::string why;
    if (!matches(t, {full}, why))
        c.fail("table-spoilt", why);
    for (size_t i = 0; i < ask.size(); i++)
        if (f.hasColumn(ask[i]) != !cand[i].empty())
            c.fail("has-column", "hasColumn('" + ask[i] + "') disagrees with the lookup");
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"two-columns", "all pairs of 12 codec profiles x start columns of rows 2,3 x one frame or aggregated x every ordered non-empty selection x full/bare names and C/C++; non trivial: a proper subset",
         [](mc::Ctx& c) { selections(c, 2, profiles().size()); }},
        {"three-columns", "all triples of 6 (thorough 12) profiles, the same", [](mc::Ctx& c) { selections(c, 3, c.thorough ? 12 : 6); }},
        {"naming", "5 sets and every order of 3 of 5 column names which share parts x 14 requests, alone and in pairs, through both APIs, then a full decode of the same frame", naming},
    };
}
