// C01: whatever is encoded decodes to the same values (and the same structure).
#include <float.h>
#include <limits>
#include "h.h"
using namespace H;

namespace {

const double INF = std::numeric_limits<double>::infinity();
const double QNAN = std::numeric_limits<double>::quiet_NaN();

std::vector<Raw> alphabet(int type, int w, bool asDoubles, bool thorough) {
    std::vector<Raw> a;
    if (type == INTEGER || type == BITFIELD) {
        std::vector<long> v = {0, 1, 254, 255, 256, 65534, 65535, 65536, IMDI};
        if (type == INTEGER)
            v.insert(v.end(), {-1, -2147483647L - 1, 2147483646});
        for (long x : v)
            a.push_back(asDoubles ? rD(x) : rI(x));
    }
    else if (type == REAL) {
        for (double x : {0.0, 1.5, -2.25, 0.1, double(FLT_MAX), -double(FLT_MAX), double(FLT_MIN), -double(FLT_MIN),
                         double(FLT_MIN) / 8, INF, -INF, QNAN, RMDI})
            a.push_back(rD(x));
    }
    else if (type == DOUBLE) {
        for (double x : {0.0, -0.0, 1.5, 0.1, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_MIN / 8, double(FLT_MIN), -double(FLT_MAX), INF, QNAN, RMDI})
            a.push_back(rD(x));
    }
    else {
        std::vector<std::string> v = {"", "a", "abcdefg", "abcdefgh", " ", "\xff\xfe"};
        if (w > 1)
            v.insert(v.end(), {"abcdefghi", "abcdefghj", "abcdefghijklmnop"});
        if (w > 2)
            v.insert(v.end(), {"abcdefghijklmnopq", "abcdefghijklmnopqrstuvwx"});
        for (auto& s : v)
            a.push_back(rS(s, w));
    }
    return a;
}

void roundTrip(mc::Ctx& c, const Tab& t, Layout l, long rpf, bool asDoubles, int api = 0) {
    c.at("encode");
    std::string bytes;
    std::string err = thrown([&] { bytes = api ? encodeCpp(t, l, rpf ? rpf : 10000) : encodeC(t, l, rpf); });
    if (!err.empty())
        c.fail("encode-error", "encoding a valid table failed: " + err + " for " + showTab(t, asDoubles));
    c.outcome(bytes);
    c.at("decode");
    std::vector<Frame> fs;
    err = thrown([&] { fs = api ? readAllCpp(bytes) : readAllC(bytes); });
    if (!err.empty())
        c.fail("decode-error", "decoding failed: " + err + " for " + showTab(t, asDoubles));
    std::string why;
    if (!matches(t, fs, why, asDoubles))
        c.fail("value-changed", why + "; table: " + showTab(t, asDoubles));
    long expectFrames = rpf && rpf < long(t.rows.size()) ? (t.rows.size() + rpf - 1) / rpf : 1;
    if (long(fs.size()) != expectFrames)
        c.fail("frame-count", mc::fmt("%zu frames, expected %ld", fs.size(), expectFrames));
    for (auto& p : t.props)
        for (auto& f : fs)
            if (!f.props.count(p.first) || f.props[p.first] != p.second)
                c.fail("property-lost", "property '" + p.first + "' lost");
}

void single(mc::Ctx& c, bool asDoubles) {
    odc_integer_behaviour(asDoubles ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    struct K { int type, w; };
    std::vector<K> kinds = {{INTEGER, 1}, {BITFIELD, 1}, {REAL, 1}, {DOUBLE, 1}, {STRING, 1}, {STRING, 2}, {STRING, 3}};
    K k;
    if (asDoubles)
        k = kinds[c.choose(2)];
    else
        k = kinds[c.choose(kinds.size())];
    Tab t;
    Col col{"c@t", k.type, k.w, {}};
    if (k.type == BITFIELD)
        col.bits = {{"a", 1}, {"b", 15}, {"c", 16}};
    t.cols = {col};
    int n  = 1 + c.choose(c.thorough ? 4 : 3);
    auto a = alphabet(k.type, k.w, asDoubles, c.thorough);
    for (int i = 0; i < n; i++) {
        t.rows.push_back({a[c.choose(a.size())]});
        if (i == 1)
            c.shard();
    }
    c.shard();
    if (n > 1)
        c.nontrivial();
    c.note(showTab(t, asDoubles));
    roundTrip(c, t, ROWMAJOR, 0, asDoubles);
}

// integer width selection: base, range, missing or not, position of the extremes
void ranges(mc::Ctx& c, bool asDoubles) {
    odc_integer_behaviour(asDoubles ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    std::vector<long> bases  = {0, 1, -1, -128, -255, -32768, 1000000, -2147483647L - 1, -2147483646};
    std::vector<long> spans_ = {0, 1, 2, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0xfffffffdL};
    int type  = c.flip() ? BITFIELD : INTEGER;
    long base = c.pick(bases), span = c.pick(spans_);
    if (base + span >= IMDI || (type == BITFIELD && base < 0))
        c.skip();
    int miss  = c.choose(4);  // none, first, middle, last
    bool mid  = c.flip();
    bool down = c.flip();
    c.shard();
    Tab t;
    t.cols = {{"c@t", type, 1, {}}};
    std::vector<long> v = {base, base + span};
    if (mid)
        v.insert(v.begin() + 1, base + span - span / 2);
    if (down)
        std::reverse(v.begin(), v.end());
    if (miss == 1)
        v.insert(v.begin(), IMDI);
    if (miss == 2)
        v.insert(v.begin() + 1, IMDI);
    if (miss == 3)
        v.push_back(IMDI);
    for (long x : v)
        t.rows.push_back({asDoubles ? rD(x) : rI(x)});
    c.nontrivial();
    c.note(showTab(t, asDoubles));
    roundTrip(c, t, ROWMAJOR, 0, asDoubles);
}

// every pattern of which column changes in which row, over mixed column types
void patterns(mc::Ctx& c) {
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    std::vector<std::vector<Col>> sets = {
        {{"i", INTEGER}, {"s", STRING, 2}, {"d", DOUBLE}},
        {{"s", STRING, 1}, {"b", BITFIELD, 1, {{"x", 3}}}, {"r", REAL}},
        {{"d", DOUBLE}, {"w", STRING, 3}, {"v", STRING, 1}},
        {{"r@t", REAL}, {"i@t", INTEGER}, {"j@t", INTEGER}},
        {{"a", INTEGER}, {"b", REAL}, {"c", DOUBLE}, {"d", STRING, 2}},
    };
    int si = c.choose(sets.size());
    Tab t;
    t.cols   = sets[si];
    int rows = 1 + c.choose(c.thorough && t.cols.size() == 3 ? 4 : 3);
    long rpf = c.choose(3);  // 0 (one frame), 1, 2 rows per frame
    auto value = [&](const Col& col, int k) -> Raw {
        static const char* st[] = {"x", "abcdefgh", "abcdefghij", "", "abcdefghijklmnopqr"};
        switch (col.type) {
            case INTEGER: return rI(k == 2 ? IMDI : k * 300 - 7);
            case BITFIELD: return rI(k * 2);
            case REAL: return rD(k == 3 ? RMDI : k * 0.5);
            case DOUBLE: return rD(k == 2 ? RMDI : 1e300 * k);
            default: return rS(std::string(st[k % 5]).substr(0, 8 * col.w), col.w);
        }
    };
    std::vector<int> cur(t.cols.size(), 0);
    for (int r = 0; r < rows; r++) {
        Row row;
        for (size_t i = 0; i < t.cols.size(); i++) {
            if (r && c.flip())
                cur[i]++;
            row.push_back(value(t.cols[i], cur[i]));
        }
        t.rows.push_back(row);
        if (r == 1)
            c.shard();
    }
    c.shard();
    if (rows > 1)
        c.nontrivial();
    t.props = {{"p", "v"}};
    c.note(showTab(t));
    roundTrip(c, t, ROWMAJOR, rpf, false, c.choose(2));
}

// many columns: the two byte start column marker
void wide(mc::Ctx& c) {
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    std::vector<int> ns = {1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513};
    int n     = c.pick(ns);
    int kind  = c.choose(2);
    c.shard();
    Tab t;
    for (int i = 0; i < n; i++)
        t.cols.push_back({mc::fmt("c%d", i), kind ? (i % 2 ? STRING : INTEGER) : DOUBLE, 1, {}});
    Row r0;
    for (int i = 0; i < n; i++)
        r0.push_back(t.cols[i].type == STRING ? rS("s") : t.cols[i].type == INTEGER ? rI(i) : rD(i));
    t.rows.push_back(r0);
    // one row per interesting start column, then back to column 0
    std::vector<int> starts;
    for (int s : {n - 1, n / 2, 0, 255, 256, 257, 1, 254, n - 2, 511, 510})
        if (s >= 0 && s < n)
            starts.push_back(s);
    int first = c.choose(starts.size());
    int second = c.choose(starts.size());
    for (int s : {starts[first], starts[second]}) {
        Row r = t.rows.back();
        r[s]  = t.cols[s].type == STRING ? rS(r[s] == rS("s") ? "other" : "s") : t.cols[s].type == INTEGER ? rI(asI(r[s]) + 1000) : rD(asD(r[s]) + 0.5);
        t.rows.push_back(r);
        t.rows.push_back(r);  // nothing changes
    }
    c.nontrivial();
    c.note(mc::fmt("%d columns, starts %d %d", n, starts[first], starts[second]));
    roundTrip(c, t, ROWMAJOR, 0, false);
}

// number of distinct strings around the dictionary limits
void dictionary(mc::Ctx& c) {
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    std::vector<int> ns = {1, 2, 3, 254, 255, 256, 257, 1000};
    if (c.thorough)
        ns.insert(ns.end(), {65534, 65535});
    int n    = c.pick(ns);
    int w    = 1 + c.choose(2);
    int extra = c.choose(3);  // repeat the first / the last value at the end
    bool two = c.flip();
    c.shard();
    Tab t;
    t.cols = {{"s", STRING, w, {}}};
    if (two)
        t.cols.push_back({"i", INTEGER, 1, {}});
    auto add = [&](int k) {
        Row r = {rS((w > 1 ? "wide-prefix" : "") + std::to_string(k), w)};
        if (two)
            r.push_back(rI(k / 2));
        t.rows.push_back(r);
    };
    for (int i = 0; i < n; i++)
        add(i);
    if (extra)
        add(extra == 1 ? 0 : n - 1);
    c.nontrivial();
    c.note(mc::fmt("%d distinct strings of width %d", n, w));
    roundTrip(c, t, ROWMAJOR, n + 1, false);
}

// constant long strings written with the opt-in codec
void longConstant(mc::Ctx& c) {
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    int w = 1 + c.choose(3);
    std::vector<std::string> v = {"", "a", "abcdefgh"};
    if (w > 1)
        v.insert(v.end(), {"abcdefghi", "abcdefghijklmnop"});
    if (w > 2)
        v.push_back("abcdefghijklmnopqrstuvwx");
    std::string s = c.pick(v), s2 = c.flip() ? s : std::string("b");
    int rows      = 1 + c.choose(3);
    bool other    = c.flip();
    c.shard();
    Tab t;
    t.cols = {{"s", STRING, w, {}}};
    if (other)
        t.cols.push_back({"i", INTEGER, 1, {}});
    for (int r = 0; r < rows; r++) {
        Row row = {rS(r == rows - 1 ? s2 : s, w)};
        if (other)
            row.push_back(rI(r));
        t.rows.push_back(row);
    }
    c.nontrivial();
    c.note(showTab(t));
    setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1);
    try {
        roundTrip(c, t, ROWMAJOR, 0, false);
    }
    catch (...) {
        unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
        throw;
    }
    unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
}

// integers which need more than 32 bits: either exact or refused, never silently different
void big(mc::Ctx& c) {
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    std::vector<long> vals = {0, 5, 2147483648L, -2147483649L, 4294967296L, 1099511627776L, 1099511627781L, -1099511627776L, 4294967301L, IMDI};
    int n = 1 + c.choose(3);
    Tab t;
    t.cols = {{"c", INTEGER, 1, {}}};
    for (int i = 0; i < n; i++)
        t.rows.push_back({rI(c.pick(vals))});
    c.shard();
    c.nontrivial();
    c.note(showTab(t));
    c.at("big");
    std::string bytes;
    std::string err = thrown([&] { bytes = encodeC(t); });
    c.outcome(err.empty() ? bytes : err);
    if (!err.empty())
        return;
    std::vector<Frame> fs = readAllC(bytes);
    std::string why;
    if (!matches(t, fs, why))
        c.fail("big-integer-silently-changed", why);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    std::vector<mc::Scenario> v;
    v.push_back({"single-column", "every sequence of <=3 (thorough 4) rows over a boundary alphabet of each column type; non trivial: >=2 rows",
                 [](mc::Ctx& c) { single(c, false); }});
    v.push_back({"single-column-as-doubles", "the same for INTEGER/BITFIELD with integers treated as doubles", [](mc::Ctx& c) { single(c, true); }});
    v.push_back({"integer-ranges", "base x span x position of missing x order, around every codec width limit", [](mc::Ctx& c) { ranges(c, false); }});
    v.push_back({"integer-ranges-as-doubles", "the same with integers as doubles", [](mc::Ctx& c) { ranges(c, true); }});
    v.push_back({"change-patterns", "every pattern of which of 3-4 mixed columns changes in which row, <=3 rows (thorough 4), 1-3 frames, C and C++ APIs", patterns});
    v.push_back({"many-columns", "1..513 columns, every pair of start columns around byte limits of the row marker", wide});
    v.push_back({"string-dictionary", "number of distinct strings around the dictionary width limits", dictionary});
    v.push_back({"long-constant-string", "constant strings through the opt-in long_constant_string codec", longConstant});
    v.push_back({"big-integers", "all <=3 row columns over integers beyond 32 bits: exact or refused", big});
    return v;
}
