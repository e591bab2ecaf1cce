// C12: a span is exactly the set of values of its columns.
#include "codecs.h"
#include "odc/ODBAPISettings.h"
using namespace H;

namespace {

struct SpanValues : odc::api::SpanVisitor {
    struct V {
        char kind;
        std::set<Raw> values;
    };
    std::map<std::string, V> cols;
    bool nan = false;
    void operator()(const std::string& n, const std::set<long>& v) override {
        auto& x = cols[n];
        x.kind  = 'i';
        for (auto y : v)
            x.values.insert(rI(y));
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        auto& x = cols[n];
        x.kind  = 'd';
        for (auto y : v)
            if (std::isnan(y))
                nan = true;
            else
                x.values.insert(rD(y + 0.0));
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        auto& x = cols[n];
        x.kind  = 's';
        x.values.insert(v.begin(), v.end());
    }
};

// one frame of the stream as it should be seen; constant: 1 yes, 0 no, -1 either (no values which differ, other codec)
struct Part {
    Tab t;
    std::vector<int> constant;
    std::string bytes;
};
// logical frame
struct Logical {
    std::vector<const Part*> parts;
    long offset = 0, length = 0;
};

char kindOf(int type) { return type == STRING ? 's' : type == INTEGER || type == BITFIELD ? 'i' : 'd'; }

Raw cellValue(const Raw& r, const Col& col) {
    if (col.type == STRING)
        return asS(r);
    if (col.type == REAL && asD(r) != RMDI)
        return rD(double(float(asD(r))) + 0.0);
    if (col.type == REAL || col.type == DOUBLE)
        return rD(asD(r) + 0.0);
    return r;
}

std::set<Raw> expected(const Logical& l, size_t col) {
    std::set<Raw> e;
    for (auto* p : l.parts)
        for (auto& row : p->t.rows) {
            auto& c = p->t.cols[col];
            if ((c.type == REAL || c.type == DOUBLE) && std::isnan(asD(row[col])))
                continue;
            e.insert(cellValue(row[col], c));
        }
    return e;
}

std::string showSet(const std::set<Raw>& s, char kind) {
    std::string r = "{";
    for (auto& x : s)
        r += (kind == 's' ? show(x, STRING) : kind == 'i' ? show(x, INTEGER) : show(x, DOUBLE)) + " ";
    return r + "}";
}

// column of the table named so; -1 none, -2 several
int find(const std::vector<Col>& cols, const std::string& name) {
    int found = -1;
    for (size_t i = 0; i < cols.size(); i++)
        if (cols[i].name == name)
            return i;
    for (size_t i = 0; i < cols.size(); i++) {
        auto at = cols[i].name.find('@');
        if (at != std::string::npos && cols[i].name.substr(0, at) == name)
            found = found == -1 ? i : -2;
    }
    return found;
}

void checkSpan(mc::Ctx& c, odc::api::Frame& f, const Logical& l, const std::vector<std::string>& names, bool only) {
    auto& cols = l.parts[0]->t.cols;
    std::string what = only ? "constants only:" : "span:";
    bool unknown = false, ambiguous = false;
    int constant = 1;
    for (auto& n : names) {
        what += " " + n;
        int i = find(cols, n);
        unknown |= i == -1;
        ambiguous |= i == -2;
        for (size_t k = 0; k < cols.size(); k++)  // also shared with the bare name of another: refused, or that very column
            ambiguous |= int(k) != i && cols[k].name != n && cols[k].name.substr(0, cols[k].name.find('@')) == n;
        if (i >= 0)
            for (auto* p : l.parts)
                constant = p->constant[i] == 0 || constant == 0 ? 0 : p->constant[i] < 0 ? -1 : constant;
    }
    SpanValues v;
    long off = -1, len = -1;
    std::string err = thrown([&] {
        odc::api::Span s = f.span(names, only);
        s.visit(v);
        off = long(s.offset());
        len = long(s.length());
        for (auto& n : names) {  // the accessors agree with the visitor
            int i = find(cols, n);
            if (i < 0)
                continue;
            SpanValues w;
            if (kindOf(cols[i].type) == 'i')
                w("x", s.getIntegerValues(n));
            else if (kindOf(cols[i].type) == 'd')
                w("x", s.getRealValues(n));
            else
                w("x", s.getStringValues(n));
            if (w.cols["x"].values != v.cols[n].values)
                c.fail("accessor", what + ": the values of " + n + " differ from those visited");
        }
    });
    c.outcome(what + (err.empty() ? "" : "error"));
    if (unknown) {
        if (err.empty())
            c.fail("unknown", what + ": an unknown column was accepted");
        return;
    }
    if (ambiguous && !err.empty())
        return;
    if (only && constant == 0) {
        if (err.empty())
            c.fail("not-constant", what + ": succeeded, although not every column is constant");
        return;
    }
    if (!err.empty()) {
        if (only && constant < 0)
            return;
        c.fail("error", what + ": " + err);
    }
    std::set<std::string> distinct(names.begin(), names.end());
    if (v.cols.size() != distinct.size())
        c.fail("columns", mc::fmt("%s: %zu columns in the span", what.c_str(), v.cols.size()));
    for (auto& n : distinct) {
        int i = find(cols, n);
        if (i < 0)
            continue;
        if (!v.cols.count(n))
            c.fail("columns", what + ": " + n + " is not in the span");
        auto& g = v.cols[n];
        if (g.kind != kindOf(cols[i].type))
            c.fail("type", what + ": " + n + " has values of another type");
        auto e = expected(l, i);
        if (cols[i].type == REAL) {
            std::set<Raw> f;
            for (auto& x : g.values)
                f.insert(cellValue(x, cols[i]));
            g.values = f;
        }
        if (g.values != e)
            c.fail("values", what + ": " + n + " has " + showSet(g.values, g.kind) + ", the rows hold " + showSet(e, g.kind));
    }
    if (off != l.offset || len != l.length)
        c.fail("extent", mc::fmt("%s: offset %ld length %ld, expected %ld and %ld", what.c_str(), off, len, l.offset, l.length));
}

// all the values of a column are the same (a NaN is not a value the library stores as a constant)
int isConstant(const Tab& t, size_t col) {
    if (t.rows.empty())
        return -1;
    std::set<Raw> s;
    bool nan = false;
    for (auto& r : t.rows) {
        s.insert(cellValue(r[col], t.cols[col]));
        nan |= kindOf(t.cols[col].type) == 'd' && std::isnan(asD(r[col]));
    }
    if (s.size() > 1)
        return 0;
    // n.b. missing values, NaN, and (by default) strings of more than 8 characters are not stored as constants
    return nan || isMissing(t.rows[0][col], t.cols[col].type) || (t.cols[col].type == STRING && t.cols[col].w > 1) ? -1 : 1;
}

Part encoded(const Tab& t) {
    Part p;
    p.t     = t;
    p.bytes = encodeCpp(t);
    for (size_t c = 0; c < t.cols.size(); c++)
        p.constant.push_back(isConstant(t, c));
    return p;
}

const std::vector<Raw>& spanValues(int kind) {
    static const std::string n = std::string("\0\0\0\0\0\0\xf8\x7f", 8);
    static const std::vector<std::vector<Raw>> v = {
        {rI(5), rI(300), rI(IMDI), rI(-70000)},
        {rI(3), rI(0), rI(IMDI)},
        {rD(1.5), rD(-2.25), rD(RMDI), rD(0.1)},
        {rD(0.1), rD(1e300), rD(RMDI), rD(-0.0)},
        {rS("a"), rS(""), rS("abcdefgh"), rS("abcdefgi")},
        {rS("abcdefgh1", 3), rS("abcdefgh2", 3), rS("abcdefgh", 3), rS("0123456789abcdef0123", 3)},
        {rS("\x01\x02\x03\x04\x05\x06\xf8\x7f"), rS("\x01\x02\x03\x04\x05\x06\xf8\x7fz", 2), rS("b")},
        {rD(NAN), rD(2), rD(3)},
    };
    return v[kind];
}
const int NK = 8;
const int kindType[] = {INTEGER, BITFIELD, REAL, DOUBLE, STRING, STRING, STRING, DOUBLE};

int width(const std::vector<Raw>& v) {
    size_t w = 8;
    for (auto& r : v)
        w = std::max(w, r.size());
    return w / 8;
}
Raw widen(Raw r, int w) {
    r.resize(8 * w, '\0');
    return r;
}

const std::vector<std::vector<std::string>>& selections() {
    static const std::vector<std::vector<std::string>> s = {
        {"x@t"}, {"x"}, {"y@t", "x@t"}, {"x", "k"}, {"k@t"}, {}, {"x@t", "x@t"}, {"x@t", "x"}, {"z@t"}, {"x@t", "nope"}, {"x@u"}, {"d@u"}, {"d"}, {"y", "k", "x", "d@t"}};
    return s;
}

// the table: a constant, the column under test, a distinct one, two of the same bare name, and one of the bare name of another
Tab table(int kind, const std::vector<int>& vals) {
    auto& vs = spanValues(kind);
    Tab t;
    int w  = width(vs);
    t.cols = {{"k@t", INTEGER}, {"x@t", kindType[kind], w, bitsFor(kindType[kind], 0)}, {"y@t", DOUBLE}, {"d@t", INTEGER}, {"d@u", STRING, 1}, {"y", INTEGER}};
    int r  = 0;
    for (int v : vals) {
        t.rows.push_back({rI(9), widen(vs[v], w), rD(r * 0.5), rI(r), rS("q"), rI(100 + r)});
        r++;
    }
    return t;
}

std::vector<int> sequence(mc::Ctx& c, int maxRows, int nvals) {
    int n = c.choose(maxRows + 1);
    std::vector<int> s;
    for (int i = 0; i < n; i++)
        s.push_back(c.choose(nvals));
    return s;
}

// tests all frames of the stream
void run(mc::Ctx& c, const std::string& bytes, const std::vector<Logical>& logical, bool aggregated, const std::vector<std::vector<std::string>>& sel) {
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    mh.openForRead();
    odc::api::Reader r(mh, aggregated);
    for (auto& l : logical) {
        odc::api::Frame f = r.next();
        if (!f)
            c.fail("frames", "fewer frames than expected");
        for (auto& s : sel)
            for (int only = 0; only < 2; only++)
                checkSpan(c, f, l, s, only);
        // spans leave the frame as it was
        Frame d = decodeFrameCpp(f);
        std::vector<Row> rows;
        Tab t;
        t.cols = l.parts[0]->t.cols;
        for (auto* p : l.parts)
            t.rows.insert(t.rows.end(), p->t.rows.begin(), p->t.rows.end());
        std::string why;
        bool asD = odc::ODBAPISettings::instance().integersAsDoubles();
        if (!matches(asD ? asDoubles(t) : t, {d}, why, asD))
            c.fail("decode-after", "decoded after the spans: " + why);
        for (auto& s : {sel.front(), sel.back()})
            for (int only = 0; only < 2; only++)
                checkSpan(c, f, l, s, only);
    }
}

struct Mode {
    Mode(bool asDoubles) { odc_integer_behaviour(asDoubles ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS); }
    ~Mode() { odc_integer_behaviour(ODC_INTEGERS_AS_LONGS); }
};

// string columns of different widths keep frames apart (that is C06's business)
std::vector<int> widths(const Part& p) {
    std::vector<int> w;
    eckit::MemoryHandle mh(p.bytes.data(), p.bytes.size());
    mh.openForRead();
    odc::api::Reader r(mh, false);
    odc::api::Frame f = r.next();
    for (auto& ci : f.columnInfo())
        w.push_back(ci.decodedSize);
    return w;
}

std::vector<Logical> group(const std::vector<Part>& parts, bool aggregated, const std::vector<int>& same) {
    std::vector<Logical> l;
    long pos = 0;
    for (size_t i = 0; i < parts.size(); i++) {
        if (!(aggregated && i > 0 && same[i] == same[i - 1] && widths(parts[i]) == widths(parts[i - 1]))) {
            l.emplace_back();
            l.back().offset = pos;
        }
        l.back().parts.push_back(&parts[i]);
        l.back().length += parts[i].bytes.size();
        pos += parts[i].bytes.size();
    }
    return l;
}

void one(mc::Ctx& c) {
    int kind = c.choose(NK);
    auto vals = sequence(c, c.thorough ? 5 : 4, spanValues(kind).size());
    c.shard();
    std::vector<Part> parts = {encoded(table(kind, vals))};
    Mode m(c.flip());
    c.note(showTab(parts[0].t));
    c.nontrivial();
    run(c, parts[0].bytes, group(parts, false, {0}), c.flip(), selections());
}

// two or three compatible frames, or with another structure in between
void several(mc::Ctx& c) {
    int kind   = c.choose(NK);
    int nv     = spanValues(kind).size();
    int maxR   = c.thorough ? 3 : 2;
    auto first = sequence(c, maxR, nv), second = sequence(c, maxR, nv);
    c.shard();
    int extra  = c.choose(3);
    bool agg   = c.flip();
    bool asDbl              = c.flip();
    std::vector<Part> parts = {encoded(table(kind, first)), encoded(table(kind, second))};
    std::vector<int> same   = {0, 0};
    if (extra) {
        Tab t;
        t.cols = {{"k@t", DOUBLE}, {"x@t", INTEGER}, {"d@u", INTEGER}};
        t.rows = {{rD(0.5), rI(1), rI(2)}};
        parts.insert(extra == 1 ? parts.begin() : parts.begin() + 1, encoded(t));
        same = extra == 1 ? std::vector<int>{1, 0, 0} : std::vector<int>{0, 1, 0};
    }
    std::string bytes;
    for (auto& p : parts) {
        bytes += p.bytes;
        c.note(showTab(p.t));
    }
    c.nontrivial();
    Mode m(asDbl);
    static const std::vector<std::vector<std::string>> few = {{"x@t"}, {"k"}, {"y@t", "x"}, {"d@u", "k@t", "x@t"}, {"nope"}};
    run(c, bytes, group(parts, agg, same), agg, few);
}

// written by the reference implementation with any codec and byte order
void otherCodecs(mc::Ctx& c) {
    auto& k  = kinds()[c.choose(kinds().size())];
    auto& vs = values(k.type);
    auto vals = sequence(c, c.thorough ? 3 : 2, vs.size());
    if (!vals.empty() && c.flip())
        vals.push_back(vals[0]);
    int second = c.choose(3);
    c.shard();
    if (vals.empty())
        c.skip();
    Mode m(c.flip());
    std::vector<Part> parts(second ? 2 : 1);
    std::string bytes;
    for (size_t i = 0; i < parts.size(); i++) {
        std::vector<Row> rows;
        for (int v : vals)
            rows.push_back({vs[v], rD(rows.size())});
        if (i == 1 && second == 1)
            for (auto& r : rows)
                r[0] = rows[0][0];
        Ref::Frame f;
        Kind other = {DOUBLE, "long_real"};
        if (!foreign({k, other}, rows, f, parts[i].t))
            c.skip();
        f.swap   = i == 0 ? c.flip() : second == 2;
        f.policy = i == 0 ? c.choose(4) : 0;
        if (f.policy == 3 && (!isMissing(rows[0][0], k.type) || std::string(k.codec) == "constant"))
            c.skip();
        parts[i].bytes = Ref::encode(f);
        std::string cn = k.codec;
        bool constant  = cn == "constant" || cn == "constant_string" || cn == "long_constant_string";
        parts[i].constant = {constant ? 1 : isConstant(parts[i].t, 0) == 0 ? 0 : -1, isConstant(parts[i].t, 1) == 0 ? 0 : -1};
        bytes += parts[i].bytes;
        c.note(cn + " " + showTab(parts[i].t));
    }
    c.nontrivial();
    static const std::vector<std::vector<std::string>> few = {{"c0@t"}, {"c1", "c0"}, {"c0", "nope"}, {"c1@t"}};
    run(c, bytes, group(parts, true, {0, 0}), true, few);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"one-frame", "every sequence of 0-4 (thorough 5) values over 3-4 values of 8 kinds of column (missing, NaN, wide and NaN-like strings included), beside constant, distinct and equally named columns, x 14 selections (names bare and full, repeated, unknown, ambiguous, none) x constants only or not x integers as doubles or not x aggregated or not; afterwards decoding and the spans again", one},
        {"several-frames", "every pair of sequences of 0-2 (3) values in two frames, alone, after or around a frame with other columns, aggregated or not x 5 selections x both modes", several},
        {"other-codecs", "25 type/codec pairs x every sequence of 1-2 (3) values, the first perhaps repeated, x row marker policy (including leading missing values left out of the first row) x byte order x alone or with a second frame (constant, or the same in the other byte order), written by the reference implementation", otherCodecs},
    };
}
