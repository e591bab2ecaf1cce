// C17: SQL selection returns exactly the rows and values the query asks for.
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <optional>
#include <set>

#include "eckit/io/MemoryHandle.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "flat.h"

using namespace H;

namespace {

const double RMISS = -2147483647.0, IMISS = 2147483647.0;

// ---- values, with SQL's null

struct V {
    bool null = false, str = false;
    double d = 0;
    std::string s;
    int marker = 0;  // which stands for null
};
V num(double d) { return {false, false, d, ""}; }
V text(const std::string& s) { return {false, true, 0, s}; }
V null() { return {true, false, 0, ""}; }
std::string show(const V& v) { return v.null ? "NULL" : v.str ? "'" + v.s + "'" : mc::fmt("%.17g", v.d ? v.d : 0); }  // n.b. -0 may become 0
bool lessV(const V& a, const V& b) { return a.str ? a.s < b.s : a.d < b.d; }

// the columns of the table: i INTEGER, r DOUBLE, s STRING, b BITFIELD x:2 y:3
struct R {
    V i, r, s, b;
    int x0 = 0, xn = 2, y0 = 2, yn = 3;  // first bit and number of bits of b.x and b.y
};
V bits(const V& b, int shift, int n) { return b.null ? b : num((long(b.d) >> shift) & ((1 << n) - 1)); }
V bitX(const R& r) { return bits(r.b, r.x0, r.xn); }
V bitY(const R& r) { return bits(r.b, r.y0, r.yn); }

using Expr = std::function<V(const R&)>;
using Cond = std::function<std::optional<bool>(const R&)>;

V arith(const V& a, const V& b, char op) {
    if (a.null || b.null)
        return null();
    return num(op == '+' ? a.d + b.d : op == '-' ? a.d - b.d : op == '*' ? a.d * b.d : a.d / b.d);
}
std::optional<bool> cmp(const V& a, const V& b, const std::string& op) {
    if (a.null || b.null)
        return {};
    int c = lessV(a, b) ? -1 : lessV(b, a) ? 1 : 0;
    return op == "=" ? c == 0 : op == "<>" ? c != 0 : op == "<" ? c < 0 : op == ">" ? c > 0 : op == "<=" ? c <= 0 : c >= 0;
}
std::optional<bool> both(std::optional<bool> a, std::optional<bool> b) {
    if ((a && !*a) || (b && !*b))
        return false;
    if (!a || !b)
        return {};
    return true;
}
std::optional<bool> either(std::optional<bool> a, std::optional<bool> b) {
    if ((a && *a) || (b && *b))
        return true;
    if (!a || !b)
        return {};
    return false;
}
std::optional<bool> no(std::optional<bool> a) {
    if (!a)
        return a;
    return !*a;
}

enum Agg { NONE, COUNTALL, COUNT, SUM, MIN, MAX, AVG };
struct Item {
    std::string sql, name;  // name of the output column, if it is a column of the table
    int type;               // 0: any
    Expr e;
    Agg agg = NONE;
};

Expr colI = [](const R& r) { return r.i; }, colR = [](const R& r) { return r.r; }, colS = [](const R& r) { return r.s; },
     colB = [](const R& r) { return r.b; };
Expr colX = bitX, colY = bitY;

struct List {
    std::string sql;
    bool distinct;
    std::vector<Item> items;
};

const std::vector<List>& lists() {
    static std::vector<List> l = [] {
        Item i{"i", "i@t", INTEGER, colI}, ifull{"i@t", "i@t", INTEGER, colI}, r{"r", "r@t", DOUBLE, colR}, s{"s", "s@t", STRING, colS},
            b{"b", "b@t", BITFIELD, colB}, x{"b.x", "b.x@t", INTEGER, colX}, y{"b.y@t", "b.y@t", INTEGER, colY};
        auto ex = [](const char* sql, Expr e) { return Item{sql, "", 0, e}; };
        auto ag = [](const char* sql, Agg a, Expr e) { return Item{sql, "", 0, e, a}; };
        Expr one = [](const R&) { return num(1); };
        Item count = ag("count(*)", COUNTALL, one), nr = ag("count(r)", COUNT, colR), sum = ag("sum(r)", SUM, colR), mn = ag("min(r)", MIN, colR),
             mx = ag("max(r)", MAX, colR), avg = ag("avg(r)", AVG, colR), si = ag("sum(i)", SUM, colI), sp = ag("sum(r + i)", SUM, [](const R& r) { return arith(r.r, r.i, '+'); });
        std::vector<List> l{
            {"*", false, {i, r, s, b}},
            {"", false, {i}},
            {"", false, {s, ifull}},
            {"", false, {b, x, y}},
            {"", false, {i, i, s}},
            {"", false, {ex("i + r", [](const R& r) { return arith(r.i, r.r, '+'); }), ex("r * 2", [](const R& r) { return arith(r.r, num(2), '*'); }), s}},
            {"", false, {ex("-i", [](const R& r) { return arith(num(0), r.i, '-'); }), ex("r / i", [](const R& r) { return arith(r.r, r.i, '/'); }), ex("1 - b.x", [](const R& r) { return arith(num(1), bitX(r), '-'); })}},
            {"", false, {ex("1", one), s, ex("'xy'", [](const R&) { return text("xy"); })}},
            {"", false, {count}},
            {"", false, {count, nr, sum, mn, mx, avg, si}},
            {"", false, {s, count, sp}},
            {"", false, {sum, i, nr}},
            {"", false, {x, s, mx}},
            {"", true, {s}},
            {"", true, {i, s}},
            {"", true, {b, r}},
        };
        for (auto& e : l) {
            if (!e.sql.empty())
                continue;
            for (auto& it : e.items)
                e.sql += (e.sql.empty() ? "" : ", ") + it.sql;
            if (e.distinct)
                e.sql = "distinct " + e.sql;
        }
        return l;
    }();
    return l;
}

struct Where {
    std::string sql;
    Cond c;
};
const std::vector<Where>& wheres() {
    static std::vector<Where> w{
        {"", nullptr},
        {"i > 0", [](const R& r) { return cmp(r.i, num(0), ">"); }},
        {"r <= 1", [](const R& r) { return cmp(r.r, num(1), "<="); }},
        {"s = 'a'", [](const R& r) { return cmp(r.s, text("a"), "="); }},
        {"s <> 'a'", [](const R& r) { return cmp(r.s, text("a"), "<>"); }},
        {"s > 'a'", [](const R& r) { return cmp(r.s, text("a"), ">"); }},
        {"s = 'abcdefghij'", [](const R& r) { return cmp(r.s, text("abcdefghij"), "="); }},
        {"i is null", [](const R& r) { return std::optional<bool>(r.i.null); }},
        {"r is not null", [](const R& r) { return std::optional<bool>(!r.r.null); }},
        {"b.x = 1", [](const R& r) { return cmp(bitX(r), num(1), "="); }},
        {"b.y@t >= 2 and i < 5", [](const R& r) { return both(cmp(bitY(r), num(2), ">="), cmp(r.i, num(5), "<")); }},
        {"not r > 1", [](const R& r) { return no(cmp(r.r, num(1), ">")); }},
        {"not (b.x = 1 and b.y = 2)", [](const R& r) { return no(both(cmp(bitX(r), num(1), "="), cmp(bitY(r), num(2), "="))); }},
        {"i in (2, -1)", [](const R& r) { return either(cmp(r.i, num(2), "="), cmp(r.i, num(-1), "=")); }},
        {"r between 0.25 and 1", [](const R& r) { return both(cmp(r.r, num(0.25), ">="), cmp(r.r, num(1), "<=")); }},
        {"i = r", [](const R& r) { return cmp(r.i, r.r, "="); }},
        {"i is null or r is null", [](const R& r) { return std::optional<bool>(r.i.null || r.r.null); }},
        {"i + r > 2", [](const R& r) { return cmp(arith(r.i, r.r, '+'), num(2), ">"); }},
    };
    return w;
}

struct Order {
    std::string sql;
    std::vector<std::pair<Expr, bool>> keys;  // descending
};
const std::vector<Order>& orders() {
    static std::vector<Order> o{
        {"", {}},
        {"i", {{colI, false}}},
        {"r desc", {{colR, true}}},
        {"s", {{colS, false}}},
        {"s desc, i", {{colS, true}, {colI, false}}},
        {"b.x", {{colX, false}}},
    };
    return o;
}

// ---- the reference

struct Result {
    std::vector<std::vector<V>> rows;
    std::vector<std::vector<V>> keys;  // of the order, where it is asked for
    bool ordered;                      // rows come in the order of the table
};

std::string rowKey(const std::vector<V>& r) {
    std::string s;
    for (auto& v : r)
        s += show(v) + "|";
    return s;
}

// byMarker: nulls are the same only if they are marked by the same value, and distinct strings if they have the same width; width: strings are ordered by as many characters
Result evaluate(const List& l, const Where& w, const Order& o, const std::vector<R>& rows, bool byMarker = false, size_t width = 0) {
    auto groupKey = [&](const std::vector<V>& r) {
        std::string s = rowKey(r);
        for (auto& v : r)
            if (byMarker && (v.null || (v.str && l.distinct)))
                s += mc::fmt("%d|", v.marker);
        return s;
    };
    Result res;
    res.ordered = !l.distinct && o.keys.empty();
    std::vector<const R*> sel;
    for (auto& r : rows) {
        auto c = w.c ? w.c(r) : std::optional<bool>(true);
        if (c && *c)
            sel.push_back(&r);
    }
    bool agg = false;
    for (auto& i : l.items)
        agg = agg || i.agg != NONE;
    if (agg) {
        res.ordered = false;
        std::vector<std::pair<std::string, std::vector<const R*>>> groups;
        for (auto* r : sel) {
            std::vector<V> k;
            for (auto& i : l.items)
                if (i.agg == NONE)
                    k.push_back(i.e(*r));
            std::string key = groupKey(k);
            auto g = std::find_if(groups.begin(), groups.end(), [&](auto& x) { return x.first == key; });
            if (g == groups.end())
                groups.push_back({key, {r}});
            else
                g->second.push_back(r);
        }
        for (auto& g : groups) {
            std::vector<V> out;
            for (auto& i : l.items) {
                if (i.agg == NONE) {
                    out.push_back(i.e(*g.second[0]));
                    continue;
                }
                int n      = 0;
                double sum = 0, mn = 0, mx = 0;
                for (auto* r : g.second) {
                    V v = i.e(*r);
                    if (v.null)
                        continue;
                    mn = n ? std::min(mn, v.d) : v.d;
                    mx = n ? std::max(mx, v.d) : v.d;
                    sum += v.d;
                    n++;
                }
                out.push_back(i.agg == COUNTALL || i.agg == COUNT ? num(n)
                              : !n                                ? null()
                              : i.agg == SUM                      ? num(sum)
                              : i.agg == MIN                      ? num(mn)
                              : i.agg == MAX                      ? num(mx)
                                                                  : num(sum / n));
            }
            res.rows.push_back(out);
        }
        return res;
    }
    std::vector<std::string> seen;
    for (auto* r : sel) {
        std::vector<V> out;
        for (auto& i : l.items)
            out.push_back(i.e(*r));
        if (l.distinct) {
            std::string k = groupKey(out);
            if (std::find(seen.begin(), seen.end(), k) != seen.end())
                continue;
            seen.push_back(k);
        }
        res.rows.push_back(out);
        std::vector<V> key;
        for (auto& k : o.keys)
            key.push_back(k.first(*r));
        for (auto& k : key)
            if (width && k.str)
                k.s = k.s.substr(0, width);
        res.keys.push_back(key);
    }
    if (!o.keys.empty()) {
        std::vector<size_t> idx;
        for (size_t i = 0; i < res.rows.size(); i++)
            idx.push_back(i);
        auto less = [&](size_t a, size_t b) {
            for (size_t k = 0; k < o.keys.size(); k++) {
                V x = res.keys[a][k], y = res.keys[b][k];
                if (o.keys[k].second)
                    std::swap(x, y);
                if (x.null != y.null)
                    return y.null;
                if (lessV(x, y))
                    return true;
                if (lessV(y, x))
                    return false;
            }
            return false;
        };
        std::stable_sort(idx.begin(), idx.end(), less);
        Result s = res;
        for (size_t i = 0; i < idx.size(); i++) {
            s.rows[i] = res.rows[idx[i]];
            s.keys[i] = res.keys[idx[i]];
        }
        res = s;
    }
    return res;
}

// ---- what the library gives

struct Got {
    std::vector<std::vector<V>> rows;
    std::vector<std::string> names;
    std::vector<int> types;
    std::vector<std::string> bits;  // the definition of b, for every row
    std::string error;
    long count = -1;  // rows reported as written
};

std::string bitsText(const std::vector<std::pair<std::string, int>>& b) {
    std::string s;
    for (auto& x : b)
        s += x.first + mc::fmt(":%d ", x.second);
    return s;
}
std::string bitsText(const R& r) { return r.x0 < r.y0 ? mc::fmt("x:%d y:%d ", r.xn, r.yn) : mc::fmt("y:%d x:%d ", r.yn, r.xn); }

V value(int type, const Raw& raw, double missing) {
    if (type == STRING)
        return text(raw.substr(0, raw.find_last_not_of('\0') + 1));
    double d = asD(raw);
    return d == missing ? null() : num(d);
}

Got viaSelect(const std::string& sql, const std::string& bytes) {
    AsDoubles ad;
    Got g;
    g.error = thrown([&] {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::Select sel(sql, mh);
        auto it = sel.begin(), end = sel.end();
        for (; it != end; ++it) {
            auto& md = it->columns();
            std::vector<V> row;
            g.names.clear();
            g.types.clear();
            for (size_t c = 0; c < md.size(); c++) {
                if (md[c]->type() == odc::api::BITFIELD) {
                    auto def = md[c]->bitfieldDef();
                    std::string b;
                    for (size_t k = 0; k < def.first.size(); k++)
                        b += def.first[k] + mc::fmt(":%d ", int(def.second[k]));
                    g.bits.push_back(b);
                }
                g.names.push_back(md[c]->name());
                g.types.push_back(int(md[c]->type()));
                row.push_back(value(g.types[c], Raw((const char*)&it->data(c), 8 * md[c]->dataSizeDoubles()), md[c]->missingValue()));
            }
            g.rows.push_back(row);
        }
    });
    return g;
}

void addFrame(Got& g, const Frame& f) {
    g.names.clear();
    g.types.clear();
    for (auto& c : f.cols) {
        g.names.push_back(c.name);
        g.types.push_back(c.type);
    }
    for (auto& r : f.rows) {
        std::vector<V> row;
        for (auto& c : f.cols)
            if (c.type == BITFIELD)
                g.bits.push_back(bitsText(c.bits));
        for (size_t c = 0; c < f.cols.size(); c++)
            row.push_back(value(f.cols[c].type, r[c], f.cols[c].type == INTEGER || f.cols[c].type == BITFIELD ? IMISS : RMISS));
        g.rows.push_back(row);
    }
}
Got fromBytes(const std::string& out) {
    Got g;
    if (!out.empty())
        g.error = thrown([&] {
            for (auto& f : readAllCpp(out))
                addFrame(g, f);
        });
    return g;
}

Got viaFilter(const std::string& sql, const std::string& bytes) {
    AsDoubles ad;
    std::string out;
    long count      = -1;
    std::string err = thrown([&] {
        eckit::MemoryHandle in(bytes.data(), bytes.size()), mh;
        in.openForRead();
        mh.openForWrite(0);
        size_t n = odc::api::filter(sql, in, mh);
        count    = long(n);
        out.assign((const char*)mh.data(), size_t(mh.position()));
    });
    Got g;
    if (err.empty()) {
        g       = fromBytes(out);
        g.count = count;
        return g;
    }
    g.error = err;
    return g;
}

Got viaInto(const std::string& sql, const std::string& bytes) {
    AsDoubles ad;
    std::string dir = mc::scratchDir(), in = dir + "/c17.in", out = dir + "/c17.out";
    writeFile(in, bytes);
    unlink(out.c_str());
    // "select LIST [where ...]" -> "select LIST into "out" from "in" [where ...]"
    size_t p = std::min(sql.find(" where "), sql.find(" order by "));
    std::string q = sql.substr(0, p) + " into \"" + out + "\" from \"" + in + "\"" + (p == std::string::npos ? "" : sql.substr(p));
    std::string err = thrown([&] {
        odc::Select sel(q);
        for (auto it = sel.begin(), end = sel.end(); it != end; ++it)
            ;
    });
    if (err.empty())
        return fromBytes(readFile(out));
    Got g;
    g.error = err;
    return g;
}

// frame by frame, where the frames are aggregated as far as possible
Got viaFrame(const std::string& sql, const std::string& bytes, int* nframes) {
    AsDoubles ad;
    Got g;
    *nframes = 0;
    g.error  = thrown([&] {
        odc::api::Reader r(new eckit::MemoryHandle(bytes.data(), bytes.size()));
        while (odc::api::Frame f = r.next()) {
            ++*nframes;
            odc::api::Frame out = f.filter(sql);
            if (out)
                addFrame(g, decodeFrameCpp(out));
        }
    });
    return g;
}

enum Via { SELECT, FILTER, INTO, FRAME, NVIA };
const char* viaName[] = {"Select", "filter", "select into", "Frame::filter"};

bool sameRows(const Order& o, const Result& want, const Got& got);

std::string list(const std::vector<std::vector<V>>& rows) {
    std::string s;
    for (auto& r : rows)
        s += "(" + rowKey(r) + ") ";
    return s;
}

void judge(mc::Ctx& ctx, const std::string& key, const std::string& what, const List& l, const Order& o, const Result& want, const Got& got) {
    if (!got.error.empty())
        return ctx.fail(key + " fails", what + " fails: " + got.error);
    for (size_t c = 0; c < l.items.size() && !got.rows.empty(); c++) {
        if (got.names.size() != l.items.size())
            return ctx.fail(key + " columns", what + mc::fmt(" gives %zu columns", got.names.size()));
        if (!l.items[c].name.empty() && got.names[c] != l.items[c].name && got.names[c] + "@t" != l.items[c].name && got.names[c] != l.items[c].sql)
            return ctx.fail(key + " columns", what + " names a column " + got.names[c]);
        if (l.items[c].type && l.items[c].type != got.types[c])
            return ctx.fail(key + " columns", what + mc::fmt(" gives column %zu the type %s", c, tname(got.types[c])));
    }
    if (got.count >= 0 && got.count != long(got.rows.size()))
        ctx.fail(key + " count", what + mc::fmt(" reports %ld rows and writes %zu", got.count, got.rows.size()));
    if (!sameRows(o, want, got))
        ctx.fail(key + " rows", what + " gives " + list(got.rows) + "instead of " + list(want.rows));
}

bool sameRows(const Order& o, const Result& want, const Got& got) {
    std::vector<std::string> a, b;
    for (auto& r : got.rows)
        a.push_back(rowKey(r));
    for (auto& r : want.rows)
        b.push_back(rowKey(r));
    bool ok;
    if (want.ordered)
        ok = a == b;
    else if (!o.keys.empty() && want.keys.size() == want.rows.size()) {
        // rows with equal keys may come in any order, and those with a null key anywhere
        auto x = a, y = b;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        ok = x == y;
        std::vector<std::string> nulls, a2 = a, b2;
        std::vector<std::string> keys;
        for (size_t i = 0; i < b.size(); i++) {
            bool n = false;
            for (auto& k : want.keys[i])
                n = n || k.null;
            if (n)
                nulls.push_back(b[i]);
            else {
                b2.push_back(b[i]);
                keys.push_back(rowKey(want.keys[i]));
            }
        }
        bool ambiguous = false;
        for (auto& n : nulls) {
            ambiguous = ambiguous || std::find(b2.begin(), b2.end(), n) != b2.end();
            auto f    = std::find(a2.begin(), a2.end(), n);
            if (f != a2.end())
                a2.erase(f);
        }
        if (ok && !ambiguous) {
            size_t i = 0;
            while (ok && i < b2.size()) {
                size_t j = i + 1;
                while (j < b2.size() && keys[j] == keys[i])
                    j++;
                std::sort(a2.begin() + i, a2.begin() + j);
                std::sort(b2.begin() + i, b2.begin() + j);
                ok = std::equal(a2.begin() + i, a2.begin() + j, b2.begin() + i);
                i  = j;
            }
        }
    }
    else {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        ok = a == b;
    }
    return ok;
}

const Col ci{"i@t", INTEGER, 1, {}}, cr{"r@t", DOUBLE, 1, {}}, cs{"s@t", STRING, 1, {}}, cs2{"s@t", STRING, 2, {}}, cb{"b@t", BITFIELD, 1, {{"x", 2}, {"y", 3}}};

Row rowOf(const R& r, int w) {
    return {rI(r.i.null ? 2147483647 : long(r.i.d)), rD(r.r.null ? RMISS : r.r.d), rS(r.s.s, w), rI(r.b.null ? 2147483647 : long(r.b.d))};
}

// the rows tables are made of
const std::vector<R>& alphabet() {
    static std::vector<R> a{
        {num(2), num(0.5), text("a"), num(9)},    {num(-1), null(), text("abcdefghij"), num(0)}, {null(), num(2), text(""), null()},
        {num(2), num(2), text("a"), num(31)},     {num(-1), num(0.5), text("b"), num(1)},        {null(), null(), text("a"), num(4)},
        {num(70000), num(-3), text("b"), null()},
    };
    return a;
}

std::string query(const List& l, const Where& w, const Order& o) {
    return "select " + l.sql + (w.c ? " where " + w.sql : "") + (o.keys.empty() ? "" : " order by " + o.sql);
}

// every query of the grammar over every small table, split in every way
void queries(mc::Ctx& ctx) {
    auto& l = lists()[ctx.choose(lists().size(), "list")];
    auto& w = wheres()[ctx.choose(wheres().size(), "where")];
    auto& o = orders()[ctx.choose(orders().size(), "order")];
    bool agg = false;
    for (auto& i : l.items)
        agg = agg || i.agg != NONE;
    if (!o.keys.empty()) {
        if (agg && o.sql != "s")
            ctx.skip();
        if (agg && l.items[0].sql != "s")
            ctx.skip();
        if (l.distinct && l.sql.find(o.sql.substr(0, 1)) == std::string::npos)  // ordering by what is not selected
            ctx.skip();
        if (l.distinct && o.keys.size() > 1)
            ctx.skip();
        if (l.distinct && (o.sql == "b.x" || o.sql == "i" || o.sql == "s") && l.sql.find(o.sql) == std::string::npos)
            ctx.skip();
    }
    ctx.shard();
    int maxRows = ctx.thorough ? 3 : 2;
    int n       = 1 + ctx.choose(maxRows, "rows less one");
    int nalpha  = n == 3 ? 5 : int(alphabet().size());
    std::vector<R> rows;
    for (int i = 0; i < n; i++)
        rows.push_back(alphabet()[ctx.choose(nalpha, "row")]);
    int split = ctx.choose(1 << (n - 1), "split");
    // frames have strings as wide as they need
    std::string bytes;
    for (int i = 0; i < n;) {
        Tab t;
        int j = i + 1;
        while (j < n && !(split >> (j - 1) & 1))
            j++;
        size_t longest = 0;
        for (int k = i; k < j; k++)
            longest = std::max(longest, rows[k].s.s.size());
        t.cols = {ci, cr, longest > 8 ? cs2 : cs, cb};
        for (int k = i; k < j; k++) {
            t.rows.push_back(rowOf(rows[k], longest > 8 ? 2 : 1));
            rows[k].s.marker = longest > 8 ? 2 : 1;
        }
        bytes += encodeCpp(t, ROWMAJOR);
        i = j;
    }
    std::string sql = query(l, w, o);
    Result want     = evaluate(l, w, o, rows);
    if (!want.rows.empty() && (want.rows.size() < rows.size() || agg || l.distinct || split))
        ctx.nontrivial();
    std::string data;
    for (auto& r : rows)
        data += rowKey({r.i, r.r, r.s, r.b}) + " ";
    for (int via = 0; via < NVIA; via++) {
        int nframes = 1;
        Got g       = via == SELECT ? viaSelect(sql, bytes) : via == FILTER ? viaFilter(sql, bytes) : via == INTO ? viaInto(sql, bytes) : viaFrame(sql, bytes, &nframes);
        if (via == FRAME && nframes > 1 && (agg || l.distinct || !o.keys.empty()))
            continue;
        if ((via == INTO || via == FILTER || via == FRAME) && l.sql == "i, i, s")
            continue;  // a table cannot have two columns with one name
        if (l.distinct && g.error.empty() && !sameRows(o, want, g) && sameRows(o, evaluate(l, w, o, rows, true), g))
            ctx.fail("DISTINCT takes a string for another one in a frame of another width", "\"" + sql + "\" of " + data + mc::fmt("split %d", split) + " gives " + list(g.rows));
        judge(ctx, std::string(viaName[via]) + ": " + l.sql, std::string(viaName[via]) + " \"" + sql + "\" of " + data + mc::fmt("split %d", split), l, o, want, g);
    }
}

// ---- frames of different structure

struct Variant {
    const char* name;
    Tab t;
    std::vector<R> rows;
    std::string lacks;  // columns which are not there
    std::string other;  // columns of another type
};
std::string encodeVariant(const Tab& t, int customI) {
    if (!customI)
        return encodeCpp(t, ROWMAJOR);
    // missing values of its own
    std::string path = mc::scratchDir() + "/c17.part";
    {
        odc::Writer<> w{eckit::PathName(path)};
        auto it = w.begin();
        it->setNumberOfColumns(t.cols.size());
        for (size_t c = 0; c < t.cols.size(); c++) {
            if (t.cols[c].type == BITFIELD) {
                eckit::sql::BitfieldDef b;
                for (auto& x : t.cols[c].bits) {
                    b.first.push_back(x.first);
                    b.second.push_back(x.second);
                }
                it->setBitfieldColumn(c, t.cols[c].name, odc::api::ColumnType(BITFIELD), b);
            }
            else
                it->setColumn(c, t.cols[c].name, odc::api::ColumnType(t.cols[c].type));
            if (t.cols[c].type == STRING)
                const_cast<odc::core::MetaData&>(it->columns())[c]->dataSizeDoubles(t.cols[c].w);
        }
        it->missingValue(0, 7);
        it->missingValue(1, 0.5);
        (**it).writeHeader();
        for (auto& r : t.rows) {
            for (size_t c = 0; c < t.cols.size(); c++)
                memcpy(&it->data(c), r[c].data(), r[c].size());
            ++it;
        }
        (**it).close();
    }
    return readFile(path);
}
const std::vector<Variant>& variants() {
    static std::vector<Variant> v = [] {
        Col s3 = cs2, z{"z@t", REAL, 1, {}}, bd = cb, bo = cb, id = ci, rr = cr, si{"s@t", INTEGER, 1, {}}, iu = ci, bi = cb;
        s3.w    = 3;
        bd.bits = {{"x", 3}, {"y", 2}};
        bo.bits = {{"y", 3}, {"x", 2}};
        id.type = DOUBLE;
        rr.type = REAL;
        iu.name = "i@u";
        bi.type = INTEGER;
        bi.bits.clear();
        auto al = alphabet();
        auto mk = [](const char* n, std::vector<Col> cols, std::vector<Row> rows, std::vector<R> r, std::string lacks = "", std::string other = "") {
            Variant v;
            v.name   = n;
            v.t.cols = cols;
            v.t.rows = rows;
            v.rows   = r;
            v.lacks  = lacks;
            v.other  = other;
            return v;
        };
        std::vector<Variant> v;
        v.push_back(mk("base", {ci, cr, cs, cb}, {rowOf(al[0], 1), rowOf(al[2], 1)}, {al[0], al[2]}));
        {
            Row a = rowOf(al[4], 1), b = rowOf(al[5], 1);
            v.push_back(mk("permuted", {cb, cs, cr, ci}, {{a[3], a[2], a[1], a[0]}, {b[3], b[2], b[1], b[0]}}, {al[4], al[5]}));
        }
        {
            R x = al[0];
            x.s = text("abcdefghijklmnopqrstuvwx");
            v.push_back(mk("wider string", {ci, cr, s3, cb}, {rowOf(x, 3), rowOf(al[1], 3)}, {x, al[1]}));
        }
        {
            Row a = rowOf(al[3], 1);
            v.push_back(mk("another column first", {z, ci, cr, cs, cb}, {{rD(1), a[0], a[1], a[2], a[3]}}, {al[3]}));
        }
        {
            // 7 and 0.5 are missing, and the usual markers are ordinary values; n.b. with more than one value each
            R a = al[0], b = al[3];
            a.i = null();
            a.i.marker = 1;
            a.r = num(2);
            b.i = num(3);
            b.r = null();
            b.r.marker = 1;
            Row ra = rowOf(a, 1), rb = rowOf(b, 1);
            ra[0] = rI(7);
            rb[1] = rD(0.5);
            v.push_back(mk("other missing values", {ci, cr, cs, cb}, {ra, rb}, {a, b}));
        }
        {
            R a = al[3], b = al[0];
            a.xn = b.xn = 3;
            a.y0 = b.y0 = 3;
            a.yn = b.yn = 2;
            a.b = num(6);
            b.b = num(25);
            v.push_back(mk("other bitfield sizes", {ci, cr, cs, bd}, {rowOf(a, 1), rowOf(b, 1)}, {a, b}));
            a.yn = b.yn = 3;
            a.y0 = b.y0 = 0;
            a.x0 = b.x0 = 3;
            a.xn = b.xn = 2;
            v.push_back(mk("other bitfield order", {ci, cr, cs, bo}, {rowOf(a, 1), rowOf(b, 1)}, {a, b}));
        }
        {
            Row a = rowOf(al[3], 1);
            v.push_back(mk("no s", {ci, cr, cb}, {{a[0], a[1], a[3]}}, {al[3]}, "s"));
            v.push_back(mk("i of another table", {iu, cr, cs, cb}, {a}, {al[3]}, "i"));
            a[0] = rD(7.5);
            R x  = al[3];
            x.i  = num(7.5);
            v.push_back(mk("i DOUBLE", {id, cr, cs, cb}, {a}, {x}, "", "i"));
            a = rowOf(al[3], 1);
            v.push_back(mk("r REAL", {ci, rr, cs, cb}, {a}, {al[3]}));
            a[1] = rD(0.1);
            x    = al[3];
            x.r  = num(0.1);
            v.push_back(mk("r 0.1", {ci, cr, cs, cb}, {a}, {x}));
            a[1] = rD(2);
            a[2] = rI(5);
            v.push_back(mk("s INTEGER", {ci, cr, si, cb}, {a}, {al[3]}, "", "s!"));
            a = rowOf(al[3], 1);
            v.push_back(mk("b INTEGER", {ci, cr, cs, bi}, {a}, {al[3]}, "", "b"));
        }
        v.push_back(mk("no rows", {ci, cr, cs, cb}, {}, {}));
        return v;
    }();
    return v;
}
const std::string& variantBytes(int k) {
    static std::map<int, std::string> cache;
    auto& b = cache[k];
    if (b.empty())
        b = encodeVariant(variants()[k].t, !strcmp(variants()[k].name, "other missing values"));
    return b;
}
// does the query use the column?
bool mentions(const std::string& sql, char col) {
    for (size_t i = 7; i < sql.size(); i++) {
        if (sql[i] == '\'') {
            i = sql.find('\'', i + 1);
            continue;
        }
        if (sql[i] == col && !isalpha(sql[i - 1]) && sql[i - 1] != '.' && sql[i - 1] != '@' && (i + 1 == sql.size() || !isalpha(sql[i + 1])))
            return true;
    }
    return sql.find("select *") == 0;
}

void structures(mc::Ctx& ctx) {
    static const std::vector<int> ws{0, 1, 3, 9, 8}, os{0, 3};
    auto& l = lists()[ctx.choose(lists().size(), "list")];
    auto& w = wheres()[ws[ctx.choose(ws.size(), "where")]];
    auto& o = orders()[os[ctx.choose(os.size(), "order")]];
    bool agg = false;
    for (auto& i : l.items)
        agg = agg || i.agg != NONE;
    if (!o.keys.empty() && ((agg && l.items[0].sql != "s") || (l.distinct && l.sql.find("s") == std::string::npos)))
        ctx.skip();
    ctx.shard();
    int n = 2 + (ctx.thorough ? ctx.choose(2, "frames") : 0);
    std::vector<R> rows;
    std::string bytes, what, sql = query(l, w, o), other;
    std::vector<const Variant*> frames;
    for (int i = 0; i < n; i++) {
        int k   = ctx.choose(variants().size(), "frame");
        auto& v = variants()[k];
        bytes += variantBytes(k);
        for (auto& r : v.rows)
            rows.push_back(r);
        what += std::string(i ? ", " : "") + v.name;
        if (!v.rows.empty())  // which readers of rows do not show
            frames.push_back(&v);
    }
    if (frames.empty())
        frames.push_back(&variants().back());
    // the table has the columns and the types of the first frame; a frame without one of them cannot be selected from
    bool refuse = false, otherTable = frames[0]->lacks == "i";
    size_t numbers = 0;
    for (auto* v : frames)
        numbers += v->other == "s!";
    if (mentions(sql, 's')) {
        if (numbers == frames.size())
            ctx.skip();
        refuse = numbers;
    }
    for (auto* v : frames) {
        refuse = refuse || (v->lacks == "s" && mentions(sql, 's'));
        if (mentions(sql, 'i'))
            refuse = refuse || (v->lacks == "i") != otherTable || (v->lacks == "i" && sql.find("i@t") != std::string::npos);
        other += v->other;
    }
    if (l.sql == "*") {
        std::string names;
        for (auto& c : frames[0]->t.cols)
            names += c.name + " ";
        if (names != "i@t r@t s@t b@t ")
            ctx.skip();
    }
    bool may = refuse;
    for (char c : {'i', 's', 'b'})
        may = may || (other.find(c) != std::string::npos && mentions(sql, c));
    Result want = evaluate(l, w, o, rows);
    List lx = l;
    for (auto& i : lx.items)
        i.type = 0, i.name = "";
    if (!want.rows.empty())
        ctx.nontrivial();
    bool whole = false;  // is the bitfield itself selected?
    for (auto& i : l.items)
        whole = whole || i.sql == "b";
    std::pair<std::string, std::string> known;  // reported only if there is nothing else
    for (int via = 0; via < FRAME; via++) {
        Got g = via == SELECT ? viaSelect(sql, bytes) : via == FILTER ? viaFilter(sql, bytes) : viaInto(sql, bytes);
        if (via != SELECT && l.sql == "i, i, s")
            continue;
        if (may && !g.error.empty()) {
            ctx.outcome("refused");
            continue;
        }
        std::string key = std::string(viaName[via]) + " of " + what, msg = std::string(viaName[via]) + " \"" + sql + "\" of " + what;
        if (refuse) {
            ctx.fail(key + " not refused", msg + mc::fmt(" gives %zu rows, although a column is not there", g.rows.size()));
            continue;
        }
        if (g.error.empty() && !sameRows(o, want, g)) {
            // the known departures, and what becomes of several at once
            static const char* const departures[] = {"missing values marked differently are different groups", "DOUBLE values are truncated where the first frame has an INTEGER column",
                                                     "DOUBLE values are rounded where the first frame has a REAL column",
                                                     "ORDER BY compares strings up to the width in the first frame"};
            size_t width = 0;
            for (auto& c : frames[0]->t.cols)
                if (c.type == STRING)
                    width = 8 * c.w;
            bool explained = false;
            for (int some : {1, 2, 4, 8, 3, 5, 6, 9, 10, 12, 7, 11, 13, 14, 15}) {
                if ((some & 6) && via == SELECT)
                    continue;
                std::vector<R> changed = rows;
                for (auto& r : changed) {
                    if ((some & 2) && !r.i.null && frames[0]->other != "i")
                        r.i.d = trunc(r.i.d);
                    if ((some & 4) && !r.r.null && !strcmp(frames[0]->name, "r REAL"))
                        r.r.d = float(r.r.d);
                }
                if (sameRows(o, evaluate(l, w, o, changed, some & 1, some & 8 ? width : 0), g)) {
                    known     = {departures[some & 1 ? 0 : some & 2 ? 1 : some & 4 ? 2 : 3], msg + " gives " + list(g.rows) + "instead of " + list(want.rows)};
                    explained = true;
                    break;
                }
            }
            if (explained)
                continue;
        }
        judge(ctx, key, msg, lx, o, want, g);
        if (want.ordered && !w.c && other.empty() && whole && g.error.empty() && g.rows.size() == rows.size()) {
            bool same = g.bits.size() == rows.size(), first = same;
            for (size_t r = 0; r < g.bits.size() && r < rows.size(); r++) {
                same  = same && g.bits[r] == bitsText(rows[r]);
                first = first && g.bits[r] == bitsText(rows[0]);
            }
            if (!same && first)
                known = {"a bitfield column keeps the definition of the first frame", msg};
            else if (!same)
                ctx.fail(key + " bitfield", msg + " gives other bitfield definitions");
        }
    }
    if (!known.first.empty())
        ctx.fail(known.first, known.second);
}

// Every short sequence of words is either refused, or gives the same rows through all interfaces; and a query which is
// refused leaves nothing behind.
void texts(mc::Ctx& ctx) {
    static const std::vector<const char*> words{"i", "*", ",", "from", "where", "(", ")", "b.x", "b.none", "none", "count", "=", "1", "'a'", "order by", "distinct", "@t", "-", ";", "$"};
    static std::string bytes;
    if (bytes.empty()) {
        auto& al = alphabet();
        Tab t;
        t.cols = {ci, cr, cs, cb};
        t.rows = {rowOf(al[0], 1), rowOf(al[4], 1)};
        bytes  = encodeCpp(t, ROWMAJOR);
        t.rows = {rowOf(al[2], 1)};
        bytes += encodeCpp(t, ROWMAJOR);
    }
    int n = 1 + ctx.choose(ctx.thorough ? 4 : 3, "words less one");
    std::string sql = "select";
    for (int i = 0; i < n; i++) {
        sql += std::string(" ") + words[ctx.choose(words.size(), "word")];
        if (i == 0)
            ctx.shard();
    }
    if (sql.find("order by - 1") != std::string::npos)
        ctx.skip();  // eckit dereferences an expression of that index
    ctx.at(sql);
    Got a = viaSelect(sql, bytes), b = viaFilter(sql, bytes);
    bool twice = b.error.find("Duplicate column") != std::string::npos;  // which such a table cannot have
    if (!twice && a.error.empty() != b.error.empty())
        ctx.fail("refused by one interface", "\"" + sql + "\": Select: " + (a.error.empty() ? "rows" : a.error) + ", filter: " + (b.error.empty() ? "rows" : b.error));
    if (a.error.empty() && !twice) {
        ctx.nontrivial();
        if (list(a.rows) != list(b.rows))
            ctx.fail("interfaces differ", "\"" + sql + "\": Select gives " + list(a.rows) + ", filter " + list(b.rows));
        ctx.outcome(sql.size());
    }
    Got c = viaSelect("select b.y where i = 2", bytes);
    if (!c.error.empty() || list(c.rows) != "(2|) ")
        ctx.fail("later query", "after \"" + sql + "\", another query gives " + c.error + list(c.rows));
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"queries", "every query of a grammar over every small table split in every way, through every interface", queries},
        {"structures", "every query over every sequence of frames of different structure", structures},
        {"texts", "every sequence of up to four (thorough: five) words, refused or answered alike, and without effect on the next query", texts},
    };
}
