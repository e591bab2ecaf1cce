// C02: missing stays missing, and only missing becomes missing.
#include <float.h>
#include "h.h"
using namespace H;

namespace {

void resetMDI() {
    odc_set_missing_integer(IMDI);
    odc_set_missing_double(RMDI);
}

struct Cfg {
    int type;
    bool asDoubles;
};

Raw cell(const Cfg& k, double v) { return (k.type == REAL || k.type == DOUBLE || k.asDoubles) ? rD(v) : rI(long(v)); }

// decode `bytes` and compare with the columns; miss: missing values in force when each row was encoded
void verify(mc::Ctx& c, const std::string& bytes, const Cfg& k, const std::vector<double>& vals, const std::vector<double>& missOfRow, int api) {
    std::vector<Frame> fs;
    std::string err = thrown([&] { fs = api ? readAllCpp(bytes) : readAllC(bytes); });
    if (!err.empty())
        c.fail("decode-error", err);
    size_t r = 0;
    for (auto& f : fs)
        for (auto& row : f.rows) {
            if (r >= vals.size())
                c.fail("row-count", "too many rows");
            double v = vals[r], m = missOfRow[r];
            double got = (k.type == REAL || k.type == DOUBLE || k.asDoubles) ? asD(row[0]) : double(asI(row[0]));
            bool wasMissing = v == m;
            bool isMiss     = got == m;
            if (wasMissing && !isMiss)
                c.fail("missing-lost", mc::fmt("row %zu: missing value %.17g decoded as %.17g", r, m, got));
            if (!wasMissing && isMiss && !(k.type == REAL && double(float(v)) == m))
                c.fail("became-missing", mc::fmt("row %zu: value %.17g decoded as the missing value %.17g", r, v, m));
            if (!wasMissing) {
                bool same = k.type == REAL ? float(got) == float(v) : got == v;
                if (!same)
                    c.fail("value-changed", mc::fmt("row %zu: value %.17g decoded as %.17g", r, v, got));
            }
            r++;
        }
    if (r != vals.size())
        c.fail("row-count", mc::fmt("%zu rows, expected %zu", r, vals.size()));
}

std::string enc(const Cfg& k, const std::vector<double>& vals, int api, long rpf = 0) {
    Tab t;
    t.cols = {{"c@t", k.type, 1, {}}};
    for (double v : vals)
        t.rows.push_back({cell(k, v)});
    return api ? encodeCpp(t, ROWMAJOR, rpf ? rpf : 10000) : encodeC(t, ROWMAJOR, rpf);
}

std::string showV(const std::vector<double>& v) {
    std::string s;
    for (double x : v)
        s += mc::fmt("%.17g ", x);
    return s;
}

// every present/missing pattern over the values of each range class
void positions(mc::Ctx& c) {
    resetMDI();
    static const std::vector<Cfg> ks = {{INTEGER, false}, {INTEGER, true}, {BITFIELD, false}, {BITFIELD, true}, {REAL, false}, {DOUBLE, false}};
    Cfg k = c.pick(ks);
    odc_integer_behaviour(k.asDoubles ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    bool real = k.type == REAL || k.type == DOUBLE;
    double miss = real ? RMDI : double(IMDI);
    // three present values per class and missing
    std::vector<std::vector<double>> classes;
    if (real) {
        classes = {{1.5, 1.5, 1.5},
                   {0, 1, 0xff},
                   {-FLT_MAX, 1, 2},
                   {FLT_MIN, 1, 2},
                   {-FLT_MAX, FLT_MIN, 0},
                   {-FLT_MAX, -FLT_MAX, -FLT_MAX},
                   {FLT_MIN, FLT_MIN, FLT_MIN},
                   {RMDI - 256, RMDI + 256, 0},
                   {2147483647, -2147483648., 0},
                   {INFINITY, -INFINITY, 0}};
        if (k.type == DOUBLE) {
            classes.push_back({RMDI - 1, RMDI + 1, nextafter(RMDI, 0)});
            classes.push_back({DBL_MAX, -DBL_MAX, DBL_MIN});
        }
    }
    else {
        for (double base : {0., 1., -1., -255., -70000., 1e6, -2147483648., 2147483646. - 0x10001})
            for (double span : {0., 1., 253., 254., 255., 256., 65533., 65534., 65535., 65536.}) {
                if (k.type == BITFIELD && base < 0)
                    continue;
                classes.push_back({base, base + span, base + floor(span / 2)});
            }
        if (k.type == INTEGER)
            classes.push_back({-2147483648., 2147483646., 0});
    }
    const auto& cl = c.pick(classes);
    c.shard();
    int n = 1 + c.choose(c.thorough ? 6 : 4);
    std::vector<double> v;
    bool any = false;
    for (int i = 0; i < n; i++) {
        int a = c.choose(4);
        v.push_back(a == 3 ? miss : cl[a]);
        any |= a == 3;
    }
    if (any && n > 1)
        c.nontrivial();
    c.note(mc::fmt("%s%s: ", tname(k.type), k.asDoubles ? " as doubles" : "") + showV(v));
    std::string b;
    std::string err = thrown([&] { b = enc(k, v, 0); });
    if (!err.empty())
        c.fail("encode-error", err);
    c.outcome(b);
    verify(c, b, k, v, std::vector<double>(n, miss), 0);
}

// every sequence of up to 3 (thorough 4) frames, the missing value being changed between them, then read back under yet another one
void history(mc::Ctx& c) {
    resetMDI();
    static const std::vector<Cfg> ks = {{INTEGER, false}, {INTEGER, true}, {BITFIELD, false}, {REAL, false}, {DOUBLE, false}};
    Cfg k = c.pick(ks);
    odc_integer_behaviour(k.asDoubles ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    bool real = k.type == REAL || k.type == DOUBLE;
    std::vector<double> mds = real ? std::vector<double>{RMDI, 0, -1, 1e30, 0.1, -FLT_MAX, FLT_MIN}
                                   : std::vector<double>{double(IMDI), 0, -1, 255, 65535, -2147483647, 2147483646};
    if (k.type == BITFIELD)
        mds = {double(IMDI), 0, 255, 65535, 2147483646};
    // contents expressed relative to the missing value in force: M (missing), D (the default missing value, now an
    // ordinary one), values near it
    int nf  = 1 + c.choose(c.thorough ? 3 : 2);
    int api = c.flip();
    std::vector<double> vals, missOf;
    std::string bytes, desc;
    bool changed = false;
    for (int f = 0; f < nf; f++) {
        double m = c.pick(mds);
        int content = c.choose(6);
        c.shard();
        if (m != mds[0])
            changed = true;
        if (real)
            CAPI(odc_set_missing_double(m));
        else
            CAPI(odc_set_missing_integer(long(m)));
        double def = mds[0];
        bool negOk = k.type != BITFIELD;
        std::vector<double> v;
        switch (content) {
            case 0: v = {m, m}; break;
            case 1: v = {m, 5, m, 6}; break;
            case 2: v = {7, m, 7}; break;
            case 3: v = {m, m > 0 || negOk && m > -2147483648. ? m - 1 : m + 1, 3}; break;
            case 4: v = {def == m ? 1 : def, m, def == m ? 2 : def}; break;
            case 5: v = {0, 300, m, def, 70000, 255, 65535}; break;
        }
        std::string one;
        std::string err = thrown([&] { one = enc(k, v, api); });
        desc += mc::fmt("[missing %.17g: %s] ", m, showV(v).c_str());
        if (!err.empty()) {
            // refusing is allowed only for a value which cannot be stored
            c.fail("encode-error", desc + err);
        }
        bytes += one;
        for (double x : v) {
            vals.push_back(x);
            missOf.push_back(m);
        }
    }
    // value in force while reading
    int rd = c.choose(2);
    if (rd) {
        if (real)
            odc_set_missing_double(42);
        else
            odc_set_missing_integer(42);
    }
    if (changed)
        c.nontrivial();
    c.note(mc::fmt("%s%s api %d: ", tname(k.type), k.asDoubles ? " as doubles" : "", api) + desc);
    c.outcome(bytes);
    verify(c, bytes, k, vals, missOf, api);
    // getter reports what was set
    if (rd) {
        long mi;
        double md;
        CAPI(odc_missing_integer(&mi));
        CAPI(odc_missing_double(&md));
        if (real ? (md != 42 || mi != IMDI) : (mi != 42 || md != RMDI))
            c.fail("getter", mc::fmt("missing values are %ld, %g after setting one to 42", mi, md));
    }
    resetMDI();
}

// missing in several columns at once: row elision and per column missing values do not interfere
void columns(mc::Ctx& c) {
    resetMDI();
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    Tab t;
    t.cols   = {{"i", INTEGER}, {"s", STRING, 2}, {"r", REAL}, {"d", DOUBLE}, {"b", BITFIELD}};
    int rows = 1 + c.choose(c.thorough ? 4 : 3);
    int present = c.choose(2);
    bool any = false;
    for (int r = 0; r < rows; r++) {
        Row row;
        bool mi = c.flip(), mr = c.flip(), md = c.flip(), mb = c.flip();
        any |= mi || mr || md || mb;
        double k = present ? r : 0;
        row.push_back(mi ? rI(IMDI) : rI(k * 1000));
        row.push_back(rS(present && r == 1 ? "abcdefghij" : "abc", 2));
        row.push_back(mr ? rD(RMDI) : rD(k * 0.5));
        row.push_back(md ? rD(RMDI) : rD(k * 0.25));
        row.push_back(mb ? rI(IMDI) : rI(k));
        t.rows.push_back(row);
        if (r == 1)
            c.shard();
    }
    c.shard();
    if (any && rows > 1)
        c.nontrivial();
    c.note(showTab(t));
    long rpf = 0;
    std::string b;
    std::string err = thrown([&] { b = encodeC(t, ROWMAJOR, rpf); });
    if (!err.empty())
        c.fail("encode-error", err);
    c.outcome(b);
    std::vector<Frame> fs;
    err = thrown([&] { fs = readAllC(b); });
    if (!err.empty())
        c.fail("decode-error", err);
    std::string why;
    if (!matches(t, fs, why))
        c.fail("missing-or-value", why + " in " + showTab(t));
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"positions", "every sequence of <=4 (thorough 6) cells over {three values of each range class around every codec limit and internal marker, missing}; non trivial: a missing value among >=2 rows", positions},
        {"history", "every sequence of <=2 (thorough 3) frames, each under any of 5-7 custom missing values and 6 contents around it, read under the last or another missing value, C and C++ API; non trivial: a custom value", history},
        {"columns", "every present/missing pattern over 4 columns and <=3 (thorough 4) rows, constant or varying values", columns},
    };
}
