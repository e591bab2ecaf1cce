// C22: the file format is exactly the documented one, in both directions.
#include "codecs.h"
#include "odc/Writer.h"
using namespace H;

namespace {

const char* readerNames[] = {"C", "C++ aggregated", "odc::Reader"};

Outcome readBy(int how, const std::string& bytes) {
    if (how == 0)
        return readSource(C_BUFFER, bytes, false);
    if (how == 1)
        return readSource(CPP_MEMORY, bytes, true);
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    odc::Reader r(mh);
    return readLegacy(r);
}

void readForeign(mc::Ctx& c, const Ref::Frame& f, const Tab& t, const std::string& what) {
    bool dbl = c.flip();
    int how  = c.choose(3);
    std::string bytes = Ref::encode(f);
    c.at(mc::fmt("read-%s", how == 2 ? "legacy" : how ? "cpp" : "c"));
    odc_integer_behaviour(dbl ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
    Outcome o = readBy(how, bytes);
    odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
    c.note(what + mc::fmt(" minor %d policy %d integers as %s, %s: %zu frames ", f.minor, f.policy, dbl ? "doubles" : "longs",
                          readerNames[how], o.frames.size()) + o.error);
    std::string why;
    if (!o.error.empty())
        c.fail(mc::fmt("refused-%s", readerNames[how]), what + ": a valid frame is refused: " + o.error);
    if (!matches(dbl ? asDoubles(t) : t, o.frames, why, dbl))
        c.fail(mc::fmt("misread-%s", readerNames[how]), what + ": " + why);
    if (how != 2 && !o.frames.empty() && o.frames[0].props != t.props)
        c.fail("properties", what + ": properties differ");
    c.outcome(mc::hashStr(bytes));
}

// one column, every codec, every sequence of values it can represent
void oneColumn(mc::Ctx& c) {
    Kind k = kinds()[c.choose(kinds().size())];
    int n  = c.choose(c.thorough ? 5 : 4);
    if (c.thorough)
        c.shard();
    std::vector<Row> rows;
    for (int i = 0; i < n; i++) {
        rows.push_back({c.pick(values(k.type))});
        if (i == 0)
            c.shard();
    }
    Ref::Frame f;
    Tab t;
    if (!foreign({k}, rows, f, t))
        c.skip();
    f.minor  = 4 + c.choose(2);
    f.policy = c.choose(2);
    if (n > 1)
        c.nontrivial();
    readForeign(c, f, t, std::string(k.codec) + " " + showTab(t));
}

// several columns: every pair (triple) of codecs, every change pattern, every marker policy
void severalColumns(mc::Ctx& c, int ncols) {
    std::vector<Kind> ks;
    for (int i = 0; i < ncols; i++)
        ks.push_back(kinds()[ncols == 2 || i == 1 ? c.choose(kinds().size()) : std::vector<int>{2, 4, 12, 15, 20, 23}[c.choose(6)]]);
    c.shard();
    static const std::vector<std::vector<int>> seqs = {{0, 0, 0, 0}, {0, 1, 2, 3}, {0, 0, 1, 1}, {0, 1, 0, 1}, {0, 0, 0, 1}};
    std::vector<Row> rows(4);
    for (int i = 0; i < ncols; i++) {
        auto& q   = seqs[c.choose(ncols == 2 || c.thorough ? seqs.size() : 3)];
        auto& val = values(ks[i].type);
        for (int r = 0; r < 4; r++)
            rows[r].push_back(val[(q[r] + 3 * i) % val.size()]);
    }
    Ref::Frame f;
    Tab t;
    if (!foreign(ks, rows, f, t))
        c.skip();
    f.policy = c.choose(3);
    c.nontrivial();
    readForeign(c, f, t, mc::fmt("%s %s ", ks[0].codec, ks[1].codec) + showTab(t));
}

// features the library's writer never uses
void features(mc::Ctx& c) {
    int what = c.choose(7);
    c.shard();
    Ref::Frame f;
    Tab t;
    std::string d;
    if (what == 0) {  // dictionary with unused entries, in any order of index
        std::vector<Row> rows = {{rS("bb", 3)}, {rS("aa", 3)}, {rS("cc", 3)}};
        if (!foreign({{STRING, c.flip() ? "int8_string" : "int16_string"}}, rows, f, t))
            c.skip();
        f.cols[0].dict = {"aa", "bb", "cc", "unused"};
        std::vector<std::vector<int>> perms = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}};
        for (int i : c.pick(perms))
            f.cols[0].dictIndex.push_back(i);
        d = "dictionary in another order";
    }
    else if (what == 1) {  // min and max wider than the data
        std::vector<Row> rows = {{rI(10)}, {rI(12)}};
        const char* cd[] = {"int8", "int16", "int8_missing", "int16_missing"};
        if (!foreign({{INTEGER, cd[c.choose(4)]}}, rows, f, t))
            c.skip();
        f.cols[0].mn = c.pick(std::vector<double>{0, -100, 10, 9});
        f.cols[0].mx = 100;
        d = "range wider than the data";
    }
    else if (what == 2) {  // properties
        std::vector<Row> rows = {{rI(1)}};
        if (!foreign({{INTEGER, "int32"}}, rows, f, t))
            c.skip();
        static const std::vector<std::string> strs = {"", "k", std::string(300, 'x'), "a\nb"};
        int n = c.choose(3);
        for (int i = 0; i < n; i++)
            f.props[mc::fmt("%d", i) + c.pick(strs)] = c.pick(strs);
        t.props = f.props;
        d = "properties";
    }
    else if (what == 3) {  // many columns: markers above 255
        std::vector<Kind> ks(300, Kind{INTEGER, "int8"});
        std::vector<Row> rows(3, Row(300, rI(7)));
        int at = c.pick(std::vector<int>{0, 1, 255, 256, 257, 299});
        rows[1][at] = rI(8);
        rows[2] = rows[1];
        rows[2][c.pick(std::vector<int>{0, 255, 256, 299})] = rI(9);
        if (!foreign(ks, rows, f, t))
            c.skip();
        f.policy = c.choose(3);
        d = "300 columns";
    }
    else if (what == 4) {  // identical rows: a marker equal to the number of columns
        std::vector<Row> rows(4, Row{rI(7), rS("x", 3)});
        if (!foreign({{INTEGER, "int32"}, {STRING, "int8_string"}}, rows, f, t))
            c.skip();
        f.policy = c.choose(3);
        d = "repeated rows";
    }
    else if (what == 5) {  // custom missing values
        std::vector<Row> rows = {{rI(5), rD(2.5)}, {rI(-7), rD(-1)}};
        std::vector<Kind> ks = {{INTEGER, c.flip() ? "int8_missing" : "int16_missing"}, {REAL, c.flip() ? "short_real" : "short_real2"}};
        if (!foreign(ks, rows, f, t))
            c.skip();
        // -7 and -1 are the missing values of this frame
        f.cols[0].missing = -7;
        f.cols[0].mn = f.cols[0].mx = 5;
        f.cols[1].missing = -1;
        f.cols[0].hasMissing = f.cols[1].hasMissing = 1;
        d = "other missing values";
    }
    else {  // constant_or_missing columns holding more than the constant
        std::vector<Row> rows = {{rI(5)}, {rI(IMDI)}, {rI(5)}};
        if (!foreign({{INTEGER, c.flip() ? "constant_or_missing" : "int8_missing"}}, rows, f, t))
            c.skip();
        d = "constant or missing";
    }
    f.minor = 4 + c.choose(2);
    c.nontrivial();
    readForeign(c, f, t, d);
}

//----------------------------------------------------------------------------------------------------------------------

void parsed(mc::Ctx& c, const std::string& bytes, const Tab& t, long rpf, const std::string& what) {
    std::vector<Ref::Parsed> ps;
    try {
        ps = Ref::parse(bytes);
    }
    catch (Ref::Bad& e) {
        c.fail("invalid-stream", what + ": the stream written is not valid: " + e.what());
    }
    std::vector<Frame> fs;
    for (auto& p : ps) {
        Frame f;
        for (auto& col : p.f.cols) {
            FCol fc;
            fc.name = col.col.name;
            fc.type = col.col.type;
            fc.bits = col.col.bits;
            f.cols.push_back(fc);
        }
        f.rows = p.rows;
        fs.push_back(f);
        if (p.f.minor != 5 || p.f.swap)
            c.fail("header", what + ": unexpected version or byte order");
        for (auto& kv : t.props)
            if (!p.f.props.count(kv.first) || p.f.props[kv.first] != kv.second)
                c.fail("properties", what + ": property " + kv.first + " missing from the stream");
        // statistics describe the data
        for (size_t k = 0; k < p.f.cols.size(); k++) {
            auto& col = p.f.cols[k];
            if (col.col.type == STRING)
                continue;
            bool any = false;
            for (auto& r : p.rows) {
                double v = Ref::number(r[k], col.col.type);
                if (v == col.missing)
                    any = true;
                else if (v < (col.col.type == REAL ? double(float(col.mn)) : col.mn) || v > (col.col.type == REAL ? double(float(col.mx)) : col.mx))
                    c.fail("statistics", what + mc::fmt(": column %zu holds %g outside [%g, %g]", k, v, col.mn, col.mx));
            }
            if (any != bool(col.hasMissing))
                c.fail("statistics", what + mc::fmt(": column %zu hasMissing=%d", k, col.hasMissing));
        }
    }
    std::string why;
    if (!matches(t, fs, why))
        c.fail("wrong-stream", what + ": the stream written means something else: " + why);
    (void)rpf;
}

std::string legacyWrite(const Tab& t) {
    eckit::MemoryHandle out(size_t(1024), true);
    out.openForWrite(0);
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        it->setNumberOfColumns(t.cols.size());
        for (size_t i = 0; i < t.cols.size(); i++) {
            if (t.cols[i].type == BITFIELD) {
                eckit::sql::BitfieldDef bd;
                for (auto& b : t.cols[i].bits) {
                    bd.first.push_back(b.first);
                    bd.second.push_back(b.second);
                }
                it->setBitfieldColumn(i, t.cols[i].name, odc::api::BITFIELD, bd);
            }
            else
                it->setColumn(i, t.cols[i].name, odc::api::ColumnType(t.cols[i].type));
            if (t.cols[i].type == STRING)
                it->columns()[i]->dataSizeDoubles(t.cols[i].w);
        }
        for (auto& p : t.props)
            (**it).property(p.first, p.second);
        it->writeHeader();
        for (auto& r : t.rows) {
            for (size_t i = 0; i < r.size(); i++)
                memcpy(&it->data(i), r[i].data(), r[i].size());
            ++it;
        }
    }
    return std::string((const char*)out.data(), size_t(out.position()));
}

void writeTable(mc::Ctx& c, const Tab& t) {
    static const std::vector<std::string> hows = {"odc_encode_to_buffer", "odc::api::encode", "odc_encode_to_buffer, 2 rows per frame", "odc::Writer"};
    int how    = c.choose(hows.size());
    bool longs = c.choose(2);
    std::string bytes, what = hows[how] + (longs ? " (long constant strings) " : " ") + showTab(t);
    bool wide = false;
    for (auto& col : t.cols)
        wide = wide || col.type == STRING;
    if (longs && !wide)
        c.skip();
    if (longs)
        setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1);
    c.at("write");
    std::string err = thrown([&] {
        bytes = how == 0 ? encodeC(t) : how == 1 ? encodeCpp(t) : how == 2 ? encodeC(t, ROWMAJOR, 2) : legacyWrite(t);
    });
    unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
    c.note(what);
    if (!err.empty())
        c.fail("write-error", what + ": " + err);
    c.nontrivial();
    c.outcome(mc::hashStr(bytes));
    parsed(c, bytes, t, 0, what);
}

void writeOne(mc::Ctx& c) {
    int type = 1 + c.choose(5);
    int n    = 1 + c.choose(c.thorough ? 4 : 3);
    Tab t;
    t.cols.push_back({"c@t", type, type == STRING ? 3 : 1, bitsFor(type, 0)});
    t.props["p"] = "q";
    for (int i = 0; i < n; i++) {
        Raw v = c.pick(values(type));
        if (type == REAL && std::isinf(float(asD(v))))
            c.skip();
        t.rows.push_back({v});
        if (i == 0)
            c.shard();
    }
    writeTable(c, t);
}

void writeTwo(mc::Ctx& c) {
    Tab t;
    int types[3], nc = 2 + c.choose(c.thorough ? 2 : 1);
    for (int i = 0; i < nc; i++) {
        types[i] = 1 + c.choose(5);
        t.cols.push_back({mc::fmt("c%d@t", i), types[i], types[i] == STRING ? 3 : 1, bitsFor(types[i], i)});
    }
    c.shard();
    t.rows.resize(3);
    for (int i = 0; i < nc; i++) {
        int base = c.choose(4);
        int q    = c.choose(5);
        static const int seq[5][3] = {{0, 0, 0}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}};
        auto& val = values(types[i]);
        for (int r = 0; r < 3; r++) {
            int k = (base + seq[q][r]) % (val.size() - 1);
            t.rows[r].push_back(val[k]);
        }
    }
    writeTable(c, t);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    std::vector<mc::Scenario> v;
    v.push_back({"read-one-column", "25 (type, codec) pairs x every sequence of 0-3 (thorough 4) values from 5-8 that the codec can represent x minor version 4/5 x marker policies x integers as longs/doubles x 3 readers",
                 oneColumn});
    v.push_back({"read-two-columns", "every pair of 25 (type, codec) x 5x5 change patterns of 4 rows x 3 marker policies x longs/doubles x 3 readers",
                 [](mc::Ctx& c) { severalColumns(c, 2); }});
    v.push_back({"read-three-columns", "6 x 25 x 6 codec triples x change patterns x marker policies x longs/doubles x 3 readers",
                 [](mc::Ctx& c) { severalColumns(c, 3); }, 0, 0, false});
    v.push_back({"read-features", "dictionaries in other orders, wider ranges, properties, 300 columns, repeated rows, other missing values x minor version x readers",
                 features});
    v.push_back({"write-one-column", "5 types x every sequence of 1-3 (4) values x 4 writers, read by the reference reader",
                 writeOne});
    v.push_back({"write-columns", "pairs (thorough: triples) of 5 types x 4 value sets x 5 change patterns each x 4 writers, read by the reference reader",
                 writeTwo});
    return v;
}
