// C16: row-wise writing and reading preserve the rows.
#include <sys/stat.h>

#include "eckit/io/MemoryHandle.h"
#include "odc/Writer.h"
#include "flat.h"
#include "pool.h"

using namespace H;

namespace {

const double CUSTOM = 7;  // a missing value chosen by the user

struct Def {
    std::vector<Col> cols;
    std::vector<bool> custom;  // columns with a missing value of their own
};

void define(odc::Writer<>::iterator& it, const Def& d) {
    it->setNumberOfColumns(d.cols.size());
    for (size_t c = 0; c < d.cols.size(); c++) {
        if (d.cols[c].type == BITFIELD) {
            eckit::sql::BitfieldDef b;
            for (auto& x : d.cols[c].bits) {
                b.first.push_back(x.first);
                b.second.push_back(x.second);
            }
            it->setBitfieldColumn(c, d.cols[c].name, odc::api::ColumnType(BITFIELD), b);
        }
        else
            it->setColumn(c, d.cols[c].name, odc::api::ColumnType(d.cols[c].type));
        if (d.cols[c].type == STRING)
            const_cast<odc::core::MetaData&>(it->columns())[c]->dataSizeDoubles(d.cols[c].w);
        if (c < d.custom.size() && d.custom[c])
            it->missingValue(c, CUSTOM);
    }
    it->writeHeader();
}

void writeRow(odc::Writer<>::iterator& it, const Row& row) {
    for (size_t c = 0; c < row.size(); c++)
        memcpy(&it->data(c), row[c].data(), row[c].size());
    ++it;
}

std::string scratch(const char* name) { return mc::scratchDir() + "/c16." + name; }

// Rows and structure as the row-wise reader gives them.  The structure is only looked at when it is reported to change.
struct Read {
    Flat rows;
    std::vector<size_t> frameRows;
    std::string error;
    std::string changed;  // a change of the columns which has not been reported
};

std::string bitsText(const eckit::sql::BitfieldDef& b) {
    std::string s;
    for (size_t i = 0; i < b.first.size(); i++)
        s += b.first[i] + mc::fmt(":%d ", b.second[i]);
    return s;
}
std::string bitsText(const std::vector<std::pair<std::string, int>>& b) {
    std::string s;
    for (auto& x : b)
        s += x.first + mc::fmt(":%d ", x.second);
    return s;
}

// name/type/bitfield/missing/value of a cell
std::string cell(const std::string& name, int type, const std::string& bits, double missing, const Raw& v) {
    std::string m;
    if (type != STRING) {
        // n.b. constant columns have it as a number of the other kind, which matters not as no value is missing
        Raw raw((const char*)&missing, 8);
        if ((type == INTEGER || type == BITFIELD) && (asI(raw) > (1L << 53) || asI(raw) < -(1L << 53)))
            raw = rI(long(missing));
        m = (type == INTEGER || type == BITFIELD) ? mc::fmt("?%ld", asI(raw)) : mc::fmt("?%g", missing);
    }
    return flatCell(name + "[" + bits + "]" + m, type, v);
}

Read readRows(odc::Reader& r) {
    Read o;
    o.error = thrown([&] {
        auto it  = r.begin();
        auto end = r.end();
        struct Known {
            std::string name, bits;
            int type, w;
            double missing;
        };
        std::vector<Known> known;
        for (; it != end; ++it) {
            auto& md = it->columns();
            std::vector<Known> now;
            for (size_t c = 0; c < md.size(); c++)
                now.push_back({md[c]->name(), bitsText(md[c]->bitfieldDef()), int(md[c]->type()), int(md[c]->dataSizeDoubles()), md[c]->missingValue()});
            if (known.empty() || it->isNewDataset()) {
                known = now;
                o.frameRows.push_back(0);
            }
            bool same = known.size() == now.size();
            for (size_t c = 0; same && c < now.size(); c++)
                same = known[c].name == now[c].name && known[c].bits == now[c].bits && known[c].type == now[c].type && known[c].w == now[c].w &&
                       !memcmp(&known[c].missing, &now[c].missing, 8);
            if (!same && o.changed.empty())
                o.changed = mc::fmt("at row %zu", o.rows.size());
            o.frameRows.back()++;
            std::string s;
            for (size_t c = 0; c < now.size(); c++)
                s += cell(now[c].name, now[c].type, now[c].bits, now[c].missing, Raw((const char*)&it->data(c), 8 * now[c].w));
            o.rows.push_back(s);
        }
    });
    return o;
}

Read readRows(const std::string& path) {
    std::unique_ptr<odc::Reader> r;
    Read o;
    o.error = thrown([&] { r.reset(new odc::Reader(eckit::PathName(path))); });
    return r ? readRows(*r) : o;
}

double defaultMissing(int type) {
    long m = 2147483647L;
    double d;
    if (type == INTEGER || type == BITFIELD) {
        memcpy(&d, &m, 8);
        return d;
    }
    return -2147483647.0;
}
double missingOf(const Def& d, size_t c) {
    if (c < d.custom.size() && d.custom[c]) {
        if (d.cols[c].type == INTEGER || d.cols[c].type == BITFIELD) {
            long m = CUSTOM;
            double x;
            memcpy(&x, &m, 8);
            return x;
        }
        return CUSTOM;
    }
    return defaultMissing(d.cols[c].type);
}

std::string rowText(const Def& d, const Row& r) {
    std::string s;
    for (size_t c = 0; c < d.cols.size(); c++)
        s += cell(d.cols[c].name, d.cols[c].type, bitsText(d.cols[c].bits), missingOf(d, c), r[c]);
    return s;
}

// everything but the missing values, which the frame reader does not show
Flat plain(const Def& d, const std::vector<Row>& rows) {
    Tab t;
    t.cols = d.cols;
    t.rows = rows;
    Flat f;
    flatten(f, t);
    return f;
}

struct Kind {
    const char* name;
    int type;
    int w;
    bool custom;
    std::vector<Raw> vals;
};
const std::vector<Kind>& kinds() {
    static std::vector<Kind> k{
        {"INTEGER", INTEGER, 1, false, {rI(-1), rI(2147483647), rI(300), rI(70000)}},
        {"INTEGER?7", INTEGER, 1, true, {rI(3), rI(7), rI(2147483647), rI(1000)}},
        {"BITFIELD", BITFIELD, 1, false, {rI(5), rI(0), rI(2), rI(7)}},
        {"REAL", REAL, 1, false, {rD(0.5), rD(-2147483647.0), rD(float(1e30)), rD(-0.25)}},
        {"REAL?7", REAL, 1, true, {rD(0.5), rD(7), rD(-2147483648.0), rD(0.25)}},
        {"DOUBLE", DOUBLE, 1, false, {rD(0.1), rD(-2147483647.0), rD(-1e300), rD(0.0)}},
        {"DOUBLE?7", DOUBLE, 1, true, {rD(0.1), rD(7), rD(-2147483647.0), rD(0.0)}},
        {"STRING8", STRING, 1, false, {rS("abcdefgh"), rS(""), rS(" x"), rS("abcdefgi")}},
        {"STRING16", STRING, 2, false, {rS("abcdefgh", 2), rS("abcdefghi", 2), rS("", 2), rS("abcdefghj", 2)}},
        {"STRING24", STRING, 3, false, {rS("abcdefghijklmnopqrstuvwx", 3), rS("abcdefghijklmnopqrstuvwy", 3), rS("a", 3), rS("", 3)}},
    };
    return k;
}
Col column(const Kind& k, int i) {
    Col c{mc::fmt("c%d@t", i), k.type, k.w, {}};
    if (k.type == BITFIELD)
        c.bits = {{"x", 2}, {"y", 1}};
    return c;
}

void verify(mc::Ctx& ctx, const std::string& key, const std::string& path, const Flat& want, const Flat& wantPlain) {
    Read got = readRows(path);
    if (!got.error.empty())
        ctx.fail(key + " unreadable", "the row-wise reader fails: " + got.error);
    else if (auto d = difference(got.rows, want); !d.empty())
        ctx.fail(key + " rows", "the row-wise reader: " + d);
    else if (!got.changed.empty())
        ctx.fail(key + " change", "the columns change " + got.changed + " without isNewDataset()");
    std::string bytes = readFile(path);
    std::vector<Frame> fs;
    std::string err = thrown([&] { fs = readAllC(bytes); });
    if (!err.empty())
        ctx.fail(key + " unreadable", "the frame reader fails: " + err);
    else if (auto d = difference(flatten(fs), wantPlain); !d.empty())
        ctx.fail(key + " rows", "the frame reader: " + d);
}

// every sequence of rows, one table structure, several buffer sizes
void sequences(mc::Ctx& ctx) {
    int ncols = 1 + ctx.choose(2, "columns less one");
    int nrows = 1 + ctx.choose(ctx.thorough ? 4 : 3, "rows less one");
    Def d;
    std::vector<const Kind*> ks;
    std::string what;
    for (int c = 0; c < ncols; c++) {
        ks.push_back(&kinds()[ctx.choose(kinds().size(), "type")]);
        d.cols.push_back(column(*ks[c], c));
        d.custom.push_back(ks[c]->custom);
        what += std::string(c ? "," : "") + ks[c]->name;
    }
    ctx.shard();
    static const int sizes[] = {1, 2, 3, 100};
    int size                 = sizes[ctx.choose(4, "rows buffer size")];
    if (size > nrows && size != 100)
        ctx.skip();
    int nvals = ncols == 1 ? 4 : (ctx.thorough && nrows < 4 ? 3 : 2);
    std::vector<Row> rows;
    bool missing = false;
    for (int r = 0; r < nrows; r++) {
        Row row;
        for (int c = 0; c < ncols; c++) {
            row.push_back(ks[c]->vals[ctx.choose(nvals, "value")]);
            missing = missing || row.back() == ks[c]->vals[1];
        }
        rows.push_back(row);
    }
    if (nrows > 1 && missing)
        ctx.nontrivial();
    std::string path = scratch("seq");
    std::string err  = thrown([&] {
        odc::Writer<> w{eckit::PathName(path)};
        auto it = w.begin();
        (**it).rowsBufferSize(size);
        define(it, d);
        for (auto& r : rows)
            writeRow(it, r);
        it->close();
    });
    if (!err.empty())
        return ctx.fail("write " + what, "writing fails: " + err);
    Flat want;
    for (auto& r : rows)
        want.push_back(rowText(d, r));
    verify(ctx, what, path, want, plain(d, rows));
}

std::vector<Def> structures() {
    Col i{"i@t", INTEGER, 1, {}}, s{"s@t", STRING, 1, {}}, s2{"s@t", STRING, 2, {}}, r{"i@t", REAL, 1, {}}, b{"b@t", BITFIELD, 1, {{"p", 3}}},
        b2{"b@t", BITFIELD, 1, {{"q", 1}, {"r", 2}}};
    // n.b. a name does not move to another column, which is refused
    return {{{i, s}, {}}, {{i, s2, b}, {}}, {{r, s}, {true}}, {{i, s}, {true}}, {{b2}, {}}};
}
Row structureRow(const Def& d, int n) {
    Row r;
    for (auto& c : d.cols)
        r.push_back(c.type == STRING ? rS(n ? std::string(8 * c.w, 'z') : "a", c.w) : c.type == REAL ? rD(n ? 7 : 0.5) : rI(n ? 7 : 1));
    return r;
}

// every history of operations on one writer
void histories(mc::Ctx& ctx) {
    std::vector<Def> defs = structures();
    int depth = ctx.thorough ? 7 : 5;
    static const int sizes[] = {2, 1, 100};
    int size = sizes[ctx.choose(3, "rows buffer size")];
    int cur  = ctx.choose(defs.size(), "structure");
    std::string path = scratch("hist");
    Flat want, wantPlain;
    std::string trace, err;
    bool redefined = false;
    {
        odc::Writer<> w{eckit::PathName(path)};
        auto it = w.begin();
        (**it).rowsBufferSize(size);
        Def d = defs[cur];
        define(it, d);
        bool closed = false;
        enum { ROW0, ROW1, END, FLUSH, DEFINE, WIDEN, RESIZE, NOPS };
        for (int i = 0; i < depth && !closed && err.empty(); i++) {
            int op = ctx.choose(NOPS, "operation");
            if (i == 1)
                ctx.shard();
            switch (op) {
                case ROW0:
                case ROW1: {
                    Row r = structureRow(d, op == ROW1);
                    trace += "row ";
                    err = thrown([&] { writeRow(it, r); });
                    want.push_back(rowText(d, r));
                    flatten(wantPlain, Tab{d.cols, {r}, {}});
                    break;
                }
                case FLUSH:
                    trace += "flush ";
                    err = thrown([&] { (**it).flush(); });
                    break;
                case DEFINE: {
                    int k = 1 + ctx.choose(int(defs.size()) - 1, "new structure");
                    cur   = (cur + k) % int(defs.size());
                    d     = defs[cur];
                    trace += "redefine ";
                    redefined = redefined || !want.empty();
                    err       = thrown([&] { define(it, d); });
                    break;
                }
                case WIDEN: {
                    std::map<std::string, size_t> m;
                    for (auto& c : d.cols)
                        if (c.type == STRING)
                            m[c.name] = ++c.w;
                    if (m.empty())
                        ctx.skip();
                    trace += "widen ";
                    redefined = redefined || !want.empty();
                    err       = thrown([&] { (**it).flushAndResetColumnSizes(m); });
                    break;
                }
                case RESIZE: {
                    if (size == 1)
                        ctx.skip();
                    size = 1;
                    trace += "buffer size 1 ";
                    err = thrown([&] { (**it).rowsBufferSize(1); });
                    break;
                }
                default:
                    closed = true;
            }
        }
        if (err.empty()) {
            trace += "close";
            err = thrown([&] { it->close(); });
        }
    }
    ctx.state(trace);
    if (redefined)
        ctx.nontrivial();
    if (!err.empty())
        return ctx.fail("fails", trace + " fails: " + err);
    verify(ctx, redefined ? "history with redefinition" : "history", path, want, wantPlain);
}

// Frames which are written one by one, as parts of streams to read or to copy
struct Part {
    const char* name;
    Def d;
    std::vector<Row> rows;
};
const std::vector<Part>& parts() {
    static std::vector<Part> p = [] {
        Col i{"i@t", INTEGER, 1, {}}, r{"r@t", REAL, 1, {}}, s{"s@t", STRING, 1, {}}, s3{"s@t", STRING, 3, {}}, b{"b@t", BITFIELD, 1, {{"p", 3}}},
            b2{"b@t", BITFIELD, 1, {{"q", 1}, {"r", 2}}};
        std::vector<Part> p;
        p.push_back({"base", {{i, s, b}, {}}, {{rI(7), rS("x"), rI(1)}, {rI(2147483647), rS(""), rI(0)}}});
        p.push_back({"same structure", {{i, s, b}, {}}, {{rI(70000), rS("longish"), rI(7)}}});
        p.push_back({"other bitfield", {{i, s, b2}, {}}, {{rI(7), rS("x"), rI(1)}, {rI(8), rS("y"), rI(7)}}});
        p.push_back({"custom missing", {{i, s, b}, {true, false, false}}, {{rI(7), rS("x"), rI(1)}, {rI(8), rS("x"), rI(7)}, {rI(7), rS("x"), rI(7)}}});
        p.push_back({"constant custom missing", {{i, s, b}, {true, false, false}}, {{rI(7), rS("x"), rI(1)}}});
        p.push_back({"wider string", {{i, s3, b}, {}}, {{rI(7), rS("abcdefghijklmnopqrstuvwx", 3), rI(1)}, {rI(8), rS("abcdefghijklmnopqrstuvwy", 3), rI(1)}}});
        p.push_back({"other order", {{b, s, i}, {}}, {{rI(1), rS("x"), rI(7)}}});
        p.push_back({"other type", {{{"i@t", DOUBLE, 1, {}}, s, b}, {}}, {{rD(7.5), rS("x"), rI(1)}, {rD(-2147483647.0), rS("x"), rI(1)}}});
        p.push_back({"other columns", {{r}, {true}}, {{rD(7)}, {rD(0.5)}}});
        p.push_back({"no rows", {{i, s, b}, {}}, {}});
        return p;
    }();
    return p;
}

// the bytes of one part, as a stream of its own
const std::string& partBytes(int k) {
    static std::map<int, std::string> cache;
    auto& b = cache[k];
    if (b.empty()) {
        const Part& p = parts()[k];
        if (p.rows.empty()) {
            Tab t;
            t.cols = p.d.cols;
            b      = encodeCpp(t, ROWMAJOR);
        }
        else {
            std::string path = scratch("part");
            odc::Writer<> w{eckit::PathName(path)};
            auto it = w.begin();
            define(it, p.d);
            for (auto& r : p.rows)
                writeRow(it, r);
            it->close();
            b = readFile(path);
        }
    }
    return b;
}

std::string bytesOf(const std::vector<int>& seq, Flat& want, Flat& wantPlain) {
    std::string bytes;
    for (int k : seq) {
        bytes += partBytes(k);
        const Part& p = parts()[k];
        for (auto& r : p.rows)
            want.push_back(rowText(p.d, r));
        flatten(wantPlain, Tab{p.d.cols, p.rows, {}});
    }
    return bytes;
}

// every sequence of different frames, read row-wise and copied row by row
void copies(mc::Ctx& ctx) {
    int n = 1 + ctx.choose(ctx.thorough ? 4 : 3, "frames less one");
    std::vector<int> seq;
    std::string what;
    for (int i = 0; i < n; i++) {
        seq.push_back(ctx.choose(parts().size(), "frame"));
        what += std::string(i ? ", " : "") + parts()[seq[i]].name;
        if (i == 0)
            ctx.shard();
    }
    Flat want, wantPlain;
    std::string in = scratch("in"), out = scratch("out");
    writeFile(in, bytesOf(seq, want, wantPlain));
    if (n > 1 && !want.empty())
        ctx.nontrivial();
    verify(ctx, "read", in, want, wantPlain);
    if (want.empty())
        return;
    static const int sizes[] = {1, 2, 100};
    for (int size : sizes) {
        unlink(out.c_str());
        std::string err = thrown([&] {
            odc::Reader r{eckit::PathName(in)};
            odc::Writer<> w{eckit::PathName(out)};
            auto it = w.begin();
            (**it).rowsBufferSize(size);
            auto ib = r.begin(), ie = r.end();
            unsigned long k = (**it).pass1(ib, ie);
            if (k != want.size())
                throw std::runtime_error(mc::fmt("pass1 returns %lu", k));
        });
        if (!err.empty())
            ctx.fail("copy " + what, "copying fails: " + err);
        else
            verify(ctx, "copy of " + what, out, want, wantPlain);
    }
}

// two iterations of the same source, in every interleaving
void interleaved(mc::Ctx& ctx) {
    std::vector<int> seq{ctx.choose(int(parts().size()), "frame"), ctx.choose(int(parts().size()), "frame")};
    Flat want, wantPlain;
    std::string in = scratch("in");
    writeFile(in, bytesOf(seq, want, wantPlain));
    bool same = ctx.flip();
    ctx.shard();
    std::string err = thrown([&] {
        odc::Reader r1{eckit::PathName(in)}, r2{eckit::PathName(in)};
        odc::Reader& rb = same ? r1 : r2;
        auto e1 = r1.end(), e2 = rb.end();
        odc::Reader::iterator it[2] = {r1.begin(), rb.begin()};
        Flat got[2];
        auto step = [&](int k) {
            auto& i = it[k];
            if (k ? i == e2 : i == e1)
                return false;
            auto& md = i->columns();
            std::string s;
            for (size_t c = 0; c < md.size(); c++)
                s += cell(md[c]->name(), int(md[c]->type()), bitsText(md[c]->bitfieldDef()), md[c]->missingValue(),
                          Raw((const char*)&i->data(c), 8 * md[c]->dataSizeDoubles()));
            got[k].push_back(s);
            ++i;
            return true;
        };
        size_t total = 2 * want.size();
        size_t done[2] = {0, 0};
        while (done[0] + done[1] < total) {
            int k = done[0] == want.size() ? 1 : done[1] == want.size() ? 0 : ctx.choose(2, "iterator");
            if (!step(k))
                throw std::runtime_error("ends early");
            done[k]++;
            ctx.transition();
        }
        if (step(0) || step(1))
            throw std::runtime_error("does not end");
        for (int k = 0; k < 2; k++)
            if (auto d = difference(got[k], want); !d.empty())
                throw std::runtime_error(d);
    });
    ctx.nontrivial();
    if (!err.empty())
        ctx.fail("interleaved", mc::fmt("two iterations of %s: ", same ? "one reader" : "two readers") + err);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"sequences", "every sequence of rows over one or two columns of every kind and every buffer size", sequences},
        {"histories", "every history of rows, flushes, redefinitions, widenings and buffer sizes on a writer", histories},
        {"copies", "every sequence of different frames, read and copied row by row", copies},
        {"interleaved", "two iterations of the same data, in every interleaving", interleaved},
    };
}
