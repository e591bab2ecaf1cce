// C24: the tools compute what they promise.
#include <sys/stat.h>

#include <iostream>
#include <set>
#include <sstream>

#include "odc/Comparator.h"
#include "odc/Indexer.h"
#include "odc/RowsCounter.h"
#include "odc/tools/CompactTool.h"
#include "odc/tools/CompareTool.h"
#include "odc/tools/CountTool.h"
#include "odc/tools/FixedSizeRowTool.h"
#include "odc/tools/LSTool.h"
#include "odc/tools/MDSetTool.h"
#include "odc/tools/MergeTool.h"
#include "odc/tools/ODAHeaderTool.h"
#include "odc/tools/SQLTool.h"
#include "odc/tools/SetTool.h"
#include "odc/tools/XYVTool.h"
#include "flat.h"

using namespace H;

namespace {

std::string path(const std::string& name) {
    return mc::scratchDir() + "/" + name;
}

// Runs a tool with its command line.  Returns the error, or nothing when it succeeded
template <typename T>
std::string tool(std::vector<std::string> args, std::string* printed = nullptr) {
    args.insert(args.begin(), "tool");
    std::vector<char*> av;
    for (auto& a : args)
        av.push_back(&a[0]);
    av.push_back(nullptr);
    AsDoubles dbl;
    std::ostringstream out;
    auto* old     = std::cout.rdbuf(out.rdbuf());
    std::ios format(nullptr);  // which a tool may change, as it ends with its process
    format.copyfmt(std::cout);
    std::string e = thrown([&] {
        T t(args.size(), av.data());
        t.run();
    });
    std::cout.rdbuf(old);
    std::cout.copyfmt(format);
    if (printed)
        *printed = out.str();
    return e;
}

// an input file, which the tools have to leave alone
struct Input {
    std::string name, bytes;
    Input(const std::string& n, const std::string& b) : name(path(n)), bytes(b) { writeFile(name, b); }
    void verify(mc::Ctx& c) {
        if (readFile(name) != bytes)
            c.fail("input modified", "a tool modified its input");
    }
};

Flat contents(const std::string& file, std::string& error) {
    std::string b = readFile(file);
    Outcome o     = readSource(C_BUFFER, b, false);
    error         = o.error;
    return flatten(o.frames);
}

void expectRows(mc::Ctx& c, const std::string& key, const std::string& what, const std::string& file, const Flat& want) {
    std::string e;
    Flat got = contents(file, e);
    if (!e.empty())
        c.fail(key + ": unreadable", what + ": the output cannot be read: " + e);
    std::string d = difference(got, want);
    if (!d.empty())
        c.fail(key, what + ": " + d);
}

Flat flatAll(const std::vector<Tab>& ts) {
    Flat f;
    for (auto& t : ts)
        flatten(f, t);
    return f;
}
std::string encode(const Tab& t, long rpf = 0) {
    return t.rows.empty() ? encodeCpp(t) : encodeC(t, ROWMAJOR, rpf);
}
std::string encodeAll(const std::vector<Tab>& ts, long rpf = 0) {
    std::string s;
    for (auto& t : ts)
        s += encode(t, rpf);
    return s;
}
std::string showAll(const std::vector<Tab>& ts) {
    std::string s;
    for (auto& t : ts)
        s += "[" + showTab(t) + "] ";
    return s;
}

const std::vector<std::pair<std::string, int>> BITS = {{"x", 1}, {"yy", 3}};

// kinds of columns
struct Kind {
    const char* name;
    int type, w;
};
const Kind KINDS[] = {{"integer", INTEGER, 1}, {"real", REAL, 1}, {"string", STRING, 1}, {"wide string", STRING, 2}, {"bitfield", BITFIELD, 1}, {"double", DOUBLE, 1}};

Col column(const std::string& name, const Kind& k) {
    Col c{name, k.type, k.w};
    if (k.type == BITFIELD)
        c.bits = BITS;
    return c;
}
Raw value(const Kind& k, int i) {
    static const long ints[]    = {7, IMDI, -70000, 255};
    static const double reals[] = {0.5, RMDI, -2.25, 1024};
    static const double dbls[]  = {1.1, 1e300, RMDI, -4};
    static const char* s1[]     = {"ab", "", "abcdefgh", "b"};
    static const char* s2[]     = {"abcdefghijkl", "ab", "abcdefghijklmnop", ""};
    static const long bits[]    = {5, 0, IMDI, 15};
    i %= 4;
    switch (k.type) {
        case INTEGER: return rI(ints[i]);
        case REAL: return rD(reals[i]);
        case DOUBLE: return rD(dbls[i]);
        case BITFIELD: return rI(bits[i]);
        default: return k.w == 1 ? rS(s1[i]) : rS(s2[i], k.w);
    }
}

//----------------------------------------------------------------------------------------------------------------------
// count

void count(mc::Ctx& c) {
    int nfiles = 1 + c.choose(c.thorough ? 3 : 2);
    size_t rows = 0;
    std::vector<std::string> args;
    std::vector<std::unique_ptr<Input>> files;
    for (int f = 0; f < nfiles; f++) {
        int n = c.choose(4);
        if (f == 0)
            c.shard();
        std::string bytes;
        size_t inFile = 0;
        for (int i = 0; i < n; i++) {
            int piece = c.choose(5);
            Tab t;
            t.cols = {{"a", INTEGER}};
            if (piece == 3)
                t.cols = {{"s", STRING, 2}, {"b", REAL}};
            int rowsIn[] = {0, 1, 3, 2, 20};
            for (int r = 0; r < rowsIn[piece]; r++)
                t.rows.push_back(piece == 3 ? Row{rS("abcdefghijkl", 2), rD(r)} : Row{rI(r)});
            bytes += encode(t, piece == 2 ? 1 : 0);
            inFile += rowsIn[piece];
        }
        files.emplace_back(new Input(mc::fmt("in%d", f), bytes));
        args.push_back(files.back()->name);
        rows += inFile;
        size_t a = 0, b = 0;
        std::string e = thrown([&] {
            a = odc::tool::CountTool::rowCount(files.back()->name);
            b = odc::RowsCounter::fastRowCount(files.back()->name);
        });
        if (!e.empty() || a != inFile || b != inFile)
            c.fail("count", mc::fmt("a file of %zu rows is counted as %zu and %zu ", inFile, a, b) + e);
        if (n > 1)
            c.nontrivial();
    }
    std::string out;
    std::string e = tool<odc::tool::CountTool>(args, &out);
    c.note(mc::fmt("%d files of %zu rows altogether: printed ", nfiles, rows) + out + e);
    if (!e.empty() || out != std::to_string(rows) + "\n")
        c.fail("count tool", mc::fmt("files of %zu rows: printed ", rows) + out + e);
    for (auto& f : files)
        f->verify(c);
    c.outcome(mc::hashStr(out));
}

//----------------------------------------------------------------------------------------------------------------------
// set

// Values to set: the text, and what it stands for
struct NewValue {
    std::string text;
    Raw raw;
};
NewValue newValue(int type, int w, int i) {
    switch (type) {
        case INTEGER:
        case BITFIELD: return i == 0 ? NewValue{"42", rI(42)} : NewValue{"2147483647", rI(IMDI)};
        case REAL:
        case DOUBLE: return i == 0 ? NewValue{"3.25", rD(3.25)} : NewValue{"-2147483647", rD(RMDI)};
        default: return i == 0 ? NewValue{"0x6364", rS("cd", w)} : NewValue{"'12345678'", rS("12345678", w)};
    }
}

void set(mc::Ctx& c) {
    int ncols = c.thorough ? 3 : 2 + c.choose(2);
    Tab t;
    std::vector<Kind> ks;
    int kinds = c.thorough ? 6 : ncols == 2 ? 6 : 4;
    for (int i = 0; i < ncols; i++) {
        ks.push_back(KINDS[c.choose(kinds)]);
        t.cols.push_back(column(std::string(1, 'a' + i), ks.back()));
    }
    c.shard();
    int nrows = 1 + c.choose(2);
    for (int r = 0; r < nrows; r++) {
        Row row;
        for (int i = 0; i < ncols; i++)
            row.push_back(value(ks[i], r + i));
        t.rows.push_back(row);
    }
    std::vector<Tab> ts = {t};
    switch (c.choose(6)) {
        case 0: break;
        case 1:
            for (int i = 0; i < ncols; i++)
                t.rows[0][i] = value(ks[i], i + 2);
            ts.push_back(t);
            break;
        case 2:
            std::reverse(t.cols.begin(), t.cols.end());
            for (auto& r : t.rows)
                std::reverse(r.begin(), r.end());
            ts.push_back(t);
            break;
        case 3:  // other types: wider strings, doubles for integers
            for (int i = 0; i < ncols; i++)
                if (ks[i].type == STRING) {
                    t.cols[i].w++;
                    for (auto& r : t.rows)
                        r[i] = rS("abcdefghijklmnopqrstuvwx" + std::string(24 - 8 * t.cols[i].w, 'z'), t.cols[i].w).substr(0, 8 * t.cols[i].w);
                }
                else {
                    t.cols[i].type = DOUBLE;
                    t.cols[i].bits.clear();
                    for (auto& r : t.rows)
                        r[i] = rD(4.5);
                }
            ts.push_back(t);
            break;
        case 4:  // another column first
            t.cols.insert(t.cols.begin(), Col{"z", STRING, 2});
            for (auto& r : t.rows)
                r.insert(r.begin(), rS("zzzzzzzzzz", 2));
            ts.push_back(t);
            break;
        case 5:  // one column less
            t.cols.pop_back();
            for (auto& r : t.rows)
                r.pop_back();
            ts.push_back(t);
            break;
    }
    // what to set
    int first  = c.choose(ncols + 1);
    int second = first == ncols ? ncols : c.choose(ncols + 1);
    int which  = c.choose(2);
    std::vector<std::string> names = {first == ncols ? std::string("unknown") : std::string(1, 'a' + first)};
    if (second != ncols && second != first)
        names.push_back(std::string(1, 'a' + second));
    else if (second != ncols)
        c.skip();
    std::string list;
    bool known = true, consistent = true;
    std::vector<Tab> want = ts;
    for (auto& n : names) {
        for (auto& f : want) {
            bool found = false;
            for (size_t i = 0; i < f.cols.size(); i++)
                if (f.cols[i].name == n) {
                    NewValue v = newValue(ts[0].cols[n[0] - 'a'].type, f.cols[i].w, which);
                    // the same text means the same number for every numeric type
                    if (f.cols[i].type != ts[0].cols[n[0] - 'a'].type && which == 1)
                        consistent = false;
                    if (f.cols[i].type != STRING)
                        v = NewValue{v.text, f.cols[i].type == INTEGER || f.cols[i].type == BITFIELD ? rI(asI(v.raw))
                                     : ts[0].cols[n[0] - 'a'].type == INTEGER || ts[0].cols[n[0] - 'a'].type == BITFIELD
                                         ? rD(asI(v.raw))
                                         : v.raw};
                    for (auto& r : f.rows)
                        r[i] = v.raw;
                    found = true;
                }
            known = known && found;
        }
        int i = n[0] - 'a';
        list += (list.empty() ? "" : ",") + n + "=" + (i >= 0 && i < ncols ? newValue(ts[0].cols[i].type, ts[0].cols[i].w, which).text : "1");
    }
    if (!consistent)
        c.skip();
    Input in("in", encodeAll(ts));
    std::string e = tool<odc::tool::SetTool>({list, in.name, path("out")});
    c.note(list + " on " + showAll(ts) + ": " + e);
    c.at("set");
    in.verify(c);
    if (ts.size() > 1)
        c.nontrivial();
    c.outcome(e.empty());
    if (!known && !e.empty())
        return;  // refused
    if (!e.empty())
        c.fail("set refused", list + " on " + showAll(ts) + ": " + e);
    if (!known && ts.size() == 1)
        c.fail("set of an unknown column", list + " on " + showAll(ts) + " succeeds");
    expectRows(c, "set", list + " on " + showAll(ts), path("out"), flatAll(want));
}

//----------------------------------------------------------------------------------------------------------------------
// mdset

void mdset(mc::Ctx& c) {
    Kind k  = KINDS[c.pick(std::vector<int>{0, 1, 2, 4, 5})];
    int pos = c.choose(3);  // of the column among others
    // the values of the column: the same, the same or missing, all missing, different
    auto makeTab = [&](int how, int rows) {
        Tab t;
        for (int i = 0; i < 3; i++)
            t.cols.push_back(i == pos ? column("a", k) : i == (pos + 1) % 3 ? Col{"s", STRING, 2} : Col{"n", INTEGER});
        Raw missing = k.type == STRING ? rS("") : k.type == INTEGER || k.type == BITFIELD ? rI(IMDI) : rD(RMDI);
        Raw val     = k.type == STRING ? rS("const") : value(k, 0);
        for (int r = 0; r < rows; r++) {
            Row row;
            for (int i = 0; i < 3; i++)
                row.push_back(i == pos               ? how == 0 ? val : how == 1 ? (r % 2 ? missing : val) : how == 2 ? missing : value(k, r == 0 ? 0 : 2)
                              : i == (pos + 1) % 3 ? rS(mc::fmt("string number %d", r % 2), 2)
                                                   : rI(r % 2));
            t.rows.push_back(row);
        }
        return t;
    };
    int how1 = c.choose(4);
    int how2 = c.choose(5);
    int rows = 1 + c.choose(3);
    c.shard();
    std::vector<Tab> ts = {makeTab(how1, rows)};
    ts[0].props = {{"key", "value"}};
    if (how2 < 4)
        ts.push_back(makeTab(how2, 2));
    int what   = c.choose(k.type == STRING ? 2 : 6);
    int newType = k.type;
    std::string text = "a";
    bool newVal = true;
    switch (what) {
        case 0: text += "="; break;
        case 1: text = "a : " + std::string(tname(k.type)) + " ="; break;
        case 2: newType = REAL; text += ":real="; break;
        case 3: newType = DOUBLE; text += ":double="; break;
        case 4: newType = DOUBLE; text += ":double"; newVal = false; break;
        case 5: newType = INTEGER; text += ":integer"; newVal = k.type == REAL || k.type == DOUBLE; text += newVal ? "=" : ""; break;
    }
    bool toInt = newType == INTEGER && (k.type == REAL || k.type == DOUBLE);
    std::string val = k.type == STRING ? "'12345678'" : toInt || k.type == INTEGER || k.type == BITFIELD ? "42" : "3.25";
    if (newVal)
        text += val;
    Input in("in", encodeAll(ts));
    std::string e = tool<odc::tool::MDSetTool>({text, in.name, path("out")});
    c.note("mdset " + text + " on " + showAll(ts) + ": " + e);
    c.at("mdset");
    in.verify(c);
    c.outcome(e.empty());
    auto constant = [&](const Tab& t) {
        for (auto& r : t.rows)
            if (r[pos] != t.rows[0][pos])
                return false;
        return true;
    };
    bool allConstant = true;
    for (auto& t : ts)
        allConstant = allConstant && constant(t);
    if (!e.empty()) {
        if (allConstant || !newVal)
            c.fail("mdset refused", text + " on " + showAll(ts) + ": " + e);
        return;
    }
    if (ts.size() > 1)
        c.nontrivial();
    // Expected rows, as doubles
    auto run = [&](bool dbl) {
        std::string b = readFile(path("out"));
        odc_integer_behaviour(dbl ? ODC_INTEGERS_AS_DOUBLES : ODC_INTEGERS_AS_LONGS);
        Outcome o = readSource(C_BUFFER, b, false);
        odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
        if (!o.error.empty())
            c.fail("mdset: unreadable", text + " on " + showAll(ts) + ": " + o.error);
        if (o.frames.size() != ts.size())
            c.fail("mdset: frames", text + " on " + showAll(ts) + ": the output has another number of frames");
        for (size_t f = 0; f < ts.size(); f++) {
            auto& fr = o.frames[f];
            auto& t  = ts[f];
            fr.props.erase("encoder");
            if (fr.props != t.props) {
                std::string list;
                for (auto& p : fr.props)
                    list += p.first + "=" + p.second + " ";
                c.fail("mdset: properties", text + mc::fmt(": properties of frame %zu are ", f) + list);
            }
            if (fr.rows.size() != t.rows.size() || fr.cols.size() != t.cols.size())
                c.fail("mdset: shape", text + ": rows or columns are lost");
            for (int i = 0; i < 3; i++) {
                int type = i == pos ? newType : t.cols[i].type;
                if (fr.cols[i].name != t.cols[i].name || fr.cols[i].type != type)
                    c.fail("mdset: columns", mc::fmt("%s: column %d is %s of type %s", text.c_str(), i, fr.cols[i].name.c_str(), tname(fr.cols[i].type)));
                if (type == BITFIELD && fr.cols[i].bits != BITS)
                    c.fail("mdset: bits", text + ": definition of bits lost");
                for (size_t r = 0; r < t.rows.size(); r++) {
                    Raw got = fr.rows[r][i];
                    auto asNumber = [&](const Raw& v, int ty) { return ty == INTEGER || ty == BITFIELD ? double(asI(v)) : asD(v); };
                    if (type == STRING) {
                        std::string want = i == pos && newVal ? "12345678" : asS(t.rows[r][i]);
                        bool either      = i == pos && newVal && asS(t.rows[r][i]).empty() && asS(got).empty();
                        if (asS(got) != want && !either)
                            c.fail("mdset: value", text + " on " + showAll(ts) + mc::fmt(": row %zu column %d of frame %zu is '%s'", r, i, f, asS(got).c_str()));
                        continue;
                    }
                    double was  = asNumber(t.rows[r][i], t.cols[i].type);
                    bool missing = t.rows[r][i] == (t.cols[i].type == INTEGER || t.cols[i].type == BITFIELD ? rI(IMDI) : rD(RMDI));
                    double is   = dbl ? asD(got) : asNumber(got, type);
                    double want = i == pos && newVal ? atof(val.c_str()) : was;
                    if (is != want && !(i == pos && newVal && missing && is == was))
                        c.fail(mc::fmt("mdset: value %s to %s integers as %s", tname(k.type), tname(newType), dbl ? "doubles" : "longs"),
                               text + " on " + showAll(ts) + mc::fmt(": row %zu column %d of frame %zu is %.17g instead of %.17g", r, i, f, is, want));
                }
            }
        }
    };
    run(true);
    run(false);
}

//----------------------------------------------------------------------------------------------------------------------
// merge

void merge(mc::Ctx& c) {
    int nfiles = 2 + (c.thorough ? c.choose(2) : 0);
    std::vector<std::vector<Tab>> files;
    bool sql = c.flip();
    int shape = c.choose(4);  // what the first file is made of
    bool duplicate = c.choose(4) == 3;
    for (int f = 0; f < nfiles; f++) {
        std::vector<Tab> ts;
        int ncols = 1 + c.choose(2);
        Tab t;
        std::vector<Kind> ks;
        for (int i = 0; i < ncols; i++) {
            ks.push_back(KINDS[c.choose(nfiles == 3 ? 4 : c.thorough ? 6 : 4)]);
            t.cols.push_back(column(duplicate && i == 0 ? "dup" : mc::fmt("f%dc%d", f, i), ks.back()));
        }
        if (f == 0)
            c.shard();
        int rows = 1 + c.choose(3);
        for (int r = 0; r < rows; r++) {
            Row row;
            for (int i = 0; i < ncols; i++)
                row.push_back(value(ks[i], r + i + f));
            t.rows.push_back(row);
        }
        if (f == 0 && shape == 1) {  // a frame for each row
            for (auto& r : t.rows) {
                Tab one  = t;
                one.rows = {r};
                ts.push_back(one);
            }
        }
        else if (f == 0 && shape == 2) {  // then a frame with wider strings
            ts.push_back(t);
            for (int i = 0; i < ncols; i++)
                if (ks[i].type == STRING) {
                    t.cols[i].w = 3;
                    for (auto& r : t.rows)
                        r[i] = rS("abcdefghijklmnopqrstuvw", 3);
                }
            ts.push_back(t);
        }
        else if (f == 0 && shape == 3) {  // then a frame with other columns
            ts.push_back(t);
            t.cols.push_back({"extra", STRING, 2});
            for (auto& r : t.rows)
                r.push_back(rS("extra value", 2));
            ts.push_back(t);
        }
        else
            ts.push_back(t);
        files.push_back(ts);
    }
    std::vector<std::unique_ptr<Input>> in;
    std::vector<eckit::PathName> paths;
    std::vector<std::string> sqls;
    std::vector<std::string> args = {"-o", path("out")};
    if (sql)
        args.insert(args.begin(), "-S");
    std::string what;
    size_t rows = size_t(-1);
    for (int f = 0; f < nfiles; f++) {
        in.emplace_back(new Input(mc::fmt("in%d", f), encodeAll(files[f])));
        args.push_back(in.back()->name);
        if (sql)
            args.push_back("select *;");
        size_t n = 0;
        for (auto& t : files[f])
            n += t.rows.size();
        rows = std::min(rows, n);
        what += "{" + showAll(files[f]) + "} ";
    }
    Flat want(rows);
    std::vector<int> frameOf;  // of the first file, for each of the rows
    for (int f = 0; f < nfiles; f++) {
        Flat one = flatAll(files[f]);
        for (size_t r = 0; r < rows; r++)
            want[r] += one[r];
    }
    std::string e = tool<odc::tool::MergeTool>(args);
    c.note(std::string(sql ? "merge -S " : "merge ") + what + ": " + e);
    c.at("merge");
    for (auto& i : in)
        i->verify(c);
    c.outcome(e.empty());
    if (duplicate) {
        if (e.empty())
            c.fail("merge of a column in two files", what);
        return;
    }
    if (!e.empty()) {
        // A query has the columns of the first frame
        if (shape == 3 && (sql || rows > files[0][0].rows.size()))
            return;
        c.fail("merge refused", what + ": " + e);
    }
    if (sql && shape == 3 && rows > files[0][0].rows.size())
        return;  // what queries make of that is not this property
    if (shape)
        c.nontrivial();
    expectRows(c, "merge", (sql ? "queries on " : "") + what, path("out"), want);
}

//----------------------------------------------------------------------------------------------------------------------
// compare, compact and fixrowsize

enum Verdict { EQUAL, DIFF, EITHER };

struct Option {
    const char* name;
    const char* column;
};

void compare(mc::Ctx& c) {
    int ncols = 1 + c.choose(2);
    std::vector<Kind> ks;
    Tab t;
    for (int i = 0; i < ncols; i++) {
        ks.push_back(KINDS[c.choose(6)]);
        t.cols.push_back(column(std::string(1, 'a' + i), ks[i]));
    }
    c.shard();
    int rows = 1 + c.choose(3);
    for (int r = 0; r < rows; r++) {
        Row row;
        for (int i = 0; i < ncols; i++)
            row.push_back(value(ks[i], r + i));
        t.rows.push_back(row);
    }
    Tab u = t;
    int col = c.choose(ncols);
    int row = c.choose(rows);
    int edit = c.choose(14);
    int opt  = c.choose(4);
    std::string optCol(1, 'a' + c.choose(ncols));
    if (opt == 0 && optCol != "a")
        c.skip();
    bool excluded     = opt == 1 && optCol[0] - 'a' == col;
    bool typeExcluded = opt == 2 && optCol[0] - 'a' == col;
    int type = ks[col].type;
    bool num = type != STRING, isInt = type == INTEGER || type == BITFIELD;
    Raw missing = isInt ? rI(IMDI) : rD(RMDI);
    Raw& cell = u.rows[row][col];
    Verdict v = DIFF;
    const char* name = "";
    auto valueEdit = [&] { v = excluded ? EQUAL : DIFF; };
    switch (edit) {
        case 0: name = "nothing"; v = EQUAL; break;
        case 1:
            name = "another value";
            if (!num)
                cell = rS(asS(cell) == "zz" ? "yy" : "zz", ks[col].w);
            else
                cell = isInt ? rI(asI(cell) == 6 ? 5 : 6) : rD(-7.5);
            valueEdit();
            break;
        case 2:
            name = "the next value";
            if (!num || cell == missing || (type == DOUBLE && asD(cell) > 1e20))
                c.skip();
            cell = isInt ? rI(asI(cell) + 1) : type == REAL ? rD(double(nextafterf(float(asD(cell)), 1e30f))) : rD(asD(cell) * (1 + 1e-8));
            valueEdit();
            break;
        case 3:
            name = "a value within the tolerance";
            if (type != DOUBLE || cell == missing)
                c.skip();
            cell = rD(nextafter(asD(cell), 0));
            v    = EQUAL;
            break;
        case 4:
            name = "a missing value";
            if (!num || cell == missing)
                c.skip();
            cell = missing;
            valueEdit();
            if (opt == 3)
                v = EITHER;
            break;
        case 5:
            name = "the end of a string";
            if (num || asS(cell).size() < 2)
                c.skip();
            cell[asS(cell).size() - 1] = '!';
            valueEdit();
            break;
        case 6:
            name = "a longer string";
            if (num || asS(cell).size() == cell.size())
                c.skip();
            cell[asS(cell).size()] = ' ';
            valueEdit();
            break;
        case 7: name = "the name of a column"; u.cols[col].name = "renamed"; v = DIFF; break;
        case 8:
            name = "the type of a column";
            if (!num || type == DOUBLE)
                c.skip();
            u.cols[col].type = isInt ? (type == INTEGER ? BITFIELD : INTEGER) : DOUBLE;
            u.cols[col].bits = u.cols[col].type == BITFIELD ? BITS : decltype(u.cols[col].bits)();
            v = excluded || typeExcluded ? EQUAL : DIFF;
            break;
        case 9:
            name = "the definition of bits";
            if (type != BITFIELD)
                c.skip();
            u.cols[col].bits = {{"x", 2}, {"yy", 2}};
            v = excluded || typeExcluded ? EQUAL : DIFF;
            break;
        case 10: name = "one row less"; u.rows.pop_back(); v = DIFF; break;
        case 11: name = "one column less"; u.cols.pop_back(); v = DIFF;
            if (ncols == 1)
                c.skip();
            for (auto& r : u.rows)
                r.pop_back();
            break;
        case 12:
            name = "the width of a column of strings";
            if (num)
                c.skip();
            u.cols[col].w++;
            for (auto& r : u.rows)
                r[col] = rS(asS(r[col]), u.cols[col].w);
            v = EQUAL;
            break;
        case 13:
            name = "nothing, an infinite value in both";
            if (type != REAL && type != DOUBLE)
                c.skip();
            t.rows[row][col] = cell = rD(row ? INFINITY : -INFINITY);
            v = EQUAL;
            break;
    }
    int split1 = c.choose(2), split2 = c.choose(2);
    std::string b1 = encode(t, split1), b2 = encode(u, split2);
    bool swap = c.flip();
    if (swap)
        std::swap(b1, b2);
    Input in1("in1", b1), in2("in2", b2);
    std::vector<std::string> args;
    static const char* opts[] = {"", "-excludeColumns", "-excludeColumnsTypes", "-dontCheckMissing"};
    if (opt)
        args.push_back(opts[opt]);
    if (opt == 1 || opt == 2)
        args.push_back(optCol);
    args.push_back(in1.name);
    args.push_back(in2.name);
    std::string e = tool<odc::tool::CompareTool>(args);
    std::string what = mc::fmt("%s %s [%s] [%s]%s%s%s", opts[opt], optCol.c_str(), showTab(t).c_str(), showTab(u).c_str(), swap ? " swapped" : "",
                               split1 ? " first split" : "", split2 ? " second split" : "");
    c.note(std::string("compare, different in ") + name + ": " + what + ": " + (e.empty() ? "same" : e));
    c.at(mc::fmt("compare %s", name));
    in1.verify(c);
    in2.verify(c);
    c.outcome(mc::hashStr(name) * 2 + e.empty());
    if (edit)
        c.nontrivial();
    if (v == EQUAL && opt == 3 && e.find("hasMissing") != std::string::npos)
        c.fail("compare -dontCheckMissing tests whether frames have missing values", what + ": " + e);
    if (v == EQUAL && !e.empty())
        c.fail(mc::fmt("compare: %s reported as different", name), what + ": " + e);
    if (v == DIFF && e.empty())
        c.fail(mc::fmt("compare: %s not reported", name), what);
}

// files of several frames with different columns
void compareFrames(mc::Ctx& c) {
    auto make = [&](int k, int rows) {
        Tab t;
        if (k == 0)
            t.cols = {{"a", INTEGER}, {"s", STRING, 1}};
        else if (k == 1)
            t.cols = {{"s", STRING, 2}, {"a", INTEGER}};
        else if (k == 2)
            t.cols = {{"a", INTEGER}, {"s", STRING, 2}};
        else
            t.cols = {{"a", INTEGER}, {"s", STRING, 1}, {"d", DOUBLE}};
        for (int r = 0; r < rows; r++) {
            Row row;
            for (auto& col : t.cols)
                row.push_back(col.type == INTEGER ? rI(4) : col.type == DOUBLE ? rD(2.5) : rS("str", col.w));
            t.rows.push_back(row);
        }
        return t;
    };
    std::vector<Tab> files[2];
    Flat flat[2];
    std::string what;
    for (int f = 0; f < 2; f++) {
        int n = c.choose(c.thorough ? 4 : 3);
        for (int i = 0; i < n; i++)
            files[f].push_back(make(c.choose(4), c.choose(3)));
        if (f == 0)
            c.shard();
        flat[f] = flatAll(files[f]);
        what += "{" + showAll(files[f]) + "} ";
    }
    Input in1("in1", encodeAll(files[0])), in2("in2", encodeAll(files[1]));
    std::string e  = tool<odc::tool::CompareTool>({in1.name, in2.name});
    std::string e2 = thrown([&] { odc::Comparator().compare(eckit::PathName(in1.name), eckit::PathName(in2.name)); });
    std::string e3 = thrown([&] {
        eckit::MemoryHandle h1(in1.bytes.data(), in1.bytes.size()), h2(in2.bytes.data(), in2.bytes.size());
        h1.openForRead();
        h2.openForRead();
        odc::Comparator().compare(h1, h2);
    });
    c.note("compare " + what + ": " + e + "; " + e2 + "; " + e3);
    c.at("compare");
    bool same = flat[0] == flat[1];
    bool none = flat[0].empty() && flat[1].empty();
    c.outcome(same * 4 + e.empty() * 2 + e2.empty());
    if (files[0].size() > 1 && files[1].size() > 1)
        c.nontrivial();
    if (none)
        return;  // nothing to compare: any answer will do, short of a crash
    if (same && !e.empty())
        c.fail("compare frames: reported as different", what + ": " + e);
    if (!same && e.empty())
        c.fail("compare frames: not reported", what);
    if (same && !e2.empty())
        c.fail("compare frames: reported as different by the library", what + ": " + e2);
    if (!same && e2.empty())
        c.fail("compare frames: not reported by the library", what);
    if (same != e3.empty())
        c.fail("compare frames: handles", what + ": " + e3);
}

void copying(mc::Ctx& c) {
    bool fixed = c.flip();
    int n = 1 + c.choose(c.thorough ? 3 : 2);
    std::vector<Tab> ts;
    for (int f = 0; f < n; f++) {
        int ncols = 1 + c.choose(2);
        Tab t;
        std::vector<Kind> ks;
        for (int i = 0; i < ncols; i++) {
            ks.push_back(KINDS[c.choose(n == 3 ? 3 : f == 1 && !c.thorough ? 4 : 6)]);
            t.cols.push_back(column(std::string(1, 'a' + i), ks.back()));
        }
        if (f == 0)
            c.shard();
        int rows = c.choose(3);
        int from = c.choose(3);
        for (int r = 0; r < rows; r++) {
            Row row;
            for (int i = 0; i < ncols; i++)
                row.push_back(value(ks[i], r + i + from));
            t.rows.push_back(row);
        }
        ts.push_back(t);
    }
    Input in("in", encodeAll(ts));
    std::string e = fixed ? tool<odc::tool::FixedSizeRowTool>({in.name, path("out")}) : tool<odc::tool::CompactTool>({in.name, path("out")});
    std::string what = std::string(fixed ? "fixrowsize " : "compact ") + showAll(ts);
    c.note(what + ": " + e);
    c.at(fixed ? "fixrowsize" : "compact");
    in.verify(c);
    c.outcome(e.empty());
    if (n > 1)
        c.nontrivial();
    Flat want = flatAll(ts);
    if (want.empty() && !e.empty())
        return;
    if (!e.empty())
        c.fail(fixed ? "fixrowsize refused" : "compact refused", what + ": " + e);
    expectRows(c, fixed ? "fixrowsize" : "compact", what, path("out"), want);
}

//----------------------------------------------------------------------------------------------------------------------
// ls, header, index, xyv and parts of files with sql

std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> v;
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l))
        v.push_back(l);
    return v;
}

void listing(mc::Ctx& c) {
    static const long ints[]    = {7, IMDI, -70000, 3000000000l, -5000000000l};
    static const double reals[] = {0.5, RMDI, -2.25, 1024, 1e10};
    static const long bits[]    = {5, IMDI, 0, 4294967295l, 15};
    int n = 1 + c.choose(2);
    std::vector<Tab> ts;
    for (int f = 0; f < n; f++) {
        int ncols = 1 + c.choose(2);
        Tab t;
        std::vector<Kind> ks;
        for (int i = 0; i < ncols; i++) {
            ks.push_back(KINDS[c.choose(n == 1 || c.thorough ? 6 : 4)]);
            t.cols.push_back(column(std::string(1, 'a' + i), ks.back()));
        }
        if (f == 0)
            c.shard();
        int rows = c.choose(3);
        int from = c.choose(n == 1 ? 5 : 2);
        for (int r = 0; r < rows; r++) {
            Row row;
            for (int i = 0; i < ncols; i++)
                row.push_back(ks[i].type == INTEGER    ? rI(ints[(r + i + from) % 5])
                              : ks[i].type == BITFIELD ? rI(bits[(r + i + from) % 5])
                              : ks[i].type == STRING   ? value(ks[i], r + i + from)
                                                       : rD(reals[(r + i + from) % 5]));
            t.rows.push_back(row);
        }
        ts.push_back(t);
    }
    std::string bytes;
    if (!thrown([&] { bytes = encodeAll(ts); }).empty())
        c.skip();  // large integers and missing ones in the same column
    Input in("in", bytes);
    int to = c.choose(2);
    std::string out;
    std::string e = to ? tool<odc::tool::LSTool>({"-o", path("text"), in.name}, &out) : tool<odc::tool::LSTool>({in.name}, &out);
    if (to)
        out = readFile(path("text"));
    std::string what = "ls " + showAll(ts);
    c.note(what + ": " + out + e);
    c.at("ls");
    in.verify(c);
    if (!e.empty())
        c.fail("ls refused", what + ": " + e);
    std::vector<std::string> got = lines(out);
    size_t at = 0;
    std::string current;
    for (auto& t : ts) {
        if (t.rows.empty())
            continue;
        std::string names;
        for (auto& col : t.cols)
            names += (names.empty() ? "" : "\t") + col.name;
        if (at < got.size() && got[at] == names)
            at++;
        else if (current != names)
            c.fail("ls: names", what + ": printed " + printable(out));
        current = names;
        for (auto& r : t.rows) {
            std::string want[2];  // without and with quotes for an empty string
            for (int q = 0; q < 2; q++)
                for (size_t i = 0; i < r.size(); i++) {
                    want[q] += i ? "\t" : "";
                    int ty = t.cols[i].type;
                    if (ty == STRING)
                        want[q] += asS(r[i]).empty() && !q ? "." : "'" + asS(r[i]) + "'";
                    else if (ty == INTEGER || ty == BITFIELD)
                        want[q] += asI(r[i]) == IMDI ? "." : std::to_string(asI(r[i]));
                    else
                        want[q] += asD(r[i]) == RMDI ? "." : mc::fmt("%.6f", asD(r[i]));
                }
            if (at >= got.size() || (got[at] != want[0] && got[at] != want[1]))
                c.fail("ls: values", what + ": printed " + (at < got.size() ? printable(got[at]) : "nothing") + " instead of " + printable(want[1]));
            at++;
            c.nontrivial();
        }
    }
    if (at != got.size())
        c.fail("ls: more lines", what + ": printed " + printable(out));
    c.outcome(mc::hashStr(out));
}

// header, and sql on parts of a file
void offsets(mc::Ctx& c) {
    int n = 1 + c.choose(3);
    std::vector<Tab> ts;
    std::vector<std::string> enc;
    std::string all;
    for (int f = 0; f < n; f++) {
        int k = c.choose(4);
        Tab t;
        t.cols = {{"a", INTEGER}};
        if (k == 2)
            t.cols.push_back({"s", STRING, 2});
        int rows = k == 3 ? 0 : k + 1;
        for (int r = 0; r < rows; r++) {
            Row row = {rI(100 * f + r)};
            if (k == 2)
                row.push_back(rS("abcdefghij", 2));
            t.rows.push_back(row);
        }
        ts.push_back(t);
        enc.push_back(encode(t));
        all += enc.back();
    }
    Input in("in", all);
    std::string out;
    std::string e = tool<odc::tool::HeaderTool>({"-offsets", in.name}, &out);
    std::string want;
    size_t pos = 0;
    std::vector<size_t> starts;
    for (int f = 0; f < n; f++) {
        want += mc::fmt("%zu %zu %zu %zu\n", pos, enc[f].size(), ts[f].rows.size(), ts[f].cols.size());
        starts.push_back(pos);
        pos += enc[f].size();
    }
    starts.push_back(pos);
    std::string what = showAll(ts);
    c.note(what + ": " + out + e);
    if (!e.empty() || out != want)
        c.fail("header -offsets", what + ": printed " + printable(out) + e + " instead of " + printable(want));
    int from = c.choose(n + 1), to = from + c.choose(n + 1 - from);
    c.shard();
    int length = c.choose(2);  // whether given
    bool text  = c.flip();
    if (!length && to != n)
        c.skip();
    std::vector<std::string> args = {"-offset", std::to_string(starts[from])};
    if (length) {
        args.push_back("-length");
        args.push_back(std::to_string(starts[to] - starts[from]));
        if (to == from)
            c.skip();
    }
    args.insert(args.end(), {"-i", in.name, "-o", path("out"), "-f", text ? "ascii" : "odb", "-T", "--no_alignment", "select a;"});
    unlink(path("out").c_str());
    std::string e2 = tool<odc::tool::SQLTool>(args);
    Flat rows;
    std::string txt;
    for (int f = from; f < to; f++)
        for (auto& r : ts[f].rows) {
            rows.push_back(flatCell("a", INTEGER, r[0]));
            txt += std::to_string(asI(r[0])) + "\n";
        }
    c.note(mc::fmt("sql on frames %d to %d, length%s given, as %s: ", from, to, length ? "" : " not", text ? "text" : "odb") + e2);
    c.at("sql on a part");
    in.verify(c);
    c.outcome(e2.empty());
    if (rows.empty())
        return;
    c.nontrivial();
    std::string key = mc::fmt("sql -offset %s%s", from ? "in the middle" : "0", length ? " -length" : "");
    if (!e2.empty())
        c.fail(key, what + ": refused: " + e2);
    if (!text)
        expectRows(c, key, what, path("out"), rows);
    else {
        std::string got = readFile(path("out")), squeezed;
        for (char ch : got)
            if (ch != ' ' && ch != '\t')
                squeezed += ch;
        if (squeezed != txt)
            c.fail(key, what + ": printed " + printable(got) + " instead of " + printable(txt));
    }
}

// sql printing: every combination of its options
void printing(mc::Ctx& c) {
    int ncols = 1 + c.choose(2);
    Tab t;
    std::vector<Kind> ks;
    for (int i = 0; i < ncols; i++) {
        ks.push_back(KINDS[c.choose(6)]);
        t.cols.push_back(column(i ? "b" : "a@t", ks.back()));
    }
    int from = c.choose(ncols == 1 || c.thorough ? 4 : 2);
    int rows = 1 + c.choose(2);
    c.shard();
    for (int r = 0; r < rows; r++) {
        Row row;
        for (int i = 0; i < ncols; i++)
            row.push_back(value(ks[i], from + r + i));
        t.rows.push_back(row);
    }
    bool split = rows == 2 && c.flip();
    static const std::vector<std::string> delims = {"\t", ",", ";;"}, formats = {"", "ascii", "wide"};
    int delim = c.choose(3), format = c.choose(3);
    bool noNames = c.flip(), noNull = c.flip(), binary = c.flip(), plain = c.flip(), full = c.flip(), file = c.flip();
    Input in("in", encode(t, split ? 1 : 0));
    std::vector<std::string> args = {"-i", in.name};
    std::string given;
    auto option = [&](bool yes, std::vector<std::string> what) {
        if (!yes)
            return;
        for (auto& w : what)
            given += " " + w;
        args.insert(args.end(), what.begin(), what.end());
    };
    option(delim, {"-delimiter", delims[delim]});
    option(format, {"-f", formats[format]});
    option(noNames, {"-T"});
    option(noNull, {"-N"});
    option(binary, {rows == 1 ? "--bin" : "--binary"});
    option(plain, {"--no_alignment"});
    option(full, {"--full_precision"});
    option(file, {"-o", path("out")});
    args.push_back("select *");
    unlink(path("out").c_str());
    std::string out;
    std::string e    = tool<odc::tool::SQLTool>(args, &out);
    std::string what = "sql" + given + " on " + showTab(t);
    c.note(what + ": " + out + e);
    c.at("sql printing");
    in.verify(c);
    c.nontrivial();
    if (!e.empty())
        c.fail("sql printing: refused", what + ": " + e);
    if (file && !format) {
        Flat want;
        flatten(want, t);
        expectRows(c, "sql: default format to a file", what, path("out"), want);
        return;
    }
    if (file)
        out = readFile(path("out"));
    std::string text;
    auto line = [&](const std::vector<std::string>& cells) {
        for (size_t i = 0; i < cells.size(); i++)
            text += (i ? delims[delim] : "") + cells[i];
        text += "\n";
    };
    if (!noNames) {
        std::vector<std::string> names;
        for (int i = 0; i < ncols; i++) {
            static const std::map<int, std::string> types = {{INTEGER, "integer"}, {REAL, "real"}, {DOUBLE, "double"}, {BITFIELD, "Bitfield[x:1;yy:3]"}};
            std::string type = ks[i].type == STRING ? std::string("string") : types.at(ks[i].type);
            names.push_back(t.cols[i].name + (format == 2 ? ":" + type : ""));
        }
        line(names);
    }
    for (auto& r : t.rows) {
        std::vector<std::string> cells;
        for (int i = 0; i < ncols; i++) {
            const int ty = ks[i].type;
            std::string s;
            if (ty == STRING)
                s = "'" + asS(r[i]) + "'";
            else if (ty == REAL || ty == DOUBLE)
                s = asD(r[i]) == RMDI && !noNull ? "NULL" : mc::fmt(full ? "%.17f" : "%.6f", asD(r[i]));
            else if (asI(r[i]) == IMDI && !noNull)
                s = "NULL";
            else if (ty == BITFIELD && binary && asI(r[i]) != IMDI) {
                for (long v = asI(r[i]); v; v >>= 1)
                    s = (v & 1 ? "1" : "0") + s;
                s = s.empty() ? "0" : s;
            }
            else if (ty == BITFIELD && binary)
                s = std::string(31, '1');
            else
                s = std::to_string(asI(r[i]));
            cells.push_back(s);
        }
        line(cells);
    }
    std::string got;
    for (char ch : out)
        if (plain || ch != ' ')
            got += ch;
    for (const char* size : {"string8", "string16"})  // as long as the longest value
        for (size_t at; (at = got.find(size)) != std::string::npos;)
            got.replace(at, strlen(size), "string");
    c.outcome(mc::hashStr(got));
    if (got != text)
        c.fail("sql printing", what + ": printed " + printable(out) + " instead of " + printable(text));
}

// xyv: a header, and a line for each row
void points(mc::Ctx& c) {
    static const double lats[] = {0, -89.5, 45.25}, lons[] = {359.75, 0, -180};
    int kind = c.choose(3), order = c.choose(6), rows = c.choose(5);
    c.shard();
    Tab t;
    std::vector<int> perm = {0, 1, 2};
    for (int i = 0; i < order; i++)
        std::next_permutation(perm.begin(), perm.end());
    const Kind& k = KINDS[kind == 2 ? 5 : kind];
    for (int p : perm)
        t.cols.push_back(p == 0 ? Col{"lat@hdr", REAL} : p == 1 ? Col{"lon@hdr", REAL} : column("v@body", k));
    for (int r = 0; r < rows; r++) {
        int at = c.choose(3);
        Row row;
        for (int p : perm)
            row.push_back(p == 0 ? rD(lats[at]) : p == 1 ? rD(lons[(at + r) % 3]) : value(k, r + at));
        t.rows.push_back(row);
    }
    Input in("in", encode(t, rows > 1 && c.flip() ? 1 : 0));
    std::string e    = tool<odc::tool::XYVTool>({in.name, c.flip() ? "v" : "v@body", path("out")});
    std::string what = "xyv " + showTab(t);
    c.note(what + ": " + readFile(path("out")) + e);
    c.at("xyv");
    in.verify(c);
    if (!e.empty())
        c.fail("xyv refused", what + ": " + e);
    std::vector<std::string> got = lines(readFile(path("out")));
    size_t at = 0;
    while (at < got.size() && got[at] != "#DATA")
        at++;
    if (at == got.size())
        c.fail("xyv: no data", what);
    for (at++; at < got.size() && got[at].empty();)
        at++;
    for (auto& r : t.rows) {
        if (at >= got.size())
            c.fail("xyv: rows", what + ": only " + readFile(path("out")));
        double x[3];
        if (sscanf(got[at].c_str(), "%lf\t%lf\t%lf", x, x + 1, x + 2) != 3)
            c.fail("xyv: a line", what + ": " + got[at]);
        for (int i = 0; i < 3; i++) {
            const Raw& w = r[i];
            double v     = t.cols[i].type == INTEGER ? asI(w) : asD(w);
            if (std::abs(x[perm[i]] - v) > 1e-5 * std::abs(v))
                c.fail("xyv: values", what + ": " + got[at]);
        }
        at++;
        c.nontrivial();
    }
    if (at != got.size())
        c.fail("xyv: more lines", what + ": " + readFile(path("out")));
    c.outcome(rows);
}

void indexing(mc::Ctx& c) {
    int n = 1 + c.choose(c.thorough ? 3 : 2);
    std::string all;
    struct Entry {
        long begin, length, seqno, rows;
    };
    std::vector<Entry> want;
    std::string what;
    for (int f = 0; f < n; f++) {
        int rows = c.choose(c.thorough && n < 3 ? 6 : 4);
        Tab t;
        t.cols = {{"s", STRING, 2}, {"seqno", INTEGER}};
        if (c.flip())
            std::swap(t.cols[0], t.cols[1]);
        long seq = -1;
        size_t first = want.size();
        for (int r = 0; r < rows; r++) {
            seq = r == 0 ? long(c.choose(3)) - 1 : seq + c.choose(2);
            Row row;
            for (auto& col : t.cols)
                row.push_back(col.type == STRING ? rS("0123456789", 2) : rI(seq));
            t.rows.push_back(row);
            if (want.size() > first && want.back().seqno == seq)
                want.back().rows++;
            else
                want.push_back({long(all.size()), 0, seq, 1});
        }
        if (f == 0)
            c.shard();
        std::string b = encode(t);
        for (size_t i = first; i < want.size(); i++)
            want[i].length = b.size();
        all += b;
        what += "[" + showTab(t) + "] ";
    }
    Input in("in", all);
    std::string e;
    {
        AsDoubles dbl;
        e = thrown([&] { odc::Indexer::createIndex(eckit::PathName(in.name), eckit::PathName(path("index"))); });
        if (e.empty())  // and as one of a list of files
            e = thrown([&] {
                Input in2("in2", all);
                auto l = odc::Indexer::createIndex(std::vector<eckit::PathName>{in2.name, in.name});
                for (auto& i : l)
                    if (readFile(std::string(i)) != readFile(path("index")))
                        throw std::runtime_error("another index");
                if (l.size() != 2 || std::string(l[0]) != in2.name + ".idx" || std::string(l[1]) != in.name + ".idx")
                    throw std::runtime_error("other names");
            });
    }
    c.note("index of " + what + ": " + e);
    c.at("index");
    in.verify(c);
    if (!e.empty())
        c.fail("index refused", what + ": " + e);
    Flat rows;
    for (auto& w : want)
        rows.push_back(flatCell("block_begin", INTEGER, rI(w.begin)) + flatCell("block_length", INTEGER, rI(w.length)) + flatCell("seqno", INTEGER, rI(w.seqno)) +
                       flatCell("n_rows", INTEGER, rI(w.rows)));
    if (want.size() > 1)
        c.nontrivial();
    c.outcome(mc::hashStr(what));
    expectRows(c, "index", what, path("index"), rows);
}

//----------------------------------------------------------------------------------------------------------------------
// outputs which cannot be written, inputs which are broken

void failing(mc::Ctx& c) {
    int which = c.choose(12);
    int how   = c.choose(4);
    static const char* hows[] = {"an output without room", "an output which cannot be created", "an input which does not exist", "an input cut short"};
    // n.b. eckit's handle of files waits for room, so no output without room but those of text
    if (how == 0 && (which < 6 || which > 8))
        c.skip();
    Tab t;
    t.cols = {{"lat", REAL}, {"lon", REAL}, {"a", INTEGER}, {"seqno", INTEGER}};
    int rows = c.choose(2) ? 5000 : 2;
    c.shard();
    for (int r = 0; r < rows; r++)
        t.rows.push_back({rD(r), rD(2 * r), rI(5), rI(r)});
    std::string bytes = encode(t);
    Tab u;
    u.cols = {{"other", INTEGER}};
    u.rows.assign(rows, {rI(3)});
    Input in("in", how == 3 ? bytes.substr(0, bytes.size() - 7) : bytes);
    Input in2("in2", encode(u));
    Input csv("csv", "a:INTEGER\n1\n2\n");
    std::string out  = how == 0 ? "/dev/full" : how == 1 ? csv.name + "/out" : path("out");
    std::string name = how == 2 ? path("nonexistent") : in.name;
    std::string e;
    const char* tn = "";
    switch (which) {
        case 0: tn = "set"; e = tool<odc::tool::SetTool>({"a=1", name, out}); break;
        case 1: tn = "mdset"; e = tool<odc::tool::MDSetTool>({"a=1", name, out}); break;
        case 2: tn = "merge"; e = tool<odc::tool::MergeTool>({"-o", out, name, in2.name}); break;
        case 3: tn = "merge -S"; e = tool<odc::tool::MergeTool>({"-S", "-o", out, name, "select *;", in2.name, "select *;"}); break;
        case 4: tn = "compact"; e = tool<odc::tool::CompactTool>({name, out}); break;
        case 5: tn = "fixrowsize"; e = tool<odc::tool::FixedSizeRowTool>({name, out}); break;
        case 6: tn = "ls"; e = tool<odc::tool::LSTool>({"-o", out, name}); break;
        case 7: tn = "xyv"; e = tool<odc::tool::XYVTool>({name, "a", out}); break;
        case 8: tn = "sql to text"; e = tool<odc::tool::SQLTool>({"-i", name, "-o", out, "-f", "ascii", "select *;"}); break;
        case 9: tn = "sql to odb"; e = tool<odc::tool::SQLTool>({"-i", name, "-o", out, "-f", "odb", "select *;"}); break;
        case 10:
            tn = "index";
            {
                AsDoubles d;
                e = thrown([&] { odc::Indexer::createIndex(eckit::PathName(name), eckit::PathName(out)); });
            }
            break;
        case 11:
            tn = "count";
            if (how < 2)
                c.skip();
            e = tool<odc::tool::CountTool>({name});
            break;
    }
    c.note(std::string(tn) + " with " + hows[how] + mc::fmt(" and %d rows: ", rows) + e);
    c.at(tn);
    c.nontrivial();
    c.outcome(which);
    if (e.empty())
        c.fail(mc::fmt("%s succeeds with %s", tn, hows[how]), mc::fmt("%s succeeds with %s, %d rows", tn, hows[how], rows));
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"count", "1 to 3 files of up to 3 pieces of 0 to 20 rows, each counted alone and all together", count},
        {"set", "every table of 2 or 3 columns of each kind, followed or not by a frame with the same or other columns; 1 or 2 columns set, in either order, or an unknown one", set},
        {"mdset", "a column of each kind, constant, partly or entirely missing or varying in each of 1 or 2 frames; new value, new type or both", mdset},
        {"merge", "2 or 3 files of 1 or 2 columns of each kind and different numbers of rows, with and without queries; one frame, many, wider strings or other columns later; a column in both", merge},
        {"compare", "every pair of tables different in one respect, or none, split into frames or not, in either order, with each option", compare},
        {"compare-frames", "every pair of files of up to 2 (thorough 3) frames with different columns and 0 to 2 rows", compareFrames},
        {"copying", "compact and fixrowsize of files of up to 3 frames of columns of each kind", copying},
        {"listing", "ls of files of 1 or 2 frames of columns of each kind, to standard output and to a file", listing},
        {"printing", "sql with every combination of its 8 options on tables of one or two columns of 6 kinds, 1..2 rows in 1..2 frames: what it prints", printing},
        {"points", "xyv of up to 4 rows in one frame or many, columns in every order, values of 3 kinds: the lines printed", points},
        {"offsets", "header -offsets of files of up to 3 frames, and queries on each range of frames", offsets},
        {"index", "files of up to 3 frames with every nondecreasing sequence of report numbers", indexing},
        {"failing", "each tool with outputs and inputs that fail", failing},
    };
}
