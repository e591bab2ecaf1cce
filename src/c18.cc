// C18: importing delimited text.
#include <sys/stat.h>

#include <fstream>
#include <limits>
#include <sstream>

#include "eckit/filesystem/PathName.h"
#include "odc/Writer.h"
#include "odc/csv/TextReader.h"
#include "odc/csv/TextReaderIterator.h"
#include "odc/tools/ImportTool.h"
#include "flat.h"

using namespace H;

namespace {

using Bits = std::vector<std::pair<std::string, int>>;

struct HCol {
    std::string name;
    int type;
    Bits bits;
    std::string text() const {
        std::string s = name + ":" + tname(type);
        for (size_t i = 0; i < bits.size(); i++)
            s += (i ? ";" : "[") + bits[i].first + ":" + std::to_string(bits[i].second);
        return s + (bits.empty() ? "" : "]");
    }
};

enum Verdict { VALUE, ERROR, EITHER };  // what has to become of a field, a line or a document

// A field of a given type: the text, what has to become of it, and the value
struct Field {
    std::string text;
    Verdict verdict = VALUE;
    Raw value;
};

Field fI(const std::string& t, long v, Verdict d = VALUE) { return {t, d, rI(v)}; }
Field fD(const std::string& t, double v, Verdict d = VALUE) { return {t, d, rD(v)}; }
Field fS(const std::string& t, const std::string& v, Verdict d = VALUE) { return {t, d, v.size() < 8 ? rS(v) : v}; }
Field bad(const std::string& t) { return {t, ERROR, Raw()}; }

const std::vector<Field>& fields(int type, bool thorough) {
    static const std::vector<Field> integers = {
        fI("1", 1), fI("-7", -7), fI("NULL", IMDI), fI("abc", 0, ERROR), fI("1.5", 0, ERROR), fI("300", 300), fI("2147483646", 2147483646),
        fI("-2147483648", -2147483648l), fI("", 0, ERROR), fI("12x", 0, ERROR),
        // thorough
        fI("3.0", 3, EITHER), fI("null", IMDI), fI("0", 0), fI("+4", 4, EITHER), fI("1e3", 1000, EITHER), fI("70000", 70000), fI("--1", 0, ERROR),
        fI("99999999999999999999", 0, ERROR), fI("007", 7), fI("nan", 0, ERROR), fI("1 2", 0, ERROR), fI("1e39", 0, ERROR)};
    static const std::vector<Field> reals = {
        fD("1.5", 1.5), fD("-0.1", double(-0.1f)), fD("NULL", RMDI), fD("x", 0, ERROR), fD("16777217", double(16777217.0f)), fD("", 0, ERROR),
        fD("1.5z", 0, ERROR), fD("7", 7),
        fD("-inf", -std::numeric_limits<double>::infinity(), EITHER), fD("1e39", 0, ERROR), fD("1e-30", double(1e-30f)), fD("Null", RMDI),
        fD("0", 0), fD("1,5", 0, ERROR)};
    static const std::vector<Field> doubles = {
        fD("1.5", 1.5), fD("0.1", 0.1), fD("NULL", RMDI), fD("x", 0, ERROR), fD("1e300", 1e300), fD("", 0, ERROR), fD("1.5z", 0, ERROR), fD("7", 7),
        fD("inf", std::numeric_limits<double>::infinity(), EITHER), fD("123456789.123456789", 123456789.123456789), fD("nulL", RMDI),
        fD("1e400", 0, ERROR), fD("-3", -3), fD("5e-324", 5e-324, EITHER)};
    static const std::vector<Field> strings = {
        fS("a", "a"), fS("'q r'", "q r"), fS("NULL", ""), fS("12345678", "12345678"), fS("123456789", "123456789"), fS("seventeen-chars-x", "seventeen-chars-x"),
        fS("", ""), fS("\"d\"", "d"), fS("'NULL'", "NULL"), fS("b c", "b c"), fS("null", ""), fS("1", "1"),
        fS("abcdefghijklmnopqrstuvwxyz012345", "abcdefghijklmnopqrstuvwxyz012345"), fS("nan", "nan"), fS("'", "'"), fS("''", "")};
    static const std::vector<Field> bitfields = {
        fI("0", 0), fI("7", 7), fI("255", 255), fI("NULL", IMDI), fI("z", 0, ERROR), fI("", 0, ERROR), fI("1.5", 0, ERROR), fI("-1", -1, EITHER),
        fI("256", 256, EITHER), fI("0x10", 16, EITHER), fI("129", 129)};
    static std::vector<Field> quick[6];
    const std::vector<Field>& all = type == INTEGER ? integers : type == REAL ? reals : type == DOUBLE ? doubles : type == STRING ? strings : bitfields;
    if (thorough)
        return all;
    size_t n = type == INTEGER ? 10 : type == STRING ? 9 : 8;
    if (quick[type].empty())
        quick[type].assign(all.begin(), all.begin() + std::min(n, all.size()));
    return quick[type];
}

const Bits BITS = {{"a", 1}, {"b", 2}, {"c", 5}};

struct Doc {
    std::vector<HCol> cols;
    std::string text;
    std::vector<Row> rows;      // what has to be there
    Verdict verdict = VALUE;
    void worse(Verdict v) {
        if (v == ERROR || verdict == ERROR)
            verdict = ERROR;
        else if (v == EITHER)
            verdict = EITHER;
    }
    Flat flat() const {
        Flat f;
        for (auto& r : rows) {
            std::string s;
            for (size_t c = 0; c < cols.size(); c++)
                s += flatCell(cols[c].name, cols[c].type, r[c]);
            f.push_back(s);
        }
        return f;
    }
};

std::string header(const std::vector<HCol>& cols, const std::string& d) {
    std::string s;
    for (size_t i = 0; i < cols.size(); i++)
        s += (i ? d : "") + cols[i].text();
    return s;
}

// gives its bytes a few at a time
struct Dribble : eckit::DataHandle {
    std::string s;
    size_t pos = 0, step;
    Dribble(const std::string& s, size_t step) : s(s), step(step) {}
    void print(std::ostream& o) const override { o << "Dribble"; }
    eckit::Length openForRead() override { pos = 0; return s.size(); }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void* p, long n) override {
        n = std::min({n, long(step), long(s.size() - pos)});
        memcpy(p, s.data() + pos, n);
        pos += n;
        return n;
    }
    long write(const void*, long n) override { return n; }
    void close() override {}
};

enum Via { TEXT, STREAM, HANDLE, DRIBBLE, IMPORT_FILE, TOOL, TOOL_SQL, READER_OF_PATH, NVIA };
const char* viaName[] = {"string", "istream", "handle", "handle giving 3 bytes at a time", "ImportTool::importFile", "odc import", "odc import -sql", "TextReader(path)"};

std::string import(const std::string& text, const std::string& d, int via) {
    std::string in = mc::scratchDir() + "/c18.csv", out = mc::scratchDir() + "/c18.odb";
    if (via >= IMPORT_FILE) {
        writeFile(in, text);
        unlink(out.c_str());
    }
    AsDoubles as;
    if (via < IMPORT_FILE) {
        eckit::MemoryHandle mh(1024, true);
        mh.openForWrite(0);
        size_t n;
        if (via == TEXT)
            n = odc::api::odbFromCSV(text, mh, d);
        else if (via == STREAM) {
            std::istringstream is(text);
            n = odc::api::odbFromCSV(is, mh, d);
        }
        else if (via == HANDLE) {
            eckit::MemoryHandle ih(text.data(), text.size());
            ih.openForRead();
            n = odc::api::odbFromCSV(ih, mh, d);
        }
        else {
            Dribble ih(text, 3);
            ih.openForRead();
            n = odc::api::odbFromCSV(ih, mh, d);
        }
        return std::string((const char*)mh.data(), size_t(mh.position()));
    }
    if (via == IMPORT_FILE)
        odc::tool::ImportTool::importFile(in, out, d);
    else if (via == READER_OF_PATH) {
        odc::TextReader reader(in, d);
        odc::Writer<> writer{eckit::PathName(out)};
        auto it = writer.begin();
        it->pass1(reader.begin(), reader.end());
    }
    else {
        std::vector<std::string> a = {"import"};
        if (d != ",") {
            a.push_back("-d");
            a.push_back(d == "\t" ? "TAB" : d == " " ? "SPACE" : d);
        }
        if (via == TOOL_SQL) {
            a.push_back("-sql");
            a.push_back("select *");
        }
        a.push_back(in);
        a.push_back(out);
        std::vector<char*> av;
        for (auto& s : a)
            av.push_back(&s[0]);
        odc::tool::ImportTool t(av.size(), av.data());
        t.run();
    }
    return readFile(out);
}

void checkDoc(mc::Ctx& c, const Doc& doc, const std::string& d, int via, const std::string& what) {
    auto show = [&] { return std::string(viaName[via]) + ", delimiter '" + printable(d) + "': " + printable(doc.text.substr(0, 400)); };
    std::string odb;
    std::string err = thrown([&] { odb = import(doc.text, d, via); });
    c.transition();
    if (!err.empty()) {
        if (doc.verdict == VALUE)
            c.fail(what + ": refused", show() + ": " + err);
        c.outcome("error");
        return;
    }
    if (doc.verdict == ERROR)
        c.fail(what + ": accepted", show());
    std::vector<Frame> fs;
    err = thrown([&] { fs = readAllCpp(odb); });
    c.check(err.empty(), what + ": unreadable", show() + ": " + err);
    std::string diff = difference(flatten(fs), doc.flat());
    c.check(diff.empty(), what + ": rows", show() + ": " + diff);
    for (auto& f : fs) {
        c.check(f.cols.size() == doc.cols.size(), what + ": columns", show());
        for (size_t i = 0; i < f.cols.size(); i++) {
            c.check(f.cols[i].name == doc.cols[i].name && f.cols[i].type == doc.cols[i].type, what + ": columns", show());
            if (doc.cols[i].type == BITFIELD)
                c.check(f.cols[i].bits == doc.cols[i].bits, what + ": fields of a bitfield", show());
        }
    }
    c.outcome(doc.rows.empty() ? "no rows" : "rows");
    if (!doc.rows.empty())
        c.nontrivial();
}

HCol hcol(const std::string& name, int type) { return {name, type, type == BITFIELD ? BITS : Bits()}; }
const std::vector<int> TYPES = {INTEGER, REAL, DOUBLE, STRING, BITFIELD};

//----------------------------------------------------------------------------------------------------------------------

// every sequence of fields of one type
void oneColumn(mc::Ctx& c) {
    int type      = c.pick(TYPES);
    int n         = c.choose(4);
    auto& alpha   = fields(type, c.thorough);
    Doc doc;
    doc.cols = {hcol("v@t", type)};
    doc.text = header(doc.cols, ",") + "\n";
    for (int i = 0; i < n; i++) {
        auto& f = alpha[c.choose(alpha.size())];
        if (i == 0)
            c.shard();
        if (f.text.empty() || f.text.find(',') != std::string::npos) {
            // a blank line is not data, but may be an empty string; two fields are too many
            doc.worse(f.text.empty() ? VALUE : ERROR);
            doc.text += f.text + "\n";
            if (f.text.empty() && type == STRING)
                doc.worse(EITHER);
            continue;
        }
        doc.text += f.text + "\n";
        doc.worse(f.verdict);
        doc.rows.push_back({f.value});
    }
    if (c.flip())
        doc.text.pop_back();
    checkDoc(c, doc, ",", TEXT, mc::fmt("column of %s", tname(type)));
}

enum Shape { PLAIN, TRAILING, SHORT, LONG, PADDED, BLANK_BEFORE, SPACES_BEFORE, DELIMS_ONLY, NSHAPES };

// lines of two columns in every shape
void lines(mc::Ctx& c) {
    int t1 = c.pick(TYPES), t2 = c.pick(TYPES);
    std::string d = c.pick(std::vector<std::string>{",", "\t", " ", "|", ";", "x"});
    if (d == ";" && (t1 == BITFIELD || t2 == BITFIELD))
        c.skip();
    c.shard();
    int n = 1 + c.choose(2);
    Doc doc;
    doc.cols = {hcol("p", t1), hcol("q", t2)};
    doc.text = header(doc.cols, d) + "\n";
    for (int i = 0; i < n; i++) {
        std::string line;
        Row row;
        auto plain = [&](int k, int type) {
            // three fields of each type are enough here
            static const std::map<int, std::vector<int>> which = {{INTEGER, {0, 2, 3}}, {REAL, {0, 2, 3}}, {DOUBLE, {1, 2, 3}}, {STRING, {1, 2, 5}}, {BITFIELD, {1, 3, 4}}};
            auto f = fields(type, false)[which.at(type)[c.choose(3)]];
            if (f.text.find(d) != std::string::npos)
                c.skip();  // that would be two fields
            doc.worse(f.verdict);
            row.push_back(f.value);
            return f.text;
        };
        int shape = c.choose(NSHAPES);
        if (shape == DELIMS_ONLY) {
            line = d;
            if (d == " " || d == "\t")
                doc.worse(EITHER);  // a blank line
            if ((t1 != STRING || t2 != STRING) && d != " " && d != "\t")
                doc.worse(ERROR);
            if (d != " " && d != "\t")
                row = {rS(""), rS("")};
        }
        else {
            std::string a = plain(0, t1), b = plain(1, t2);
            if (shape == PLAIN)
                line = a + d + b;
            else if (shape == TRAILING) {
                line = a + d + b + d;
                if (d != " ")
                    doc.worse(EITHER);
            }
            else if (shape == SHORT) {
                line = a;
                doc.worse(ERROR);
            }
            else if (shape == LONG) {
                line = a + d + b + d + "3";
                doc.worse(ERROR);
            }
            else if (shape == PADDED)
                line = d == " " ? " " + a + "  " + b + " " : " " + a + " " + d + "  " + b + "  ";
            else if (shape == BLANK_BEFORE)
                line = "\n" + a + d + b;
            else if (shape == SPACES_BEFORE)
                line = "   \n\n" + a + d + b;
        }
        doc.text += line + "\n";
        if (row.size())
            doc.rows.push_back(row);
    }
    checkDoc(c, doc, d, TEXT, "lines");
}

// every way in, delimiter and a few documents
void interfaces(mc::Ctx& c) {
    int via       = c.choose(NVIA);
    std::string d = c.pick(std::vector<std::string>{",", "\t", " ", "|", "x", ";", "X", "/"});
    c.shard();
    int kind = c.choose(10);
    bool eol = c.flip();
    Doc doc;
    auto row = [&](std::vector<std::string> f, Row r) {
        for (size_t i = 0; i < f.size(); i++)
            doc.text += (i ? d : "") + f[i];
        doc.text += "\n";
        doc.rows.push_back(r);
    };
    doc.cols = {{"i", INTEGER}, {"r@h", REAL}, {"s@b", STRING}, {"d", DOUBLE}, {"j", INTEGER}};
    if (d != ";" && kind != 1)
        doc.cols.push_back(hcol("f", BITFIELD));
    if (kind == 1)
        doc.cols = {{"s", STRING}};
    doc.text  = header(doc.cols, d) + "\n";
    bool bits = doc.cols.size() == 6;
    auto full = [&](long i, const char* r, double rv, const std::string& s, const char* dt, double dv, const char* b, long bv) {
        std::vector<std::string> f = {std::to_string(i), r, s, dt, std::to_string(-i)};
        Row v = {rI(i), rD(rv), s == "NULL" ? rS("") : s.size() < 8 ? rS(s) : s, rD(dv), rI(-i)};
        if (bits) {
            f.push_back(b);
            v.push_back(rI(bv));
        }
        row(f, v);
    };
    switch (kind) {
        case 0:
            break;  // no rows
        case 1:
            for (auto s : {"a", "a-longer-string", "b", "an-even-longer-string-of-40-characters-!"})
                row({s}, {strlen(s) < 8 ? rS(s) : s});
            break;
        case 2:
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            break;
        case 3:
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            full(2, "0.1", 0.1f, "12345678", "1e300", 1e300, "NULL", IMDI);
            full(300, "NULL", RMDI, "NULL", "NULL", RMDI, "255", 255);
            break;
        case 4:
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            full(70000, "1.5", 1.5, "sixteen-charact3", "0.1", 0.1, "0", 0);
            full(1, "1.5", 1.5, "NULL", "0.1", 0.1, "7", 7);
            full(2147480000, "2.5", 2.5, "now-it-is-longer-than-before", "0.1", 0.1, "128", 128);
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            break;
        case 5:  // errors have to come out of every way in
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            doc.text += "1" + d + "2\n";
            doc.worse(ERROR);
            break;
        case 6:
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            full(1, "1.5x", 1.5, "a", "0.1", 0.1, "7", 7);
            doc.worse(ERROR);
            break;
        case 7:
            doc.text.insert(doc.text.find("INTEGER"), "K");
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            doc.worse(ERROR);
            break;
        case 8:  // a blank line
            full(1, "1.5", 1.5, "a", "0.1", 0.1, "7", 7);
            doc.text += "\n";
            full(2, "2.5", 2.5, "b", "0.1", 0.1, "7", 7);
            break;
        case 9:
            doc.text = "";
            doc.cols.clear();
            doc.worse(EITHER);
            break;
    }
    for (auto& r : doc.rows)
        if (d == "x" || d == "X" || d == "-")
            for (auto& v : r)
                if (v.find(d) != std::string::npos && v.size() > 8)
                    c.skip();
    if (eol && !doc.text.empty())
        doc.text.pop_back();
    checkDoc(c, doc, d, via, viaName[via]);
}

// many rows, strings which grow at a given one
void rowCounts(mc::Ctx& c) {
    long n    = c.pick(std::vector<long>{1, 2, 3, 9998, 9999, 10000, 10001, 20000, 20001, 25000});
    int shape = c.choose(4);
    int via   = c.pick(std::vector<int>{TEXT, DRIBBLE, IMPORT_FILE, TOOL});
    c.shard();
    long at = c.pick(std::vector<long>{-1, 0, 1, n / 2, n - 2, n - 1, 9999, 10000});
    Doc doc;
    doc.cols = {{"i", INTEGER}, {"s", STRING}};
    if (shape >= 2)
        doc.cols = {{"s", STRING}, {"u", STRING}, {"i", INTEGER}};
    doc.text = header(doc.cols, ",") + "\n";
    for (long i = 0; i < n; i++) {
        std::string s = i == at ? "seventeen-chars-x" : shape & 1 ? mc::fmt("s%ld", i % 300) : "s";
        std::string u = i == at + 1 ? "another-long-one" : "u";
        Raw rs = s.size() < 8 ? rS(s) : s, ru = u.size() < 8 ? rS(u) : u;
        if (shape >= 2) {
            doc.text += s + "," + u + "," + std::to_string(i) + "\n";
            doc.rows.push_back({rs, ru, rI(i)});
        }
        else {
            doc.text += std::to_string(i) + "," + s + "\n";
            doc.rows.push_back({rI(i), rs});
        }
    }
    checkDoc(c, doc, ",", via, "many rows");
}

// headers
void headers(mc::Ctx& c) {
    static const std::vector<std::pair<std::string, int>> types = {
        {"INTEGER", INTEGER}, {"integer", INTEGER}, {"Real", REAL}, {"DOUBLE", DOUBLE}, {"string", STRING}, {"STRING", STRING},
        {"BITFIELD[a:1]", -1}, {"bitfield[a:1;b:30]", -2}, {"Bitfield[flagA:3;flagB@t:4;c:1]", -3}, {"BITFIELD[a:31]", -6},
        // unusable
        {"", -100}, {"INT", -100}, {"TEXT", -100}, {"INTEGER:8", -100}, {"INTEGERS", -100}, {"IGNORED", -100}, {"BITFIELD[a:0]", -100}, {"BITFIELD[a:x]", -100},
        {"BITFIELD[a]", -100}, {"BITFIELD[a:16;b:16]", -100}, {"BITFIELD[a:1;a:2]", -100}, {"BITFIELD[a:-1]", -100}, {"BITFIELD[a:1", -100},
        {"BITFIELD[a:-1;b:3]", -100}, {"BITFIELD[a:33;b:-3]", -100}, {"BITFIELD[a:4294967297]", -100}, {"BITFIELD[a:1:2]", -100}, {"BITFIELD[a:1x]", -100}};
    static const std::map<int, Bits> defs = {{-1, {{"a", 1}}}, {-2, {{"a", 1}, {"b", 30}}}, {-3, {{"flagA", 3}, {"flagB@t", 4}, {"c", 1}}}, {-6, {{"a", 31}}}};
    static const std::vector<std::string> names = {"a", "lat@hdr", "UPPER", "with space", "x1_2@t_3"};
    int n = 1 + c.choose(2);
    int via = c.pick(std::vector<int>{TEXT, TOOL});
    Doc doc;
    std::string l1, l2;
    for (int i = 0; i < n; i++) {
        auto& t = types[c.choose(types.size())];
        if (i == 0)
            c.shard();
        auto name = names[c.choose(names.size())];
        if (i) {
            if (name == doc.cols[0].name)
                c.skip();
            l1 += ",";
            l2 += ",";
        }
        l1 += name + ":" + t.first;
        HCol h{name, t.second};
        if (t.second == -100)
            doc.worse(ERROR);
        else if (t.second < 0) {
            h.type = BITFIELD;
            h.bits = defs.at(t.second);
        }
        doc.cols.push_back(h);
        l2 += "1";
        if (doc.rows.empty())
            doc.rows.push_back({});
        doc.rows[0].push_back(h.type == STRING ? rS("1") : h.type == REAL || h.type == DOUBLE ? rD(1) : rI(1));
    }
    int data = c.choose(2);
    if (data == 0)
        doc.rows.clear();
    else
        doc.text = l1 + "\n" + l2 + "\n";
    if (data == 0)
        doc.text = l1 + "\n";
    checkDoc(c, doc, ",", via, "header");
}

// integers treated as longs
void asLongs(mc::Ctx& c) {
    int type    = c.pick(std::vector<int>{INTEGER, BITFIELD, STRING, DOUBLE});
    int n       = 1 + c.choose(3);
    Doc doc;
    doc.cols = {hcol("v", type), {"k", INTEGER}};
    doc.text = header(doc.cols, ",") + "\n";
    c.shard();
    auto& alpha = fields(type, c.thorough);
    for (int i = 0; i < n; i++) {
        auto f = alpha[c.choose(alpha.size())];
        if (f.verdict != VALUE || f.text.find(',') != std::string::npos)
            c.skip();
        doc.text += f.text + "," + std::to_string(i) + "\n";
        doc.rows.push_back({f.value, rI(i)});
    }
    eckit::MemoryHandle mh(1024, true);
    mh.openForWrite(0);
    std::string err = thrown([&] { odc::api::odbFromCSV(doc.text, mh, ","); });
    c.transition();
    c.check(err.empty(), "integers as longs: refused", printable(doc.text) + err);
    std::string odb((const char*)mh.data(), size_t(mh.position()));
    std::string diff;
    err = thrown([&] { diff = difference(flatten(readAllCpp(odb)), doc.flat()); });
    c.check(err.empty() && diff.empty(), "integers as longs: rows", printable(doc.text) + diff + err);
    c.nontrivial();
}

// input which cannot be opened or read
void unreadable(mc::Ctx& c) {
    int via  = c.choose(4);
    int kind = c.choose(2);
    std::string in = kind ? mc::scratchDir() : mc::scratchDir() + "/nothing-here.csv", out = mc::scratchDir() + "/c18.odb";
    std::string err = thrown([&] {
        AsDoubles as;
        if (via == 0)
            odc::tool::ImportTool::importFile(in, out, ",");
        else if (via == 3) {
            odc::TextReader reader(in, ",");
            odc::Writer<> writer{eckit::PathName(out)};
            auto it = writer.begin();
            it->pass1(reader.begin(), reader.end());
        }
        else {
            std::vector<std::string> a = {"import"};
            if (via == 2)
                a.insert(a.end(), {"-sql", "select *"});
            a.insert(a.end(), {in, out});
            std::vector<char*> av;
            for (auto& s : a)
                av.push_back(&s[0]);
            odc::tool::ImportTool(av.size(), av.data()).run();
        }
    });
    c.transition();
    c.check(!err.empty(), "input which cannot be read gives no rows", mc::fmt("way in %d, %s", via, kind ? "a directory" : "a missing file"));
    c.nontrivial();
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"one-column", "5 types, up to 3 lines of 8-10 fields each (thorough 11-22): numbers, NULLs, text, empty, too long", oneColumn},
        {"lines", "two columns of every type, 6 delimiters, up to 2 lines in 8 shapes (too few or many fields, padding, blank lines, empty fields)", lines},
        {"interfaces", "10 documents through string, stream, data handle, handle with short reads, the import tool with and without SQL, the reader of a path, with 8 delimiters", interfaces},
        {"row-counts", "1 to 25000 rows around the frame size of 10000, strings which grow at a given row, 4 column arrangements", rowCounts},
        {"headers", "one and two columns of 28 type texts (18 unusable) and 5 names", headers},
        {"longs", "integers treated as longs: 1 to 3 rows of every usable field", asLongs},
        {"unreadable", "missing file and directory through the import tool", unreadable},
    };
}
