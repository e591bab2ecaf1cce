// C19: splitting a file partitions its rows by key.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>

#include "eckit/filesystem/PathName.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/tools/SplitTool.h"
#include "flat.h"

using namespace H;

namespace {

std::string trimmed(const std::string& v) {
    std::string s = v.substr(0, v.find('\0'));
    size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

// The documented name of the output: numbers as integers, strings trimmed and without slashes
std::string keyText(int type, const Raw& v) {
    if (type == INTEGER || type == BITFIELD)
        return std::to_string(asI(v));
    if (type != STRING)
        return std::to_string(long(asD(v)));
    std::string r;
    for (char ch : trimmed(v))
        r += ch == '/' ? std::string("__SLASH__") : std::string(1, ch);
    return r;
}

std::string expand(const std::string& tmpl, const Tab& t, const Row& r) {
    std::string out = tmpl;
    for (size_t c = 0; c < t.cols.size(); c++) {
        std::string name = "{" + t.cols[c].name.substr(0, t.cols[c].name.find('@')) + "}";
        size_t p         = out.find(name);
        if (p != std::string::npos)
            out.replace(p, name.size(), keyText(t.cols[c].type, r[c]));
    }
    return out;
}

struct Dir {
    std::string path;
    Dir() {
        path = mc::scratchDir() + "/c19";
        mkdir(path.c_str(), 0700);
        for (auto& n : list())
            unlink((path + "/" + n).c_str());
    }
    std::vector<std::string> list() const {
        std::vector<std::string> r;
        DIR* d = opendir(path.c_str());
        while (auto* e = readdir(d))
            if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
                r.push_back(e->d_name);
        closedir(d);
        std::sort(r.begin(), r.end());
        return r;
    }
};

enum Op { SPLIT, VERIFY, SORT, INTO, NOP };
const char* opName[] = {"split -no_verification", "split", "split -sort", "select into"};

void runOp(int op, const std::string& dir, const std::string& tmpl, int maxOpen) {
    AsDoubles d;
    std::string in = dir + "/in";
    if (op == SORT)
        odc::tool::SplitTool::presortAndSplit(in, dir + "/" + tmpl);
    else if (op == INTO) {
        odc::Select s("select * into \"" + dir + "/" + tmpl + "\" from \"" + in + "\"");
        for (auto it = s.begin(), end = s.end(); it != end; ++it)
            ;
    }
    else
        odc::tool::SplitTool::split(in, dir + "/" + tmpl, maxOpen, op == VERIFY);
}

void compare(mc::Ctx& ctx, int op, const Dir& dir, const std::map<std::string, Flat>& want) {
    std::vector<std::string> names;
    for (auto& w : want)
        names.push_back(w.first);
    names.push_back("in");
    std::sort(names.begin(), names.end());
    auto got = dir.list();
    if (got != names) {
        std::string s;
        for (auto& g : got)
            s += printable(g) + " ";
        s += "instead of ";
        for (auto& g : names)
            s += printable(g) + " ";
        ctx.fail("files", mc::fmt("%s: files ", opName[op]) + s);
    }
    for (auto& w : want) {
        std::vector<Frame> fs;
        std::string err = thrown([&] { fs = readAllC(readFile(dir.path + "/" + w.first)); });
        if (!err.empty())
            ctx.fail("unreadable", mc::fmt("%s: %s cannot be read: %s", opName[op], printable(w.first).c_str(), err.c_str()));
        Flat g = flatten(fs);
        if (g != w.second) {
            size_t i = 0;
            while (i < g.size() && i < w.second.size() && g[i] == w.second[i])
                i++;
            ctx.fail("rows", mc::fmt("%s: %s has %zu rows instead of %zu, row %zu is %s instead of %s", opName[op],
                                     printable(w.first).c_str(), g.size(), w.second.size(), i,
                                     i < g.size() ? printable(g[i]).c_str() : "absent",
                                     i < w.second.size() ? printable(w.second[i]).c_str() : "absent"));
        }
    }
}

struct KeyKind {
    const char* what;
    Col col;
    std::vector<Raw> values;
};
const std::vector<KeyKind>& kinds() {
    static std::vector<KeyKind> k = {
        {"integer", {"k@t", INTEGER}, {rI(1), rI(-20), rI(IMDI)}},
        {"short string", {"k@t", STRING, 1}, {rS("a"), rS("b/c/d"), rS("x y z 12")}},
        {"wide string", {"k@t", STRING, 2}, {rS("abcdefgh1", 2), rS("abcdefgh2", 2), rS("/", 2)}},
        {"real", {"k@t", REAL}, {rD(1.25), rD(1.5), rD(-3)}},
        {"double", {"k@t", DOUBLE}, {rD(0.1), rD(-0.5), rD(2e9)}},
        {"large double", {"k@t", DOUBLE}, {rD(3e9), rD(-4294967296.0), rD(1e15)}},
        {"bitfield", {"k@t", BITFIELD, 1, {{"b", 4}, {"c", 2}}}, {rI(0), rI(5), rI(63)}},
        {"padded string", {"k@t", STRING, 1}, {rS(" a"), rS("a"), rS("")}},
    };
    return k;
}

// every order of keys
void orders(mc::Ctx& ctx) {
    int kind   = ctx.choose(int(kinds().size()), "kind of key");
    int place  = ctx.choose(2, "columns before the key");
    int op     = ctx.choose(NOP, "operation");
    int n      = ctx.thorough ? 6 : 5;
    auto& k    = kinds()[kind];
    int maxOpen = op == SPLIT || op == VERIFY ? 1 + ctx.choose(3, "open files") : 1;
    long rpf    = std::vector<long>{100, 1, 2}[ctx.choose(3, "rows per frame")];
    ctx.shard();
    Tab t;
    if (place)
        t.cols = {{"w@t", STRING, 2}, k.col, {"r@t", REAL}, {"i@t", INTEGER}};
    else
        t.cols = {k.col, {"i@t", INTEGER}};
    int used = 0;
    for (int r = 0; r < n; r++) {
        int c = ctx.choose(int(k.values.size()), "key");
        used |= 1 << c;
        Raw v = k.values[c];
        if (place)
            t.rows.push_back({rS(mc::fmt("wide string %d", r % 2), 2), v, rD(r * 0.5), rI(r)});
        else
            t.rows.push_back({v, rI(r)});
    }
    std::string tmpl = place ? "out.{k}" : "{k}.out";
    std::map<std::string, Flat> want;
    std::vector<Row> rows = t.rows;
    if (op == SORT)  // rows of different keys with the same name are sorted by key
        std::stable_sort(rows.begin(), rows.end(), [&](const Row& a, const Row& b) {
            const Raw &x = a[place], &y = b[place];
            return k.col.type == REAL || k.col.type == DOUBLE ? asD(x) < asD(y) : k.col.type == STRING ? trimmed(asS(x)) < trimmed(asS(y)) : false;
        });
    for (auto& r : rows) {
        Tab one;
        one.cols = t.cols;
        one.rows = {r};
        flatten(want[expand(tmpl, t, r)], one);
    }
    Dir dir;
    writeFile(dir.path + "/in", encodeCpp(t, ROWMAJOR, rpf));
    // files of earlier runs are replaced
    if (op != INTO || ctx.thorough)
        for (auto& w : want)
            writeFile(dir.path + "/" + w.first, "stale");
    ctx.at(mc::fmt("%s by %s", opName[op], k.what));
    std::string err = thrown([&] { runOp(op, dir.path, tmpl, maxOpen); });
    if (!err.empty())
        ctx.fail("error", mc::fmt("%s by %s: ", opName[op], k.what) + err);
    if (want.size() > 1)
        ctx.nontrivial();
    ctx.outcome(mc::fmt("%d %zu", used, want.size()));
    compare(ctx, op, dir, want);
}

// two keys, of which one is in the middle of the name, other rows between
void twoKeys(mc::Ctx& ctx) {
    int order = ctx.choose(2, "order in the template");
    int op    = ctx.choose(NOP, "operation");
    int maxOpen = op == SPLIT || op == VERIFY ? 1 + ctx.choose(4, "open files") : 1;
    long rpf  = ctx.flip("small frames") ? 2 : 100;
    ctx.shard();
    Tab t;
    t.cols = {{"s@t", STRING, 2}, {"d@t", DOUBLE}, {"a@t", INTEGER}};
    int n  = ctx.thorough ? 6 : 5;
    for (int r = 0; r < n; r++) {
        int k = ctx.choose(4, "key");
        t.rows.push_back({rS(k & 1 ? "a longer string" : "b", 2), rD(r), rI(k & 2 ? 1000000 : 7)});
    }
    std::string tmpl = order ? "x{a}yy{s}z" : "{s}-{a}";
    std::map<std::string, Flat> want;
    for (auto& r : t.rows) {
        Tab one;
        one.cols = t.cols;
        one.rows = {r};
        flatten(want[expand(tmpl, t, r)], one);
    }
    Dir dir;
    writeFile(dir.path + "/in", encodeCpp(t, ROWMAJOR, rpf));
    ctx.at(mc::fmt("%s by two keys", opName[op]));
    std::string err = thrown([&] { runOp(op, dir.path, tmpl, maxOpen); });
    if (!err.empty())
        ctx.fail("error", mc::fmt("%s: ", opName[op]) + err);
    if (want.size() > 1)
        ctx.nontrivial();
    compare(ctx, op, dir, want);
}

// every template made of a few pieces: which file each row goes to, or that the template is refused
void templates(mc::Ctx& ctx) {
    static const std::vector<const char*> pieces{"a", "{", "}", "k", "{k}", "{s@t}", "{none}", ".", "{k@t}"};
    int op = ctx.choose(3, "operation");  // n.b. sorting takes the same way as splitting
    if (op == 2)
        op = INTO;
    int n = 1 + ctx.choose(ctx.thorough ? 5 : 4, "pieces less one");
    std::string tmpl = "o";
    for (int i = 0; i < n; i++) {
        tmpl += pieces[ctx.choose(int(pieces.size()), "piece")];
        if (i == 0)
            ctx.shard();
    }
    Tab t;
    t.cols = {{"s@t", STRING, 2}, {"k@t", INTEGER}};
    t.rows = {{rS("wide string 1", 2), rI(5)}, {rS("u", 2), rI(-12)}, {rS("wide string 1", 2), rI(5)}};
    bool bad = false, any = false;
    std::map<std::string, Flat> want;
    for (auto& r : t.rows) {
        std::string name;
        for (size_t p = 0; p < tmpl.size();) {
            if (tmpl[p] != '{') {
                name += tmpl[p++];
                continue;
            }
            size_t e = tmpl.find('}', p);
            any      = true;
            if (e == std::string::npos) {
                bad = true;
                break;
            }
            std::string key = tmpl.substr(p + 1, e - p - 1);
            if (key == "k" || key == "k@t")
                name += keyText(INTEGER, r[1]);
            else if (key == "s" || key == "s@t")
                name += keyText(STRING, r[0]);
            else
                bad = true;
            p = e + 1;
        }
        Tab one;
        one.cols = t.cols;
        one.rows = {r};
        flatten(want[name], one);
    }
    if (!any && op != INTO)
        bad = true;
    Dir dir;
    writeFile(dir.path + "/in", encodeCpp(t, ROWMAJOR));
    ctx.at(mc::fmt("%s with template", opName[op]));
    std::string err = thrown([&] { runOp(op, dir.path, tmpl, 2); });
    std::string what = mc::fmt("%s to \"%s\": ", opName[op], tmpl.c_str());
    ctx.outcome(bad ? "refused" : mc::fmt("%zu files", want.size()));
    if (bad) {
        if (err.empty())
            ctx.fail("template accepted", what + "accepted");
        if (dir.list().size() != 1)
            ctx.fail("template refused, files written", what + err);
        return;
    }
    if (!err.empty())
        ctx.fail("template refused", what + err);
    if (want.size() > 1)
        ctx.nontrivial();
    compare(ctx, op, dir, want);
}

// frames whose columns differ
void structures(mc::Ctx& ctx) {
    int nf      = 2 + ctx.choose(2, "frames");
    int op      = ctx.choose(2, "operation");
    int maxOpen = 1 + ctx.choose(2, "open files");
    std::vector<Tab> tabs;
    for (int f = 0; f < nf; f++) {
        Tab t;
        int s = ctx.choose(5, "structure");
        switch (s) {
            case 0: t.cols = {{"k@t", INTEGER}, {"w@t", STRING, 1}, {"i@t", INTEGER}}; break;
            case 1: t.cols = {{"w@t", STRING, 1}, {"k@t", INTEGER}, {"i@t", INTEGER}}; break;
            case 2: t.cols = {{"k@t", INTEGER}, {"w@t", STRING, 3}, {"i@t", INTEGER}}; break;
            case 3: t.cols = {{"i@t", INTEGER}, {"x@t", REAL}, {"k@t", REAL}}; break;
            default: t.cols = {{"i@t", INTEGER}, {"k@t", STRING, 1}}; break;
        }
        if (f == 1)
            ctx.shard();
        for (int r = 0; r < 2; r++) {
            int key = 1 + ctx.choose(2, "key");
            Row row;
            for (auto& c : t.cols) {
                if (c.name == "k@t")
                    row.push_back(c.type == STRING ? rS(std::to_string(key)) : c.type == REAL ? rD(key) : rI(key));
                else if (c.name == "w@t")
                    row.push_back(rS(c.w == 1 ? "w" : mc::fmt("a wider string %d", r), c.w));
                else if (c.name == "x@t")
                    row.push_back(rD(r + 0.5));
                else
                    row.push_back(rI(10 * f + r));
            }
            t.rows.push_back(row);
        }
        tabs.push_back(t);
    }
    std::string in;
    std::map<std::string, Flat> want;
    bool differ = false;
    for (auto& t : tabs) {
        in += encodeCpp(t, ROWMAJOR);
        for (auto& r : t.rows) {
            Tab one;
            one.cols = t.cols;
            one.rows = {r};
            flatten(want[expand("out.{k}", t, r)], one);
        }
        differ |= t.cols.size() != tabs[0].cols.size() || t.cols[0].name != tabs[0].cols[0].name || t.cols[1].w != tabs[0].cols[1].w;
    }
    Dir dir;
    writeFile(dir.path + "/in", in);
    ctx.at(mc::fmt("%s, structures change", opName[op]));
    std::string err = thrown([&] { runOp(op, dir.path, "out.{k}", maxOpen); });
    if (!err.empty())
        ctx.fail("error", mc::fmt("%s: ", opName[op]) + err);
    if (differ && want.size() > 1)
        ctx.nontrivial();
    compare(ctx, op, dir, want);
}

// sorting takes the file in chunks of whole frames
void chunks(mc::Ctx& ctx) {
    int n       = 1 + ctx.choose(ctx.thorough ? 5 : 4, "frames");
    size_t most = std::vector<size_t>{0, 8, 16, 24, 32, 1000}[ctx.choose(6, "most")];
    ctx.shard();
    std::string all;
    std::vector<size_t> starts, sizes;
    std::string what = mc::fmt("at most %zu of", most);
    for (int f = 0; f < n; f++) {
        int rows = ctx.choose(4, "rows");
        Tab t;
        t.cols = {{"k@t", INTEGER}};
        for (int r = 0; r < rows; r++)
            t.rows.push_back({rI(r)});
        starts.push_back(all.size());
        sizes.push_back(rows * 8);
        what += mc::fmt(" %d", rows * 8);
        all += encodeCpp(t, ROWMAJOR);
    }
    starts.push_back(all.size());
    Dir dir;
    writeFile(dir.path + "/in", all);
    std::vector<std::pair<eckit::Offset, eckit::Length>> got;
    std::string err = thrown([&] { got = odc::tool::SplitTool::getChunks(dir.path + "/in", most); });
    if (!err.empty())
        ctx.fail("chunks refused", what + ": " + err);
    size_t at = 0, frame = 0;
    std::string list;
    for (auto& g : got)
        list += mc::fmt(" %lld+%lld", (long long)g.first, (long long)g.second);
    for (auto& g : got) {
        if ((long long)g.first != (long long)at || (long long)g.second <= 0)
            ctx.fail("chunks", what + ": the chunks do not follow each other:" + list);
        at += (long long)g.second;
        size_t size = 0, frames = 0;
        while (frame < size_t(n) && starts[frame] < at) {
            size += sizes[frame++];
            frames++;
        }
        if (starts[frame] != at)
            ctx.fail("chunks", what + ": a chunk ends inside a frame:" + list);
        if (frames > 1 && size > most)
            ctx.fail("chunks: too large", what + ": a chunk is larger than asked for:" + list);
    }
    if (at != all.size())
        ctx.fail("chunks", what + ": the chunks do not cover the file:" + list);
    ctx.outcome(got.size());
    if (got.size() > 1)
        ctx.nontrivial();
}

// frames of more data than is sorted at once
void large(mc::Ctx& ctx) {
    int place = ctx.choose(3, "which frame is large");
    ctx.shard();
    Tab big, small;
    big.cols = small.cols = {{"k@t", INTEGER}, {"i@t", INTEGER}};
    for (int c = 0; c < 7000; c++)
        big.cols.push_back({mc::fmt("c%d@t", c), INTEGER});
    for (int r = 0; r < 2000; r++) {
        Row row = {rI(r % 2), rI(r)};
        row.resize(big.cols.size(), rI(5));
        big.rows.push_back(row);
    }
    for (int r = 0; r < 4; r++)
        small.rows.push_back({rI(r % 2), rI(r)});
    std::string in;
    std::map<std::string, std::vector<long>> want;
    for (int f = 0; f < 2; f++) {
        const Tab& t = place == f || place == 2 ? big : small;
        for (auto& r : t.rows)
            want[keyText(INTEGER, r[0])].push_back(asI(r[1]));
        in += encodeCpp(t, ROWMAJOR);
    }
    Dir dir;
    writeFile(dir.path + "/in", in);
    std::string err = thrown([&] { runOp(SORT, dir.path, "{k}", 1); });
    std::string what = mc::fmt("%s large", place == 2 ? "both frames" : place ? "second frame" : "first frame");
    if (!err.empty())
        ctx.fail("large frames: error", what + ": " + err);
    for (auto& w : want) {
        std::vector<long> got;
        err = thrown([&] {
            AsDoubles d;
            odc::Reader reader(dir.path + "/" + w.first);
            for (auto it = reader.begin(), end = reader.end(); it != end; ++it)
                got.push_back(long((*it)[1]));
        });
        if (!err.empty() || got != w.second)
            ctx.fail("large frames: rows", what + mc::fmt(": %zu rows instead of %zu ", got.size(), w.second.size()) + err);
    }
    ctx.nontrivial();
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"orders", "8 kinds of key x 2 positions x 4 operations x 1..3 open files x 3 frame sizes x every sequence of 5 (6) keys out of 3", orders},
        {"two keys", "2 templates x 4 operations x 1..4 open files x 2 frame sizes x every sequence of 5 (6) keys out of 4", twoKeys},
        {"templates", "every template of up to 4 (5) pieces out of 9, through 3 operations: the names, or the refusal", templates},
        {"chunks", "every sequence of up to 4 (5) frames of 0 to 3 rows, with 6 limits: what is sorted at once", chunks},
        {"large", "sorting where the first, the second or both frames are larger than what is sorted at once", large, 0, 0, true, 300},
        {"structures", "every sequence of 2..3 frames of 5 structures x every sequence of keys x 1..2 open files", structures},
    };
}
