// C25: the legacy C interface (odccapi.h, which Fortran programs use) writes, reads, counts and selects the same rows.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "flat.h"
#include "legacy.h"
#include "pool.h"

using namespace H;

namespace {

std::string scratch(const std::string& name) { return mc::scratchDir() + "/c25." + name; }

// --- what is written -------------------------------------------------------------------------------------------------

const double CUSTOM = 255;  // a missing value chosen by the user

struct Part {  // one definition of columns and the rows written with it
    std::vector<Col> cols;
    std::vector<bool> custom;
    std::vector<Row> rows;  // cells as raw longs, doubles and text; missing as MISSING
};

const Raw MISSING = "missing";

double missingOf(const Part& p, size_t c) {
    if (c < p.custom.size() && p.custom[c])
        return CUSTOM;
    return p.cols[c].type == INTEGER || p.cols[c].type == BITFIELD ? 2147483647.0 : -2147483647.0;
}

std::string bitsText(const std::vector<std::pair<std::string, int>>& b) {
    std::string n, s;
    for (auto& x : b) {
        n += x.first + ":";
        s += mc::fmt("%d:", x.second);
    }
    return n + "/" + s;
}

// a row as text: name, type and bits of each column, then its value
std::string cellText(const std::string& name, int type, const std::string& bits, const Raw& v) {
    return name + "[" + bits + "]" + mc::fmt("/%d=", type) + (v == MISSING ? "<missing>" : type == STRING ? v.substr(0, v.find_last_not_of('\0') + 1) : v) + ";";
}
std::string rowText(const Part& p, const Row& r) {
    std::string s;
    for (size_t c = 0; c < r.size(); c++)
        s += cellText(p.cols[c].name, p.cols[c].type, p.cols[c].type == BITFIELD ? bitsText(p.cols[c].bits) : "/", r[c]);
    return s;
}
Flat textOf(const std::vector<Part>& parts) {
    Flat f;
    for (auto& p : parts)
        for (auto& r : p.rows)
            f.push_back(rowText(p, r));
    return f;
}

std::string show(const std::vector<Part>& parts) {
    std::string s;
    for (auto& p : parts) {
        s += "{";
        for (size_t c = 0; c < p.cols.size(); c++)
            s += p.cols[c].name + mc::fmt(":%d/%d%s ", p.cols[c].type, p.cols[c].w, c < p.custom.size() && p.custom[c] ? "!" : "");
        for (auto& r : p.rows) {
            s += "| ";
            for (size_t c = 0; c < r.size(); c++)
                s += (r[c] == MISSING ? "NULL" : p.cols[c].type == STRING ? "'" + std::string(r[c].c_str()) + "'" : p.cols[c].type == INTEGER || p.cols[c].type == BITFIELD ? mc::fmt("%ld", asI(r[c])) : mc::fmt("%g", asD(r[c]))) + " ";
        }
        s += "} ";
    }
    return s;
}

// --- the interface as a program uses it; integers are doubles there ---------------------------------------------------

// descriptors this process has open
int openFiles() {
    int n  = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}

struct Fail {
    std::string what;
};
void need(bool ok, const std::string& what) {
    if (!ok)
        throw Fail{what};
}

void definePart(void* w, const Part& p) {
    need(odb_write_iterator_set_no_of_columns(w, p.cols.size()) == 0, "set_no_of_columns");
    int total = 0;
    for (size_t c = 0; c < p.cols.size(); c++) {
        auto& col = p.cols[c];
        if (col.type == BITFIELD) {
            std::string n, s;
            for (auto& b : col.bits) {
                n += b.first + ":";
                s += mc::fmt("%d:", b.second);
            }
            need(odb_write_iterator_set_bitfield(w, c, col.type, col.name.c_str(), n.c_str(), s.c_str()) == 0, "set_bitfield");
        }
        else
            need(odb_write_iterator_set_column(w, c, col.type, col.name.c_str()) == 0, "set_column");
        if (col.w != 1)
            need(odb_write_iterator_set_column_size_doubles(w, c, col.w) == 0, "set_column_size_doubles");
        if (c < p.custom.size() && p.custom[c])
            need(odb_write_iterator_set_missing_value(w, c, CUSTOM) == 0, "set_missing_value");
    }
    need(odb_write_iterator_write_header(w) == 0, "write_header");
    for (size_t c = 0; c < p.cols.size(); c++) {
        int off = -1;
        need(odb_write_iterator_get_column_offset(w, c, &off) == 0, "get_column_offset");
        need(off == total, mc::fmt("offset of column %zu while writing is %d instead of %d", c, off, total));
        total += p.cols[c].w;
    }
    int size = -1;
    need(odb_write_iterator_get_row_buffer_size_doubles(w, &size) == 0, "get_row_buffer_size_doubles");
    need(size == total, mc::fmt("size of a row while writing is %d instead of %d", size, total));
}

void writePart(void* w, const Part& p) {
    std::vector<double> row;
    for (auto& r : p.rows) {
        size_t total = 0;
        for (auto& c : p.cols)
            total += c.w;
        std::unique_ptr<double[]> buf(new double[total]);  // exactly sized
        size_t o = 0;
        for (size_t c = 0; c < r.size(); c++) {
            if (r[c] == MISSING)
                buf[o] = missingOf(p, c);
            else if (p.cols[c].type == STRING) {
                Raw v = r[c];
                v.resize(8 * p.cols[c].w, '\0');
                memcpy(&buf[o], v.data(), v.size());
            }
            else
                buf[o] = p.cols[c].type == INTEGER || p.cols[c].type == BITFIELD ? double(asI(r[c])) : asD(r[c]);
            o += p.cols[c].w;
        }
        need(odb_write_iterator_set_next_row(w, buf.get(), r.size()) == 0, "set_next_row");
    }
}

void writeFile(const std::string& path, const std::vector<Part>& parts, bool append) {
    int err = -1;
    void* wr = odb_writer_create("", &err);
    need(wr && err == 0, "writer_create");
    err     = -1;
    void* w = append ? odb_create_append_iterator(wr, path.c_str(), &err) : odb_create_write_iterator(wr, path.c_str(), &err);
    need(w && err == 0, "create_write_iterator");
    for (auto& p : parts) {
        definePart(w, p);
        writePart(w, p);
    }
    need(odb_write_iterator_destroy(w) == 0, "write_iterator_destroy");
    need(odb_writer_destroy(wr) == 0, "writer_destroy");
}

struct Shape {
    std::vector<std::string> names, bits;
    std::vector<int> types, widths, offsets;
    std::vector<double> missing;
    int size = 0;
};

struct Rows {
    Flat rows;
    std::vector<size_t> frames;  // rows since each report of a new data set
    std::string error;
};

// a reading or selecting iterator: the two families of functions
struct It {
    bool select = false;
    void* it    = nullptr;
    void* owner = nullptr;
    Shape shape;
    std::vector<double> buf = std::vector<double>(64, 0);
    bool first              = true;

    ~It() { close(); }
    void close() {
        if (it)
            need((select ? odb_select_iterator_destroy(it) : odb_read_iterator_destroy(it)) == 0, "iterator_destroy");
        it = nullptr;
    }

    void look() {
        Shape s;
        int n = -1;
        need((select ? odb_select_iterator_get_no_of_columns(it, &n) : odb_read_iterator_get_no_of_columns(it, &n)) == 0 && n >= 0, "get_no_of_columns");
        for (int c = 0; c < n; c++) {
            char *name = nullptr, *bn = nullptr, *bs = nullptr;
            int len = -1, type = -1, w = -1, off = -1, bnl = -1, bsl = -1;
            double m = 0;
            need((select ? odb_select_iterator_get_column_name(it, c, &name, &len) : odb_read_iterator_get_column_name(it, c, &name, &len)) == 0, "get_column_name");
            need((select ? odb_select_iterator_get_column_type(it, c, &type) : odb_read_iterator_get_column_type(it, c, &type)) == 0, "get_column_type");
            need((select ? odb_select_iterator_get_column_size_doubles(it, c, &w) : odb_read_iterator_get_column_size_doubles(it, c, &w)) == 0, "get_column_size_doubles");
            need((select ? odb_select_iterator_get_column_offset(it, c, &off) : odb_read_iterator_get_column_offset(it, c, &off)) == 0, "get_column_offset");
            need((select ? odb_select_iterator_get_bitfield(it, c, &bn, &bs, &bnl, &bsl) : odb_read_iterator_get_bitfield(it, c, &bn, &bs, &bnl, &bsl)) == 0, "get_bitfield");
            need((select ? odb_select_iterator_get_missing_value(it, c, &m) : odb_read_iterator_get_missing_value(it, c, &m)) == 0, "get_missing_value");
            s.names.push_back(std::string(name, len));
            need(bnl == int(strlen(bn)) && bsl == int(strlen(bs)), "lengths of bitfield texts");
            s.bits.push_back(std::string(bn) + "/" + bs);
            free(bn);
            free(bs);
            s.types.push_back(type);
            s.widths.push_back(w);
            s.offsets.push_back(off);
            s.missing.push_back(m);
        }
        need((select ? odb_select_iterator_get_row_buffer_size_doubles(it, &s.size) : odb_read_iterator_get_row_buffer_size_doubles(it, &s.size)) == 0, "get_row_buffer_size_doubles");
        int total = 0;
        for (int c = 0; c < n; c++) {
            need(s.offsets[c] == total, mc::fmt("column %d is at %d rather than %d", c, s.offsets[c], total));
            total += s.widths[c];
        }
        need(s.size == total, mc::fmt("a row has %d doubles, its columns %d", s.size, total));
        shape = s;
    }

    // false: no more
    bool next(Rows& out) {
        // n.b. whether the first row is reported as a new data set differs: the columns are known before it
        bool start = first;
        if (first && !select)
            look();
        first     = false;
        int fresh = -1;
        std::fill(buf.begin(), buf.end(), 12345.678);
        int rc = select ? odb_select_iterator_get_next_row(it, shape.names.size(), buf.data(), &fresh) : odb_read_iterator_get_next_row(it, shape.names.size(), buf.data(), &fresh);
        if (rc == 1)
            return false;
        need(rc == 0, mc::fmt("get_next_row gives %d", rc));
        need(fresh == 0 || fresh == 1, "new_dataset is not set");
        if (fresh || start) {
            look();
            out.frames.push_back(0);
        }
        out.frames.back()++;
        for (size_t k = shape.size; k < buf.size(); k++)
            need(buf[k] == 12345.678, "written beyond the row");
        std::string s;
        for (size_t c = 0; c < shape.names.size(); c++) {
            Raw v((const char*)&buf[shape.offsets[c]], 8 * shape.widths[c]);
            if (shape.types[c] != STRING) {
                if (asD(v) == shape.missing[c])
                    v = MISSING;
                else if (shape.types[c] == INTEGER || shape.types[c] == BITFIELD)
                    v = rI(long(asD(v)));
            }
            s += cellText(shape.names[c], shape.types[c], shape.bits[c], v);
        }
        out.rows.push_back(s);
        return true;
    }
};

void openRead(It& i, void* reader, const std::string& path) {
    int err  = -1;
    i.select = false;
    i.it     = odb_create_read_iterator(reader, path.c_str(), &err);
    need(i.it && err == 0, "create_read_iterator");
}
void openSelect(It& i, void* select, const std::string& path, bool fromFile, const std::string& sql) {
    int err  = -1;
    i.select = true;
    i.it     = fromFile ? odb_create_select_iterator_from_file(select, sql.c_str(), path.c_str(), &err) : odb_create_select_iterator(select, (sql + " from \"" + path + "\"").c_str(), &err);
    need(i.it && err == 0, "create_select_iterator");
}

const char* wayName[] = {"read", "select", "select from file"};

Rows readAll(const std::string& path, int way, const std::string& sql = "select *") {
    Rows out;
    int err   = -1;
    void* own = way == 0 ? odb_read_create("", &err) : odb_select_create("", &err);
    need(own && err == 0, "create");
    std::unique_ptr<void, int (*)(void*)> guard(own, way == 0 ? odb_read_destroy : odb_select_destroy);
    {
        It i;
        if (way == 0)
            openRead(i, own, path);
        else
            openSelect(i, own, path, way == 2, sql);
        while (i.next(out))
            ;
        // and it stays at the end
        Rows more;
        need(!i.next(more), "rows after the end");
        i.close();
    }
    guard.release();
    need((way == 0 ? odb_read_destroy(own) : odb_select_destroy(own)) == 0, "destroy");
    return out;
}

// what the C++ interface finds in the file
struct Found {
    std::vector<std::pair<long, long>> frames;
    std::vector<size_t> rows;
};
Found found(const std::string& path) {
    Found f;
    odc::api::Reader rd(path, false);
    while (odc::api::Frame fr = rd.next()) {
        f.frames.push_back({long(fr.offset()), long(fr.length())});
        f.rows.push_back(fr.rowCount());
    }
    return f;
}

std::string slurpFile(const std::string& p) {
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return "";
    std::string s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)))
        s.append(b, n);
    fclose(f);
    return s;
}

// the file holds the parts: read in every way, counted, its blocks found
void verify(mc::Ctx& ctx, const std::string& path, const std::vector<Part>& parts, const std::string& what) {
    Flat want = textOf(parts);
    for (int way = 0; way < 3; way++) {
        int files = openFiles();
        // n.b. an SQL query over data in which structure changes has the columns of its first frame (C17)
        bool uniform = true;
        for (auto& p : parts) {
            uniform = uniform && p.cols.size() == parts[0].cols.size();
            for (size_t c = 0; uniform && c < p.cols.size(); c++)
                uniform = p.cols[c].name == parts[0].cols[c].name && p.cols[c].type == parts[0].cols[c].type && p.cols[c].bits == parts[0].cols[c].bits;
        }
        bool widths = true;
        for (auto& p : parts)
            for (size_t c = 0; uniform && c < p.cols.size(); c++)
                widths = widths && p.cols[c].w == parts[0].cols[c].w;
        if (way && (!uniform || want.empty()))
            continue;
        Rows r;
        std::string e = thrown([&] {
            try {
                AsDoubles d;
                r = readAll(path, way);
            }
            catch (Fail& f) {
                r.error = f.what;
            }
        });
        if (e.empty())
            e = r.error;
        int left = openFiles() - files;
        ctx.check(left == 0, std::string("files left open: ") + wayName[way], what + mc::fmt(": %d files left open ", left) + e);
        // n.b. the size of the caller's buffer is not known to a query whose rows grow: it may refuse to go on
        if (way && !widths && !e.empty()) {
            ctx.outcome("refused: rows of different size");
            continue;
        }
        ctx.check(e.empty(), std::string("error: ") + wayName[way], what + ": " + e);
        ctx.check(r.rows == want, std::string("rows: ") + wayName[way], what + ": " + difference(r.rows, want));
        ctx.transition(want.size());
    }
    auto leak = [&, files = openFiles()](const char* who) {
        int left = openFiles() - files;
        ctx.check(left == 0, std::string("files left open: ") + who, what + mc::fmt(": %s leaves %d files open", who, left));
    };
    Found f  = found(path);
    leak("the C++ interface");
    size_t n = 0;
    for (auto x : f.rows)
        n += x;
    ctx.check(n == want.size(), "written rows", what + mc::fmt(": the file has %zu rows instead of %zu", n, want.size()));
    ctx.check(odb_count(path.c_str()) == double(want.size()), "odb_count", what + mc::fmt(": odb_count gives %g", odb_count(path.c_str())));
    leak("odb_count");
    size_t blocks = 99;
    off_t* offs   = nullptr;
    size_t* sizes = nullptr;
    ctx.check(get_blocks_offsets(path.c_str(), &blocks, &offs, &sizes) == 0, "blocks", what + ": get_blocks_offsets fails");
    leak("get_blocks_offsets");
    bool same = blocks == f.frames.size();
    for (size_t i = 0; same && i < blocks; i++)
        same = offs[i] == f.frames[i].first && long(sizes[i]) == f.frames[i].second;
    release_blocks_offsets(&offs);
    release_blocks_sizes(&sizes);
    ctx.check(same && !offs && !sizes, "blocks", what + ": get_blocks_offsets differs from the frames");
}

// --- scenarios ----------------------------------------------------------------------------------------------------------

struct Kind {
    int type, w;
    std::vector<Raw> values;
};
const std::vector<Kind>& kinds() {
    static const std::vector<Kind> k = {
        {INTEGER, 1, {rI(7), MISSING, rI(-70000)}},
        {REAL, 1, {rD(0.5), MISSING, rD(-2.25)}},
        {DOUBLE, 1, {rD(1.1), MISSING, rD(1e300)}},
        {STRING, 1, {"ab", "", "abcdefgh"}},
        {STRING, 2, {"abcdefghijk", "x", "abcdefghijklmnop"}},
        {BITFIELD, 1, {rI(1), MISSING, rI(7)}},
    };
    return k;
}
Col colOf(int kind, const std::string& name) {
    Col c{name, kinds()[kind].type, kinds()[kind].w, {}};
    if (c.type == BITFIELD)
        c.bits = {{"x", 3}, {"long_name", 5}};
    return c;
}

std::string attempt(const std::function<void()>& f) {
    std::string r;
    std::string e = thrown([&] {
        try {
            AsDoubles d;
            f();
        }
        catch (Fail& x) {
            r = x.what;
        }
    });
    return e.empty() ? r : e;
}

void writing(mc::Ctx& ctx) {
    viaFortran() = ctx.flip("through the Fortran bindings");
    for (int t = 0; t <= DOUBLE; t++)
        ctx.check(fl_type(t) == t, "constants of the Fortran bindings", mc::fmt("type %d is %d", t, fl_type(t)));
    Part p;
    int ncols = 1 + ctx.choose(2, "columns");
    std::vector<int> ks;
    for (int c = 0; c < ncols; c++) {
        ks.push_back(ctx.choose(kinds().size(), "kind"));
        p.cols.push_back(colOf(ks[c], c ? "second" : "first@t"));
        p.custom.push_back(kinds()[ks[c]].type != STRING && c == 0 && ctx.flip("custom missing value"));
    }
    int nrows = ctx.choose((ctx.thorough ? 4 : 3) + (ncols == 1), "rows");
    for (int r = 0; r < nrows; r++) {
        Row row;
        for (int c = 0; c < ncols; c++)
            row.push_back(kinds()[ks[c]].values[ctx.choose(3, "value")]);
        p.rows.push_back(row);
    }
    std::string what = show({p}), path = scratch("w.odb");
    ctx.note(what);
    if (nrows > 1)
        ctx.nontrivial();
    unlink(path.c_str());
    std::string e = attempt([&] { writeFile(path, {p}, false); });
    ctx.check(e.empty(), "error: write", what + ": " + e);
    verify(ctx, path, {p}, what);
    ctx.outcome(mc::fmt("%d columns %d rows", ncols, nrows));
}

// structures with the same number of columns, so that one size of row fits
const std::vector<Part>& pool() {
    static std::vector<Part> p;
    if (p.empty()) {
        Col i = colOf(0, "i@t"), s = colOf(3, "s@t"), s2 = colOf(4, "s@t"), b = colOf(5, "b@t"), b2 = b, d = colOf(2, "i@t"), o = colOf(0, "other");
        b2.bits = {{"y", 1}};
        Raw A = "ab", L = "abcdefghijk";
        p.push_back({{i, s, b}, {}, {{rI(7), A, rI(1)}}});
        p.push_back({{i, s, b}, {}, {{MISSING, "", rI(7)}, {rI(70000), A, MISSING}}});
        p.push_back({{i, s2, b}, {}, {{rI(7), L, rI(1)}, {rI(8), "x", rI(1)}}});
        p.push_back({{i, s, b}, {true, false, true}, {{rI(9), A, rI(7)}, {MISSING, A, MISSING}}});
        p.push_back({{i, s, b2}, {}, {{rI(7), A, rI(1)}, {rI(9), A, rI(0)}}});
        p.push_back({{d, s, b}, {}, {{rD(7.5), A, rI(1)}, {MISSING, A, rI(1)}}});
        p.push_back({{o, s, i}, {}, {{rI(1), "q", rI(2)}}});
        p.push_back({{i, s, b}, {}, {}});
    }
    return p;
}

// parts written by redefining the columns of one iterator, or by appending to the file
void parts(mc::Ctx& ctx) {
    viaFortran() = ctx.flip("through the Fortran bindings");
    int n = 1 + ctx.choose(ctx.thorough ? 4 : 3, "parts");
    std::vector<std::vector<Part>> files;  // what each opening writes
    std::vector<Part> all;
    bool fresh = true, exists = ctx.flip("the file exists");
    std::string path = scratch("p.odb"), how;
    unlink(path.c_str());
    if (exists) {
        std::vector<Part> old{pool()[ctx.choose(2, "what is there")]};
        std::string e = attempt([&] { writeFile(path, old, false); });
        ctx.check(e.empty(), "error: write", e);
        bool keep = ctx.flip("appended to it");
        fresh     = !keep;
        if (keep)
            all = old;
        how = keep ? "appended " : "overwritten ";
    }
    files.emplace_back();
    for (int k = 0; k < n; k++) {
        auto part   = pool()[ctx.choose(pool().size(), "part")];
        bool closed = k && ctx.flip("closed and appended");
        // n.b. columns are redefined one by one, and no two may have the same name meanwhile
        if (k && !closed && (part.cols[0].name != all.back().cols[0].name))
            ctx.skip();
        if (closed) {
            files.emplace_back();
            how += "; ";
        }
        files.back().push_back(part);
        how += show({files.back().back()});
        all.push_back(files.back().back());
    }
    ctx.note(how);
    if (n > 1)
        ctx.nontrivial();
    bool append = !fresh;
    for (auto& f : files) {
        int files     = openFiles();
        std::string e = attempt([&] { writeFile(path, f, append); });
        ctx.check(e.empty(), "error: write parts", how + ": " + e);
        int left = openFiles() - files;
        ctx.check(left == 0, "files left open: writing", how + mc::fmt(": %d files left open by writing", left));
        append = true;
    }
    verify(ctx, path, all, how);
    ctx.outcome(mc::fmt("%zu openings", files.size()));
}

// several iterators, of one reader or selector and of several, in every interleaving
void interleaved(mc::Ctx& ctx) {
    viaFortran() = ctx.flip("through the Fortran bindings");
    static std::string fileA, fileB;
    static std::vector<Part> A{pool()[0], pool()[3]}, B{pool()[1], pool()[0], pool()[1]};
    if (fileA.empty()) {
        fileA = scratch("ia.odb");
        fileB = scratch("ib.odb");
    }
    struct stat st;
    if (stat(fileA.c_str(), &st) || stat(fileB.c_str(), &st)) {
        std::string e = attempt([&] { writeFile(fileA, A, false); writeFile(fileB, B, false); });
        ctx.check(e.empty(), "error: write", e);
    }
    Flat want[2] = {textOf(A), textOf(B)};
    struct One {
        int file;
        bool select;
        It it;
        Rows rows;
        bool done = false;
    };
    int depth = ctx.thorough ? 9 : 7;
    bool shared = ctx.flip("one owner");
    std::string e = attempt([&] {
        AsDoubles d;
        int files = openFiles();
        struct Owners : std::vector<void*> {
            bool select;
            Owners(bool select) : select(select) {}
            ~Owners() { destroy(); }
            void destroy() {
                for (auto o : *this)
                    (select ? odb_select_destroy(o) : odb_read_destroy(o));
                clear();
            }
        } readers(false), selects(true);
        std::vector<std::unique_ptr<One>> its;
        std::string trace;
        for (int k = 0; k < depth; k++) {
            int nopen = its.size();
            int what  = ctx.choose(1 + 2 * nopen + (nopen < 2 ? 4 : 0), "operation");
            if (what == 0)
                break;
            what--;
            if (what < nopen) {  // a row
                auto& o = *its[what];
                if (o.done)
                    ctx.skip();
                trace += mc::fmt("next %d; ", what);
                o.done = !o.it.next(o.rows);
            }
            else if (what < 2 * nopen) {  // closed early
                auto& o = *its[what - nopen];
                if (!o.it.it)
                    ctx.skip();
                trace += mc::fmt("close %d; ", what - nopen);
                o.it.close();
                o.done = true;
            }
            else {
                what -= 2 * nopen;
                std::unique_ptr<One> o(new One);
                o->file   = what % 2;
                o->select = what / 2;
                trace += mc::fmt("open %s of %c; ", o->select ? "select" : "read", 'A' + o->file);
                auto& owners = o->select ? selects : readers;
                // n.b. a selector has one current query
                if (owners.empty() || !shared || o->select) {
                    int err = -1;
                    owners.push_back(o->select ? odb_select_create("", &err) : odb_read_create("", &err));
                }
                if (o->select)
                    openSelect(o->it, owners.back(), o->file ? fileB : fileA, k % 2, "select *");
                else
                    openRead(o->it, owners.back(), o->file ? fileB : fileA);
                its.push_back(std::move(o));
            }
        }
        ctx.note(trace);
        if (its.size() > 1)
            ctx.nontrivial();
        ctx.outcome(mc::fmt("%zu iterators", its.size()));
        for (auto& o : its) {
            Flat w(want[o->file].begin(), want[o->file].begin() + std::min(o->rows.rows.size(), want[o->file].size()));
            ctx.check(o->rows.rows == w, "interleaved", trace + difference(o->rows.rows, w));
            ctx.check(!o->done || !o->it.it || o->rows.rows.size() == want[o->file].size(), "interleaved end", trace + ": ends early");
        }
        for (auto& o : its)
            o->it.close();
        readers.destroy();
        selects.destroy();
        int left = openFiles() - files;
        ctx.check(left == 0, "files left open", trace + mc::fmt(": %d files left open when all is destroyed", left));
    });
    ctx.check(e.empty(), "error: interleaved", e);
}

// selections of columns and rows
void selections(mc::Ctx& ctx) {
    viaFortran() = ctx.flip("through the Fortran bindings");
    std::string path = scratch("s.odb");
    struct stat st;
    std::vector<Part> ps{pool()[1], pool()[3], pool()[0]};
    if (stat(path.c_str(), &st)) {
        std::string e = attempt([&] { writeFile(path, ps, false); });
        ctx.check(e.empty(), "error: write", e);
    }
    static const std::vector<std::string> names = {"i@t", "s@t", "b@t"};
    std::vector<int> cols;
    int n = 1 + ctx.choose(3, "columns");
    for (int k = 0; k < n; k++)
        cols.push_back(ctx.choose(3, "column"));
    int cond = ctx.choose(4, "condition");
    static const char* conds[] = {"", " where i is not null", " where i > 7", " where s = 'ab'"};
    std::string sql = "select ";
    for (int k = 0; k < n; k++)
        sql += (k ? "," : "") + (ctx.flip("bare name") ? names[cols[k]].substr(0, 1) : names[cols[k]]);
    Flat want;
    for (auto& p : ps)
        for (auto& r : p.rows) {
            bool in = cond == 0 || (cond == 1 && r[0] != MISSING) || (cond == 2 && r[0] != MISSING && asI(r[0]) > 7) || (cond == 3 && r[1] == "ab");
            if (!in)
                continue;
            std::string s;
            for (int c : cols)
                s += cellText("", p.cols[c].type, "", r[c]);
            want.push_back(s);
        }
    int err = -1;
    std::vector<std::string> got;
    bool fromFile = cond == 0;
    ctx.note(sql + conds[cond]);
    ctx.nontrivial();
    std::string e = attempt([&] {
        AsDoubles d;
        void* sel = odb_select_create("", &err);
        It i;
        int er   = -1;
        i.select = true;
        i.it     = fromFile ? odb_create_select_iterator_from_file(sel, sql.c_str(), path.c_str(), &er) : odb_create_select_iterator(sel, (sql + " from \"" + path + "\"" + conds[cond]).c_str(), &er);
        need(i.it && er == 0, "create_select_iterator");
        Rows rows;
        for (;;) {
            int fresh = -1;
            std::fill(i.buf.begin(), i.buf.end(), 0);
            int rc = odb_select_iterator_get_next_row(i.it, n, i.buf.data(), &fresh);
            if (rc == 1)
                break;
            need(rc == 0, "get_next_row");
            i.look();
            std::string s;
            need(int(i.shape.names.size()) == n, "columns of the result");
            for (int k = 0; k < n; k++) {
                Raw v((const char*)&i.buf[i.shape.offsets[k]], 8 * i.shape.widths[k]);
                if (i.shape.types[k] != STRING)
                    v = asD(v) == i.shape.missing[k] ? MISSING : rI(long(asD(v)));
                s += cellText("", i.shape.types[k], "", v);
            }
            got.push_back(s);
        }
        ctx.outcome(mc::fmt("%zu rows of %d", got.size(), n));
        i.close();
        odb_select_destroy(sel);
    });
    ctx.check(e.empty(), "error: selection", sql + conds[cond] + ": " + e);
    ctx.check(got == want, "selection", sql + conds[cond] + ": " + difference(got, want));
}

// mistakes are reported
void mistakes(mc::Ctx& ctx) {
    viaFortran() = ctx.flip("through the Fortran bindings");
    std::string good = scratch("g.odb"), bad = scratch("bad.odb"), none = scratch("none.odb");
    std::vector<Part> ps{pool()[1], pool()[0]};
    std::string e = attempt([&] { writeFile(good, ps, false); });
    ctx.check(e.empty(), "error: write", e);
    {
        std::string s = slurpFile(good);
        FILE* f       = fopen(bad.c_str(), "wb");
        int cut       = ctx.choose(3, "damage");
        if (cut == 0)
            s.resize(s.size() - 1);
        else if (cut == 1)
            s[70] ^= 1;
        else
            s = "no odb at all";
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    unlink(none.c_str());
    int which = ctx.choose(13, "mistake");
    std::string what;
    bool reported = false;
    AsDoubles d;
    int err = 0;
    auto report = [&](const char* w, const std::function<bool()>& f) {  // true: reported by its result
        what = w;
        bool r = false;
        std::string x = thrown([&] { r = f(); });
        reported = r || !x.empty();
        ctx.outcome(std::string(w) + (r ? " by its result" : " by exception"));
    };
    std::string mustNotThrow;
    void* rd  = odb_read_create("", &err);
    void* sel = odb_select_create("", &err);
    auto readOut = [&](const std::string& path) {
        err      = 0;
        void* it = odb_create_read_iterator(rd, path.c_str(), &err);
        if (!it || err)
            return true;
        std::unique_ptr<void, int (*)(void*)> own(it, odb_read_iterator_destroy);
        double b[64];
        int nd, rc;
        while ((rc = odb_read_iterator_get_next_row(it, 3, b, &nd)) == 0)
            ;
        return rc != 1;
    };
    auto selectOut = [&](const std::string& sql, const std::string& path, bool fromFile) {
        err      = 0;
        void* it = fromFile ? odb_create_select_iterator_from_file(sel, sql.c_str(), path.c_str(), &err) : odb_create_select_iterator(sel, (sql + " from \"" + path + "\"").c_str(), &err);
        if (!it || err)
            return true;
        std::unique_ptr<void, int (*)(void*)> own(it, odb_select_iterator_destroy);
        double b[64];
        int nd, rc;
        while ((rc = odb_select_iterator_get_next_row(it, 3, b, &nd)) == 0)
            ;
        return rc != 1;
    };
    auto plain = [&](const std::function<bool()>& f) {  // errors of opening are results, as C cannot catch them
        bool r        = false;
        mustNotThrow  = thrown([&] { r = f(); });
        return r;
    };
    switch (which) {
        case 0: report("reading a file which is not there", [&] { return plain([&] { return readOut(none); }); }); break;
        case 1: report("reading a damaged file", [&] { return readOut(bad); }); break;
        case 2: report("selecting from a file which is not there", [&] { return plain([&] { return selectOut("select *", none, false); }); }); break;
        case 3: report("selecting from a file which is not there, by name", [&] { return plain([&] { return selectOut("select *", none, true); }); }); break;
        case 4: report("selecting from a damaged file", [&] { return selectOut("select *", bad, ctx.flip("by name")); }); break;
        case 5: report("a query with a mistake", [&] { return plain([&] { return selectOut("selec *", good, false); }); }); break;
        case 6: report("a query with a mistake, by name", [&] { return plain([&] { return selectOut("selec *", good, true); }); }); break;
        case 7: report("a column which is not there, by name", [&] { return plain([&] { return selectOut("select nope", good, true); }); }); break;
        case 8: {
            bool select = ctx.flip("select");
            static const std::vector<int> idx = {-1, 3, 4, 1000000};
            int k = ctx.pick(idx);
            report("the missing value of a column which is not there", [&] {
                void* it = select ? odb_create_select_iterator(sel, ("select * from \"" + good + "\"").c_str(), &err) : odb_create_read_iterator(rd, good.c_str(), &err);
                std::unique_ptr<void, int (*)(void*)> own(it, select ? odb_select_iterator_destroy : odb_read_iterator_destroy);
                double v;
                return (select ? odb_select_iterator_get_missing_value(it, k, &v) : odb_read_iterator_get_missing_value(it, k, &v)) != 0;
            });
            break;
        }
        case 9: report("a row of the wrong number of columns read", [&] {
            void* it = odb_create_read_iterator(rd, good.c_str(), &err);
            std::unique_ptr<void, int (*)(void*)> own(it, odb_read_iterator_destroy);
            double b[64];
            int nd;
            return odb_read_iterator_get_next_row(it, ctx.flip("more") ? 4 : 2, b, &nd) != 0;
        }); break;
        case 10: report("a row of the wrong number of columns written", [&] {
            void* wr = odb_writer_create("", &err);
            void* w  = odb_create_write_iterator(wr, scratch("x.odb").c_str(), &err);
            std::unique_ptr<void, int (*)(void*)> o1(wr, odb_writer_destroy), o2(w, odb_write_iterator_destroy);
            definePart(w, pool()[0]);
            double b[8] = {0};
            return odb_write_iterator_set_next_row(w, b, ctx.flip("more") ? 4 : 2) != 0;
        }); break;
        case 11: report("a column beyond the last defined", [&] {
            void* wr = odb_writer_create("", &err);
            void* w  = odb_create_write_iterator(wr, scratch("x.odb").c_str(), &err);
            std::unique_ptr<void, int (*)(void*)> o1(wr, odb_writer_destroy), o2(w, odb_write_iterator_destroy);
            odb_write_iterator_set_no_of_columns(w, 2);
            static const std::vector<int> idx = {-1, 2, 3};
            int k = ctx.pick(idx);
            return (ctx.flip("bitfield") ? odb_write_iterator_set_bitfield(w, k, BITFIELD, "n", "x:", "1:") : odb_write_iterator_set_column(w, k, INTEGER, "n")) != 0;
        }); break;
        case 12: report("counting a file which is not there or damaged", [&] {
            bool gone = ctx.flip("not there"), blocks = ctx.flip("blocks");
            if (blocks) {
                size_t n;
                off_t* o;
                size_t* s;
                return get_blocks_offsets((gone ? none : bad).c_str(), &n, &o, &s) != 0;
            }
            odb_count((gone ? none : bad).c_str());
            return false;
        }); break;
    }
    odb_read_destroy(rd);
    odb_select_destroy(sel);
    ctx.note(what);
    ctx.nontrivial();
    ctx.check(mustNotThrow.empty(), "thrown at a C program: " + what, what + ": " + mustNotThrow);
    ctx.check(reported, "not reported: " + what, what);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"writing", "through the C functions or the Fortran bindings: one or two columns of 6 kinds, with a missing value of their own or not, up to 3 (thorough 4) rows of 3 values: written, then read, selected, counted, and its blocks found", writing},
        {"parts", "through the C functions or the Fortran bindings: up to 3 (4) of 8 definitions of columns with rows, each by redefinition or by appending, to a file that is new, overwritten or appended to", parts},
        {"interleaved", "through the C functions or the Fortran bindings: every history of 7 (9) of opening readers and selections of two files, reading a row from each, and closing", interleaved},
        {"selections", "through the C functions or the Fortran bindings: every selection of 1 to 3 of 3 columns under bare or full names with 4 conditions", selections},
        {"mistakes", "through the C functions or the Fortran bindings: 13 kinds of mistakes: files missing or damaged, queries, indices and numbers of columns", mistakes},
    };
}
