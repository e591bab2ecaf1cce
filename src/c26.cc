// C26: the Fortran interface (odc.f90) does what the C interface does.
#include <sys/stat.h>
#include <unistd.h>

#include <functional>

#include "h.h"

using namespace H;

extern "C" {
extern long ff_handled_context;
extern int ff_handled_error, ff_handled;
int ff_version(char*);
int ff_vcs_version(char*);
int ff_type_name(int, char*);
int ff_type_count(int*);
void ff_error_string(int, char*);
int ff_missing(long*, double*);
int ff_set_missing(long, double);
int ff_integer_behaviour(int);
int ff_set_handler(long);
int ff_open(int, const char*, int);
int ff_close(int);
int ff_frame(int, int);
int ff_frame_free(int);
int ff_frame_copy(int, int);
int ff_next(int, const int*, const long*);
int ff_counts(int, long*, int*, int*);
int ff_column(int, int, char*, int*, int*, int*, int*);
int ff_bits(int, int, int, char*, int*, int*);
int ff_property_idx(int, int, char*, char*);
int ff_property(int, const char*, int, char*, int*);
int ff_decoder(int, const int*);
int ff_decoder_free(int);
int ff_decoder_defaults(int, int);
int ff_decoder_set_rows(int, long);
int ff_decoder_counts(int, long*, int*);
int ff_decoder_set_data(int, void*, int, int, int, const int*);
int ff_decoder_data(int, void**, int*, int*, int*);
int ff_decoder_add(int, const char*, int);
int ff_decoder_size(int, int, int);
int ff_decoder_set_column(int, int, const int*, const int*, void*);
int ff_decoder_column(int, int, int*, int*, int*, void**);
int ff_decode(int, int, long*, const int*);
int ff_encoder(int);
int ff_encoder_free(int);
int ff_encoder_rows(int, long);
int ff_encoder_per_frame(int, long);
int ff_encoder_data(int, const void*, int, int, int, const int*);
int ff_encoder_add(int, const char*, int, int);
int ff_encoder_property(int, const char*, int, const char*, int);
int ff_encoder_size(int, int, const int*, const int*);
int ff_encoder_column(int, int, const int*, const int*, const int*, const void*);
int ff_encoder_bits(int, int, const char*, int, int);
int ff_encode(int, const char*, int, int, long*);
}

namespace {

#define F(x)                                                                                \
    do {                                                                                    \
        int rc_ = (x);                                                                      \
        if (rc_ != ODC_SUCCESS)                                                             \
            throw ApiError{std::string(#x) + mc::fmt(" returns %d: ", rc_) + odc_error_string(rc_)}; \
    } while (0)

std::string path(const char* name) { return mc::scratchDir() + "/c26." + name; }

std::string readFile(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return s;
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
        s.append(b, n);
    fclose(f);
    return s;
}
void writeFile(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f || fwrite(s.data(), 1, s.size(), f) != s.size())
        throw ApiError{"scratch file"};
    fclose(f);
}

// what is freed at the end of a run, come what may
struct Cleanup {
    std::vector<std::function<void()>> todo;
    ~Cleanup() {
        for (size_t i = todo.size(); i-- > 0;)
            todo[i]();
    }
};

const std::vector<Col> KINDS = {{"i", INTEGER}, {"r", REAL}, {"d", DOUBLE}, {"s", STRING, 1}, {"w", STRING, 2}, {"b", BITFIELD, 1, {{"x", 3}, {"yy", 5}}}, {"v", STRING, 3}};

Raw cell(const Col& c, int r, int pattern) {
    int v = pattern == 0 ? r : pattern == 1 ? 0 : r % 2 ? -1 : 300 * r;
    switch (c.type) {
        case INTEGER: return rI(v < 0 ? IMDI : v * 1000 - 5);
        case BITFIELD: return rI(v < 0 ? IMDI : 17 + v);
        case REAL: return rD(v < 0 ? RMDI : v * 0.5 + 1);
        case DOUBLE: return rD(v < 0 ? RMDI : v * 0.1 + 1e100);
    }
    return rS(mc::fmt("%d", v) + std::string("abcdefghijklmnopqrstuvwxyz").substr(0, 8 * c.w - 6 + r % 3), c.w);
}

Tab tableOf(const std::vector<int>& kinds, int rows, int pattern) {
    Tab t;
    for (size_t c = 0; c < kinds.size(); c++) {
        Col k  = KINDS[kinds[c]];
        k.name = mc::fmt("%s%zu@t", k.name.c_str(), c);
        t.cols.push_back(k);
    }
    for (int r = 0; r < rows; r++) {
        Row row;
        for (auto& c : t.cols)
            row.push_back(cell(c, r, pattern));
        t.rows.push_back(row);
    }
    return t;
}

std::vector<int> chooseKinds(mc::Ctx& ctx, int most) {
    std::vector<int> k;
    int n = 1 + ctx.choose(most);
    for (int i = 0; i < n; i++)
        k.push_back(ctx.choose(int(KINDS.size())));
    return k;
}

const int YES = 1, NO = 0;

// ---- encoding

enum Via { ARRAY, ARRAY_COLUMNS, ARRAY_ROWS, COLUMNS_BYTES_STRIDE, COLUMNS_BYTES, COLUMNS_DOUBLES, COLUMNS_DATA, ARRAY_STEP, ARRAY_ROWS_STEP, NVIA };
const char* viaName[] = {"array", "array, column_major=.true.", "array, column_major=.false.", "columns with element_size and stride", "columns with element_size", "columns with element_size_doubles",
                         "columns without sizes", "every second row of an array", "every second element of an array by rows"};

// the array with rows (its first index) in between
Image spaced(const Image& im, int n1, int n2) {
    Image s;
    s.array.reset(new char[size_t(2) * 8 * n1 * n2]);
    memset(s.array.get(), 0x5b, size_t(2) * 8 * n1 * n2);
    for (int j = 0; j < n2; j++)
        for (int i = 0; i < n1; i++)
            memcpy(s.array.get() + 8 * (size_t(j) * 2 * n1 + 2 * i), im.array.get() + 8 * (size_t(j) * n1 + i), 8);
    return s;
}

std::string encodeF(const Tab& t, int via, long perFrame, int blanks, bool count, const std::string& file, int readonly = 0) {
    Layout l = via == ARRAY_ROWS || via == ARRAY_ROWS_STEP ? ROWMAJOR : via <= ARRAY_COLUMNS || via == ARRAY_STEP ? COLMAJOR : via == COLUMNS_BYTES_STRIDE ? STRIDED : SEPARATE;
    Image im = image(t, l), gaps;
    std::string pad(blanks, ' ');
    F(ff_encoder(1));
    Cleanup cleanup;
    cleanup.todo.push_back([] { ff_encoder_free(1); });
    for (auto& p : t.props)
        F(ff_encoder_property(1, (p.first + pad).data(), p.first.size() + blanks, (p.second + pad).data(), p.second.size() + blanks));
    for (size_t c = 0; c < t.cols.size(); c++) {
        auto& col = t.cols[c];
        F(ff_encoder_add(1, (col.name + pad).data(), col.name.size() + blanks, col.type));
        for (auto& b : col.bits)
            F(ff_encoder_bits(1, c + 1, (b.first + pad).data(), b.first.size() + blanks, b.second));
    }
    for (size_t c = 0; c < t.cols.size(); c++) {
        int w = t.cols[c].w, bytes = 8 * w;
        switch (via) {
            case COLUMNS_BYTES_STRIDE: F(ff_encoder_column(1, c + 1, &bytes, nullptr, &im.stride[c], im.cols[c].get())); break;
            case COLUMNS_BYTES: F(ff_encoder_column(1, c + 1, &bytes, nullptr, nullptr, im.cols[c].get())); break;
            case COLUMNS_DOUBLES: F(ff_encoder_column(1, c + 1, nullptr, &w, nullptr, im.cols[c].get())); break;
            case COLUMNS_DATA: F(ff_encoder_column(1, c + 1, nullptr, nullptr, nullptr, im.cols[c].get())); break;
            default:
                if (w != 1)
                    F(via == ARRAY ? ff_encoder_size(1, c + 1, &bytes, nullptr) : ff_encoder_size(1, c + 1, nullptr, &w));
        }
    }
    if (via <= ARRAY_ROWS || via >= ARRAY_STEP) {
        int n1 = l == ROWMAJOR ? im.width / 8 : im.height, n2 = l == ROWMAJOR ? im.height : im.width / 8, step = 1;
        if (via >= ARRAY_STEP) {
            gaps     = spaced(im, n1, n2);
            im.array = std::move(gaps.array);
            n1 *= 2;
            step = 2;
        }
        F(ff_encoder_data(1, im.array.get(), n1, n2, step, via == ARRAY ? nullptr : l == ROWMAJOR ? &NO : &YES));
    }
    if (count || l == SEPARATE || l == STRIDED)
        F(ff_encoder_rows(1, t.rows.size()));
    if (perFrame)
        F(ff_encoder_per_frame(1, perFrame));
    long n = -1;
    F(ff_encode(1, (file + pad).data(), file.size() + blanks, readonly, &n));
    std::string s = readFile(file);
    if (!readonly && long(s.size()) != n)
        throw ApiError{mc::fmt("%ld bytes reported, %zu written", n, s.size())};
    return s;
}

void encoding(mc::Ctx& ctx) {
    int before = ctx.choose(NVIA + 1) - 1;  // an encoder used before
    int via    = ctx.choose(NVIA);
    int rows   = 1 + ctx.choose(3);
    ctx.shard();
    auto kinds  = chooseKinds(ctx, ctx.thorough ? 3 : 2);
    int pattern = ctx.choose(3);
    int extra   = ctx.choose(4);
    Tab t       = tableOf(kinds, rows, pattern);
    if (extra >= 2)
        t.props = {{"key", "a value"}, {"k2", ""}};
    long perFrame = extra % 2 ? 2 : 0;
    std::string file = path("out");
    if (before >= 0) {
        Tab o = tableOf({4, 0}, 2, 0);
        (void)thrown([&] { encodeF(o, before, 0, 0, false, file); });
    }
    if (before >= 0 || t.cols.size() > 1)
        ctx.nontrivial();
    ctx.note(std::string(viaName[via]) + (before >= 0 ? std::string(" after ") + viaName[before] : "") + mc::fmt(" per frame %ld: ", perFrame) + showTab(t));
    std::string want = encodeC(t, ROWMAJOR, perFrame), got;
    std::string err = thrown([&] { got = encodeF(t, via, perFrame, extra % 3, extra % 2, file); });
    ctx.outcome(std::string(viaName[via]) + (err.empty() ? "" : " refused"));
    std::string key = std::string(viaName[via]);
    if (!err.empty()) {
        if (via >= COLUMNS_DATA)
            return;  // may be refused
        ctx.fail("encode: " + key, err);
    }
    if (via == COLUMNS_DATA && rowWidth(t.cols) > 8 * long(t.cols.size()))
        return;  // 8 bytes each
    if (got != want)
        ctx.fail("encode: " + key + ": other bytes", "the file differs from what the C interface writes");
}

// ---- frames

Frame describeF(int f, long& rows) {
    Frame d;
    int cols = -1, props = -1;
    rows = -1;
    F(ff_counts(f, &rows, &cols, &props));
    char name[256], text[256];
    for (int c = 1; c <= cols; c++) {
        FCol k;
        int doubles = -1, bits = -1;
        F(ff_column(f, c, name, &k.type, &k.size, &doubles, &bits));
        if (doubles * 8 != k.size)
            throw ApiError{mc::fmt("column %d has %d bytes and %d doubles", c, k.size, doubles)};
        k.name = name;
        int one;  // the arguments one by one
        F(ff_column(f, c, name, nullptr, nullptr, nullptr, nullptr));
        if (name != k.name)
            throw ApiError{"name of a column asked for alone"};
        F(ff_column(f, c, nullptr, &one, nullptr, nullptr, nullptr));
        if (one != k.type)
            throw ApiError{"type of a column asked for alone"};
        F(ff_column(f, c, nullptr, nullptr, &one, nullptr, nullptr));
        if (one != k.size)
            throw ApiError{"element_size of a column asked for alone"};
        F(ff_column(f, c, nullptr, nullptr, nullptr, &one, nullptr));
        if (one != doubles)
            throw ApiError{"element_size_doubles of a column asked for alone"};
        F(ff_column(f, c, nullptr, nullptr, nullptr, nullptr, &one));
        if (one != bits)
            throw ApiError{"bitfield_count of a column asked for alone"};
        for (int b = 1; b <= bits; b++) {
            int off = -1, size = -1;
            F(ff_bits(f, c, b, name, &off, &size));
            k.bits.emplace_back(name, size);
            k.offsets.push_back(off);
            F(ff_bits(f, c, b, nullptr, &one, nullptr));
            if (one != off)
                throw ApiError{"offset of a bitfield asked for alone"};
            F(ff_bits(f, c, b, nullptr, nullptr, &one));
            if (one != size)
                throw ApiError{"size of a bitfield asked for alone"};
        }
        if (ff_bits(f, c, 0, name, nullptr, nullptr) == ODC_SUCCESS || ff_bits(f, c, bits + 1, name, nullptr, nullptr) == ODC_SUCCESS)
            throw ApiError{"attributes of a bitfield which is not there"};
        d.cols.push_back(k);
    }
    if (ff_column(f, 0, name, nullptr, nullptr, nullptr, nullptr) == ODC_SUCCESS || ff_column(f, cols + 1, name, nullptr, nullptr, nullptr, nullptr) == ODC_SUCCESS)
        throw ApiError{"attributes of a column which is not there"};
    for (int p = 1; p <= props; p++) {
        F(ff_property_idx(f, p, name, text));
        d.props[name] = text;
        for (int blanks = 0; blanks < 2; blanks++) {
            int exists = -1;
            char again[256];
            std::string key = name + std::string(blanks, ' ');
            F(ff_property(f, key.data(), key.size(), again, &exists));
            if (exists != 1 || std::string(again) != text)
                throw ApiError{"property " + key + " by name"};
            exists = -1;
            F(ff_property(f, key.data(), key.size(), nullptr, &exists));
            if (exists != 1)
                throw ApiError{"existence of property " + key};
            F(ff_property(f, key.data(), key.size(), again, nullptr));
            if (std::string(again) != text)
                throw ApiError{"value of property " + key};
        }
    }
    int exists = -1;
    F(ff_property(f, "absent", 6, text, &exists));
    if (exists != 0 || std::string(text) != "\1")
        throw ApiError{"a property which is not there exists"};
    if (ff_property_idx(f, 0, name, text) == ODC_SUCCESS || ff_property_idx(f, props + 1, name, text) == ODC_SUCCESS)
        throw ApiError{"a property with the index 0 or after the last"};
    return d;
}

// all columns, in the library's memory
Frame decodeF(int f) {
    long rows;
    Frame d = describeF(f, rows);
    F(ff_decoder(1, nullptr));
    Cleanup cleanup;
    cleanup.todo.push_back([] { ff_decoder_free(1); });
    F(ff_decoder_defaults(1, f));
    long got = -1;
    F(ff_decode(1, f, &got, nullptr));
    if (got != rows)
        throw ApiError{mc::fmt("%ld rows decoded of %ld", got, rows)};
    void* data = nullptr;
    int n1 = -1, n2 = -1, major = -1;
    F(ff_decoder_data(1, &data, &n1, &n2, &major));
    d.rows.assign(rows, Row(d.cols.size()));
    if (major != 1 || n1 != rows)
        throw ApiError{mc::fmt("array of (%d, %d) column major %d for %ld rows", n1, n2, major, rows)};
    int word = 0;
    for (size_t c = 0; c < d.cols.size(); c++)
        for (int k = 0; k < d.cols[c].size / 8; k++, word++)
            for (int r = 0; r < rows; r++)
                d.rows[r][c] += Raw((char*)data + 8 * (size_t(word) * n1 + r), 8);
    if (word != n2)
        throw ApiError{mc::fmt("array of %d words per row instead of %d", n2, word)};
    return d;
}

std::string textOf(const Frame& f) {
    std::string s;
    for (size_t c = 0; c < f.cols.size(); c++) {
        s += f.cols[c].name + mc::fmt(" %d %d ", f.cols[c].type, f.cols[c].size);
        for (size_t b = 0; b < f.cols[c].bits.size(); b++)
            s += mc::fmt("%s:%d@%d ", f.cols[c].bits[b].first.c_str(), f.cols[c].bits[b].second, f.cols[c].offsets[b]);
    }
    for (auto& p : f.props)
        s += p.first + "=" + p.second + " ";
    for (auto& r : f.rows) {
        s += "| ";
        for (size_t c = 0; c < r.size(); c++)
            s += show(r[c], f.cols[c].type) + " ";
    }
    return s;
}

void frames(mc::Ctx& ctx) {
    int nframes = 1 + ctx.choose(3);
    std::string bytes;
    std::string what;
    for (int k = 0; k < nframes; k++) {
        int kind = ctx.choose(3);
        what += "ABC"[kind];
        Tab t = kind == 0 ? tableOf({0, 4}, 1, 0) : kind == 1 ? tableOf({0, 4}, 2, 2) : tableOf({5, 2, 3}, 2, 0);
        if (kind != 1)
            t.props = {{kind ? "k" : "key", "value"}, {"other", mc::fmt("%d", k)}};
        bytes += encodeC(t);
    }
    struct Next {
        const char* name;
        int aggregated;  // -1: absent
        long most;       // -2: absent
    };
    static const std::vector<Next> nexts = {{"next()", -1, -2}, {"next(.true.)", 1, -2}, {"next(.false.)", 0, -2}, {"next(maximum_rows=2)", -1, 2}, {"next(.true., 3)", 1, 3}, {"next(.false., 3)", 0, 3}, {"next(.true., -1)", 1, -1}};
    int calls = 1 + ctx.choose(ctx.thorough ? 4 : 3), copyAt = -1;
    std::vector<int> seq;
    for (int k = 0; k < calls; k++)
        seq.push_back(ctx.choose(int(nexts.size())));
    ctx.shard();
    copyAt = ctx.choose(calls + 1) - 1;
    for (int s : seq)
        what += std::string(" ") + nexts[s].name;
    ctx.note(what + mc::fmt(" copy at %d", copyAt));
    if (calls > 1)
        ctx.nontrivial();
    writeFile(path("in"), bytes);
    std::string in = path("in") + (nframes == 2 ? "  " : "");
    CReader cr;
    CAPI(odc_open_path(&cr.r, path("in").c_str()));
    CFrame cf;
    CAPI(odc_new_frame(&cf.f, cr.r));
    Cleanup cleanup;
    std::string err = thrown([&] {
        F(ff_open(1, in.data(), in.size()));
        cleanup.todo.push_back([] { ff_close(1); });
        F(ff_frame(1, 1));
        cleanup.todo.push_back([] { ff_frame_free(1); });
    });
    if (!err.empty())
        ctx.fail("open", err);
    std::string copied;
    for (int k = 0; k < calls; k++) {
        auto& nx  = nexts[seq[k]];
        bool agg  = nx.aggregated == 1 || (nx.aggregated == -1 && nx.most != -2);
        int want  = agg ? odc_next_frame_aggregated(cf.f, nx.most == -2 ? -1 : nx.most) : odc_next_frame(cf.f);
        int got   = ff_next(1, nx.aggregated == -1 ? nullptr : &nx.aggregated, nx.most == -2 ? nullptr : &nx.most);
        if (got != want)
            ctx.fail(std::string("result of ") + nx.name, mc::fmt("%s returns %d where C returns %d", nx.name, got, want));
        ctx.outcome(mc::fmt("%s returns %d", nx.name, got));
        if (want != ODC_SUCCESS)
            break;
        Frame w, g;
        std::string e1 = thrown([&] { w = decodeFrameC(cf.f); }), e2 = thrown([&] { g = decodeF(1); });
        if (!e1.empty())
            ctx.skip();
        if (!e2.empty())
            ctx.fail("frame", std::string(nx.name) + ": " + e2);
        if (textOf(w) != textOf(g))
            ctx.fail(std::string("frame of ") + nx.name, textOf(g) + " where C has " + textOf(w));
        if (k == copyAt) {
            if (ff_frame_copy(1, 2) != ODC_SUCCESS)
                ctx.fail("copy", "refused");
            cleanup.todo.push_back([] { ff_frame_free(2); });
            copied = textOf(w);
        }
    }
    if (!copied.empty()) {
        Frame g;
        std::string e = thrown([&] { g = decodeF(2); });
        if (!e.empty() || textOf(g) != copied)
            ctx.fail("copy", e + textOf(g) + " instead of " + copied);
    }
}

// ---- decoding

enum Into { LIBRARY, DATA, DATA_COLUMNS, DATA_ROWS, COLUMNS, COLUMNS_STRIDE, COLUMNS_PLAIN, DATA_STEP, NINTO };
const char* intoName[] = {"memory of the library", "set_data", "set_data, column_major=.true.", "set_data, column_major=.false.", "columns with element_size", "columns with element_size and stride", "columns without sizes", "set_data of every second row"};

// decodes the named columns; checks the bytes around the cells
std::vector<Row> decodeInto(const Tab& t, const std::vector<int>& sel, int f, int into, int init, bool defaults, long height, int threads, int blanks) {
    const size_t GUARD = 32;
    std::string pad(blanks, ' ');
    F(ff_decoder(1, init < 0 ? nullptr : init ? &YES : &NO));
    Cleanup cleanup;
    cleanup.todo.push_back([] { ff_decoder_free(1); });
    if (defaults)
        F(ff_decoder_defaults(1, f));
    else
        for (int c : sel)
            F(ff_decoder_add(1, (t.cols[c].name + pad).data(), t.cols[c].name.size() + blanks));
    long counted = -1;
    int ncols    = -1;
    F(ff_decoder_counts(1, &counted, &ncols));
    if (ncols != int(sel.size()))
        throw ApiError{mc::fmt("%d columns in the decoder", ncols)};
    int words = 0, step = into == DATA_STEP ? 2 : 1;
    for (int c : sel)
        words += t.cols[c].w;
    std::vector<std::string> bufs;
    std::vector<int> strides;
    if (into >= COLUMNS && into <= COLUMNS_PLAIN) {
        for (size_t k = 0; k < sel.size(); k++) {
            int bytes = 8 * t.cols[sel[k]].w, stride = bytes + 16;
            strides.push_back(into == COLUMNS_STRIDE ? stride : bytes);
            bufs.push_back(std::string(strides.back() * height + GUARD, '\x5c'));
            F(ff_decoder_set_column(1, k + 1, into == COLUMNS_PLAIN ? nullptr : &bytes, into == COLUMNS_STRIDE ? &stride : nullptr, &bufs.back()[0]));
        }
        F(ff_decoder_set_rows(1, height));
        F(ff_decoder_counts(1, &counted, &ncols));
        if (counted != height)
            throw ApiError{mc::fmt("row_count is %ld after setting %ld", counted, height)};
    }
    bool byRows = into == DATA_ROWS || (into == LIBRARY && init == 0);
    int n1 = byRows ? words : int(height), n2 = byRows ? int(height) : words;
    if (into == LIBRARY && !defaults)
        for (size_t k = 0; k < sel.size(); k++)
            F(ff_decoder_size(1, k + 1, 8 * t.cols[sel[k]].w));
    if (into == DATA || into == DATA_COLUMNS || into == DATA_ROWS || into == DATA_STEP) {
        bufs.push_back(std::string(size_t(8) * n1 * step * n2 + GUARD, '\x5c'));
        F(ff_decoder_set_data(1, &bufs[0][0], n1 * step, n2, step, into == DATA || into == DATA_STEP ? nullptr : byRows ? &NO : &YES));
        F(ff_decoder_set_rows(1, height));
    }
    long rows = -1;
    F(ff_decode(1, f, &rows, threads ? &threads : nullptr));
    if (rows != long(t.rows.size()))
        throw ApiError{mc::fmt("%ld rows decoded of %zu", rows, t.rows.size())};
    std::vector<Row> out(rows, Row(sel.size()));
    if (into >= COLUMNS && into <= COLUMNS_PLAIN) {
        for (size_t k = 0; k < sel.size(); k++) {
            int bytes = 8 * t.cols[sel[k]].w, b = -1, dbl = -1, st = -1;
            void* p = nullptr;
            F(ff_decoder_column(1, k + 1, &b, &dbl, &st, &p));
            if (b != bytes || dbl * 8 != b || st != strides[k] || p != &bufs[k][0])
                throw ApiError{mc::fmt("column %zu is described as %d bytes, %d doubles, stride %d", k + 1, b, dbl, st)};
            int alone = -1;
            F(ff_decoder_column(1, k + 1, nullptr, nullptr, &alone, nullptr));
            if (alone != st)
                throw ApiError{"stride asked for alone"};
            for (long r = 0; r < rows; r++)
                out[r][k] = bufs[k].substr(r * strides[k], bytes);
            std::string rest = bufs[k];
            for (long r = 0; r < rows; r++)
                rest.replace(r * strides[k], bytes, bytes, '\x5c');
            if (rest.find_first_not_of('\x5c') != std::string::npos)
                throw ApiError{"bytes beside the cells were written"};
        }
        return out;
    }
    void* data = nullptr;
    int m1 = -1, m2 = -1, major = -1, alone = -1, x, y;
    F(ff_decoder_data(1, &data, &m1, &m2, &major));
    F(ff_decoder_data(1, nullptr, &x, &y, &alone));
    if (alone != major)
        throw ApiError{"column_major asked for alone"};
    if (into == LIBRARY) {
        n1 = byRows ? words : rows;
        n2 = byRows ? rows : words;
    }
    if (m1 != n1 || m2 != n2 || major != !byRows || (into != LIBRARY && data != &bufs[0][0]))
        throw ApiError{mc::fmt("the array is described as (%d, %d) column major %d", m1, m2, major)};
    int word         = 0;
    std::string rest = bufs.empty() ? "" : bufs[0];
    for (size_t k = 0; k < sel.size(); k++)
        for (int j = 0; j < t.cols[sel[k]].w; j++, word++)
            for (long r = 0; r < rows; r++) {
                size_t at = 8 * step * (byRows ? size_t(r) * n1 + word : size_t(word) * n1 + r);
                out[r][k] += Raw((char*)data + at, 8);
                if (!rest.empty())
                    rest.replace(at, 8, 8, '\x5c');
            }
    if (rest.find_first_not_of('\x5c') != std::string::npos)
        throw ApiError{"bytes beside the cells were written"};
    return out;
}

void decoding(mc::Ctx& ctx) {
    int before = ctx.choose(NINTO + 1) - 1;  // a decoder used before
    int into   = ctx.choose(NINTO);
    int init   = ctx.choose(3) - 1;
    ctx.shard();
    int rows    = 1 + ctx.choose(ctx.thorough ? 3 : 2);
    auto kinds  = chooseKinds(ctx, 2);
    int config  = ctx.choose(6);
    bool defaults = config == 0;
    int threads = config % 3;  // 0: absent
    long height = rows + (into != LIBRARY && config >= 3 ? 2 : 0);
    Tab t       = tableOf(kinds, rows, 2);
    std::vector<int> sel;
    for (size_t c = 0; c < kinds.size(); c++)
        sel.push_back(int(c));
    if (config == 2 || config == 4)
        std::reverse(sel.begin(), sel.end());
    if (config == 5)
        sel.erase(sel.begin() + 1, sel.end());
    if (before >= 0 || sel.size() > 1)
        ctx.nontrivial();
    ctx.note(std::string(intoName[into]) + (before >= 0 ? std::string(" after ") + intoName[before] : "") + mc::fmt(" initialise %d config %d: ", init, config) + showTab(t));
    writeFile(path("in"), encodeC(t));
    if (before >= 0) {
        Tab o = tableOf({4, 0}, 2, 0);
        writeFile(path("first"), encodeC(o));
        (void)thrown([&] {
            std::string p = path("first");
            F(ff_open(2, p.data(), p.size()));
            Cleanup c;
            c.todo.push_back([] { ff_close(2); });
            F(ff_frame(2, 2));
            c.todo.push_back([] { ff_frame_free(2); });
            F(ff_next(2, nullptr, nullptr));
            decodeInto(o, {0, 1}, 2, before, before % 2, false, 3, 0, 0);
        });
    }
    std::vector<Row> got;
    std::string err = thrown([&] {
        std::string p = path("in");
        F(ff_open(1, p.data(), p.size()));
        Cleanup c;
        c.todo.push_back([] { ff_close(1); });
        F(ff_frame(1, 1));
        c.todo.push_back([] { ff_frame_free(1); });
        F(ff_next(1, nullptr, nullptr));
        got = decodeInto(t, sel, 1, into, init, defaults, height, threads, config % 2);
    });
    ctx.outcome(std::string(intoName[into]) + (err.empty() ? "" : " refused"));
    if (!err.empty()) {
        if (into == DATA_STEP)
            return;
        bool wide = false;
        for (int c : sel)
            wide |= t.cols[c].w > 1;
        if (into == COLUMNS_PLAIN && wide)
            return;  // 8 bytes are not enough
        ctx.fail(std::string("decode: ") + intoName[into], err);
    }
    for (int r = 0; r < rows; r++)
        for (size_t k = 0; k < sel.size(); k++)
            if (!sameCell(t.rows[r][sel[k]], got[r][k], t.cols[sel[k]].type))
                ctx.fail(std::string("decode: ") + intoName[into] + ": cells", mc::fmt("row %d column %zu: ", r, k) + show(got[r][k], t.cols[sel[k]].type));
}

// ---- the rest

struct Restore {
    ~Restore() {
        odc_set_missing_integer(IMDI);
        odc_set_missing_double(RMDI);
        odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
        odc_set_failure_handler(nullptr, nullptr);
    }
};

void settings(mc::Ctx& ctx) {
    static const std::vector<long> longs     = {0, -1, 2147483647, 12345678901234L, 255};
    static const std::vector<double> doubles = {0, -2147483647, 1e300, 255.5};
    long i   = ctx.pick(longs);
    double d = ctx.pick(doubles);
    int b    = ctx.choose(4);
    long c   = ctx.pick(longs);
    ctx.shard();
    ctx.nontrivial();
    ctx.note(mc::fmt("missing %ld %g behaviour %d context %ld", i, d, b, c));
    Restore restore;
    char s[256];
    const char* w = nullptr;
    std::string err = thrown([&] {
        F(ff_set_missing(i, d));
        long ci = -1, fi = -1;
        double cd = -1, fd = -1;
        CAPI(odc_missing_integer(&ci));
        CAPI(odc_missing_double(&cd));
        F(ff_missing(&fi, &fd));
        if (ci != i || fi != i || cd != d || fd != d)
            throw ApiError{mc::fmt("missing values %ld %g in C, %ld %g in Fortran", ci, cd, fi, fd)};
        F(ff_version(s));
        CAPI(odc_version(&w));
        if (std::string(s) != w)
            throw ApiError{std::string("version ") + s + " instead of " + w};
        F(ff_vcs_version(s));
        CAPI(odc_vcs_version(&w));
        if (std::string(s) != w)
            throw ApiError{std::string("vcs_version ") + s + " instead of " + w};
        int n = -1, m = -1;
        F(ff_type_count(&n));
        CAPI(odc_column_type_count(&m));
        if (n != m)
            throw ApiError{mc::fmt("%d types instead of %d", n, m)};
        for (int t = -1; t <= n; t++) {
            int rc = odc_column_type_name(t, &w), rf = ff_type_name(t, s);
            if (rc != rf || (rc == ODC_SUCCESS && std::string(w) != s))
                throw ApiError{mc::fmt("name of type %d", t)};
        }
        for (int e = -1; e < 6; e++) {
            if (e == 2 || e == 3)
                continue;  // the last error, below
            ff_error_string(e, s);
            if (std::string(s) != std::string(odc_error_string(e)).substr(0, 255))
                throw ApiError{mc::fmt("text of error %d", e)};
        }
        int want = b == ODC_INTEGERS_AS_DOUBLES || b == ODC_INTEGERS_AS_LONGS;
        if ((ff_integer_behaviour(b) == ODC_SUCCESS) != want)
            throw ApiError{mc::fmt("integer_behaviour(%d)", b)};
        odc_integer_behaviour(ODC_INTEGERS_AS_LONGS);
        F(ff_set_handler(c));
        ff_handled = 0;
        std::string no = path("none");
        int rc         = ff_open(3, no.data(), no.size());
        if (rc == ODC_SUCCESS)
            throw ApiError{"a file which is not there was opened"};
        ff_error_string(rc, s);
        if (std::string(s) != std::string(odc_error_string(rc)).substr(0, 255))
            throw ApiError{"text of the last error"};
        if (ff_handled != 1 || ff_handled_error != rc || ff_handled_context != c)
            throw ApiError{mc::fmt("handler called %d times with context %ld and error %d", ff_handled, ff_handled_context, ff_handled_error)};
    });
    ctx.outcome(err.empty() ? "settings" : err);
    if (!err.empty())
        ctx.fail("settings", err);
}

void mistakes(mc::Ctx& ctx) {
    static const char* names[] = {"file not there", "no frames left", "column not there", "two few rows", "array too small", "column 0 of a decoder", "column after the last of a decoder",
                                  "column 0 of an encoder", "no columns", "no rows per frame", "unit which cannot be written", "size of 12 bytes", "no threads", "bitfield too large", "bad type"};
    int what  = ctx.choose(15);
    auto kinds = chooseKinds(ctx, 2);
    ctx.nontrivial();
    ctx.note(names[what]);
    Tab t = tableOf(kinds, 3, 0);
    writeFile(path("in"), encodeC(t));
    Cleanup c;
    auto open = [&] {
        std::string p = path("in");
        F(ff_open(1, p.data(), p.size()));
        c.todo.push_back([] { ff_close(1); });
        F(ff_frame(1, 1));
        c.todo.push_back([] { ff_frame_free(1); });
        F(ff_next(1, nullptr, nullptr));
        F(ff_decoder(1, nullptr));
        c.todo.push_back([] { ff_decoder_free(1); });
    };
    auto encoder = [&] {
        F(ff_encoder(1));
        c.todo.push_back([] { ff_encoder_free(1); });
    };
    bool reported = false;
    double d[64];
    long n = -1;
    std::string p = path("out");
    int twelve = 12, eight = 8, zero = 0, minus = -1;
    std::string err = thrown([&] {
        switch (what) {
            case 0: reported = ff_open(1, "none  ", 6) != ODC_SUCCESS; break;
            case 1:
                open();
                reported = ff_next(1, nullptr, nullptr) == ODC_ITERATION_COMPLETE && ff_next(1, &YES, nullptr) == ODC_ITERATION_COMPLETE;
                break;
            case 2:
                open();
                F(ff_decoder_add(1, "none", 4));
                reported = ff_decode(1, 1, &n, nullptr) != ODC_SUCCESS;
                break;
            case 3:
                open();
                F(ff_decoder_defaults(1, 1));
                F(ff_decoder_set_rows(1, 2));
                reported = ff_decode(1, 1, &n, nullptr) != ODC_SUCCESS;
                break;
            case 4:
                open();
                F(ff_decoder_defaults(1, 1));
                reported = ff_decoder_set_data(1, d, 2, 8, 1, nullptr) != ODC_SUCCESS || ff_decode(1, 1, &n, nullptr) != ODC_SUCCESS;
                break;
            case 5:
            case 6: {
                open();
                F(ff_decoder_defaults(1, 1));
                int col  = what == 5 ? 0 : int(t.cols.size()) + 1;
                void* q  = nullptr;
                reported = ff_decoder_size(1, col, 8) != ODC_SUCCESS && ff_decoder_set_column(1, col, &eight, nullptr, d) != ODC_SUCCESS && ff_decoder_column(1, col, nullptr, nullptr, nullptr, &q) != ODC_SUCCESS;
                break;
            }
            case 7:
                encoder();
                F(ff_encoder_add(1, "a", 1, 1));
                reported = ff_encoder_size(1, 0, &eight, nullptr) != ODC_SUCCESS && ff_encoder_size(1, 2, &eight, nullptr) != ODC_SUCCESS && ff_encoder_column(1, 0, &eight, nullptr, nullptr, d) != ODC_SUCCESS
                           && ff_encoder_column(1, 2, &eight, nullptr, nullptr, d) != ODC_SUCCESS && ff_encoder_bits(1, 0, "x", 1, 1) != ODC_SUCCESS && ff_encoder_bits(1, 2, "x", 1, 1) != ODC_SUCCESS;
                break;
            case 8:
                encoder();
                F(ff_encoder_rows(1, 2));
                reported = ff_encode(1, p.data(), p.size(), 0, &n) != ODC_SUCCESS;
                break;
            case 9:
                encoder();
                reported = ff_encoder_per_frame(1, 0) != ODC_SUCCESS && ff_encoder_per_frame(1, -3) != ODC_SUCCESS;
                break;
            case 10:
                writeFile(p, "untouched");
                reported = !thrown([&] { encodeF(t, ARRAY, 0, 0, false, p, 1); }).empty() && readFile(p) == "untouched";
                break;
            case 11:
                encoder();
                F(ff_encoder_add(1, "a", 1, 3));
                reported = ff_encoder_size(1, 1, &twelve, nullptr) != ODC_SUCCESS && ff_encoder_column(1, 1, &eight, nullptr, &twelve, d) != ODC_SUCCESS && ff_encoder_size(1, 1, nullptr, &minus) != ODC_SUCCESS;
                break;
            case 12:
                open();
                F(ff_decoder_defaults(1, 1));
                reported = ff_decode(1, 1, &n, &zero) != ODC_SUCCESS;
                break;
            case 13:
                encoder();
                F(ff_encoder_add(1, "a", 1, 4));
                reported = ff_encoder_bits(1, 1, "x", 1, 33) != ODC_SUCCESS && ff_encoder_bits(1, 1, "x", 1, 0) != ODC_SUCCESS;
                break;
            case 14:
                encoder();
                reported = ff_encoder_add(1, "a", 1, t.cols.size() == 1 ? 9 : -1) != ODC_SUCCESS || ff_encoder_column(1, 1, &eight, nullptr, nullptr, d) != ODC_SUCCESS || ff_encoder_rows(1, 2) != ODC_SUCCESS
                           || ff_encode(1, p.data(), p.size(), 0, &n) != ODC_SUCCESS;
                break;
        }
    });
    ctx.outcome(std::string(names[what]) + (reported ? " reported" : ""));
    if (!err.empty())
        ctx.fail(names[what], err);
    if (!reported)
        ctx.fail(names[what], "not reported");
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"encoding", "tables of 1 to 2 (thorough 3) columns of 7 kinds and 1 to 3 rows, given in 9 ways, with properties and rows per frame or not, after another encoder given in each way: the bytes the C interface writes", encoding},
        {"frames", "every sequence of 1 to 3 of 3 frames, read by every sequence of up to 3 (4) of 7 calls of next, with a copy taken at any point: the frames and attributes the C interface gives", frames},
        {"decoding", "tables of 1 to 2 columns of 7 kinds, decoded in 8 ways, 3 ways of initialising and 6 configurations, after another decoder used in each way", decoding},
        {"settings", "missing values, names, versions, texts of errors, the failure handler and its context", settings},
        {"mistakes", "15 kinds of mistakes", mistakes},
    };
}
