// C03: the encoded bytes depend on the table, not on its memory layout, the interface or the sink.
#include <fcntl.h>
#include <sys/stat.h>
#include "h.h"
using namespace H;

namespace {

std::string snapshot(const Tab& t, const Image& im) {
    std::string s;
    if (im.array)
        s.assign(im.array.get(), im.width * im.height);
    for (size_t c = 0; c < im.cols.size(); c++)
        s.append(im.cols[c].get(), t.rows.size() ? im.stride[c] * (t.rows.size() - 1) + 8 * t.cols[c].w : 0);
    return s;
}

// image with slack rows, extra width and a chosen fill of everything that is not a cell
Image img(const Tab& t, Layout l, int slackRows, int slackWords, unsigned char fill, int oddStride = 0) {
    Image im;
    im.layout = l;
    im.height = t.rows.size() + slackRows;
    im.width  = rowWidth(t.cols) + 8 * slackWords;
    if (l == ROWMAJOR || l == COLMAJOR) {
        im.array.reset(new char[im.width * im.height]);
        memset(im.array.get(), fill, im.width * im.height);
    }
    long off = 0;
    for (size_t c = 0; c < t.cols.size(); c++) {
        int w = t.cols[c].w;
        if (l == SEPARATE || l == STRIDED) {
            int stride = 8 * w + (l == STRIDED ? 8 * (1 + slackWords) - oddStride : 0);
            size_t n   = stride * (t.rows.size() - 1) + 8 * w;
            im.cols.emplace_back(new char[n]);
            memset(im.cols.back().get(), fill, n);
            im.stride.push_back(stride);
            for (size_t r = 0; r < t.rows.size(); r++)
                memcpy(im.cols.back().get() + stride * r, t.rows[r][c].data(), 8 * w);
        }
        else if (l == ROWMAJOR)
            for (size_t r = 0; r < t.rows.size(); r++)
                memcpy(im.array.get() + im.width * r + off, t.rows[r][c].data(), 8 * w);
        else
            for (size_t r = 0; r < t.rows.size(); r++)
                for (int k = 0; k < w; k++)
                    memcpy(im.array.get() + (off / 8 + k) * 8 * im.height + 8 * r, t.rows[r][c].data() + 8 * k, 8);
        off += 8 * w;
    }
    return im;
}

struct Sink {
    std::string got;
    int calls = 0;
};
long sinkWrite(void* h, const void* p, long n) {
    Sink* s = (Sink*)h;
    s->got.append((const char*)p, n);
    s->calls++;
    return n;
}

// sinks: 0 buffer 1 stream 2 file descriptor 3 descriptor already positioned after other data 4 pipe
std::string encodeTo(mc::Ctx& c, odc_encoder_t* e, int sink, size_t cap) {
    long n = -1;
    if (sink == 0) {
        std::unique_ptr<char[]> buf(new char[cap]);
        memset(buf.get(), 0x33, cap);
        CAPI(odc_encode_to_buffer(e, buf.get(), cap, &n));
        c.check(n >= 0 && size_t(n) <= cap, "byte-count", mc::fmt("buffer: %ld bytes reported", n));
        for (size_t i = n; i < cap; i++)
            if (buf[i] != 0x33)
                c.fail("byte-count", "buffer modified beyond the reported number of bytes");
        return std::string(buf.get(), n);
    }
    if (sink == 1) {
        Sink s;
        CAPI(odc_encode_to_stream(e, &s, sinkWrite, &n));
        c.check(size_t(n) == s.got.size(), "byte-count", mc::fmt("stream: %ld bytes reported, %zu written", n, s.got.size()));
        return s.got;
    }
    if (sink == 2 || sink == 3) {
        std::string path = mc::scratchDir() + "/c03.odb";
        int fd           = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        size_t pre       = 0;
        if (sink == 3)
            pre = write(fd, "0123456789", 10);
        int rc          = odc_encode_to_file_descriptor(e, fd, &n);
        std::string err = rc ? odc_error_string(rc) : "";
        struct stat st;
        if (fstat(fd, &st) != 0)
            c.fail("descriptor-closed", "the caller's descriptor was closed");
        std::string got(st.st_size, 0);
        pread(fd, &got[0], got.size(), 0);
        close(fd);
        if (rc)
            throw ApiError{err};
        c.check(got.substr(0, pre) == std::string("0123456789").substr(0, pre), "overwrote", "data before the descriptor's position was overwritten");
        got = got.substr(pre);
        c.check(size_t(n) == got.size(), sink == 3 ? "byte-count-appended" : "byte-count", mc::fmt("descriptor: %ld bytes reported, %zu written", n, got.size()));
        return got;
    }
    int p[2];
    if (pipe(p) != 0)
        abort();
    fcntl(p[1], F_SETPIPE_SZ, 1 << 18);
    int rc          = odc_encode_to_file_descriptor(e, p[1], &n);
    std::string err = rc ? odc_error_string(rc) : "";
    close(p[1]);
    std::string got;
    char buf[4096];
    ssize_t k;
    while ((k = read(p[0], buf, sizeof(buf))) > 0)
        got.append(buf, k);
    close(p[0]);
    if (rc)
        throw ApiError{err};
    c.check(size_t(n) == got.size(), "byte-count", mc::fmt("pipe: %ld bytes reported, %zu written", n, got.size()));
    return got;
}

void configure(odc_encoder_t* e, const Tab& t, const Image& im, bool zeroStride) {
    configureColumns(e, t);
    for (auto& p : t.props)
        CAPI(odc_encoder_add_property(e, p.first.c_str(), p.second.c_str()));
    if (im.layout == SEPARATE && !zeroStride) {
        for (size_t c = 0; c < t.cols.size(); c++)
            CAPI(odc_encoder_column_set_data_array(e, c, 8 * t.cols[c].w, im.stride[c], im.cols[c].get()));
    }
    else
        configureData(e, t, im);
}

Tab table(mc::Ctx& c, int maxCols, int maxRows) {
    struct K { int type, w; };
    static const std::vector<K> kinds = {{INTEGER, 1}, {STRING, 1}, {STRING, 2}, {STRING, 3}, {DOUBLE, 1}};
    Tab t;
    int nc = 1 + c.choose(maxCols);
    for (int i = 0; i < nc; i++) {
        K k = kinds[c.choose(nc <= 2 ? 5 : 4)];
        t.cols.push_back({mc::fmt("c%d@t", i), k.type, k.w, {}});
    }
    int nr = 1 + c.choose(maxRows);
    // 0: everything changes, 1: nothing changes, 2: only the last column, 3: only the first, 4: wide strings differ in their last word only
    int pattern = c.choose(5);
    for (int r = 0; r < nr; r++) {
        Row row;
        for (int i = 0; i < nc; i++) {
            int k = pattern == 0 || pattern == 4 || (pattern == 2 && i == nc - 1) || (pattern == 3 && i == 0) ? r : 0;
            if (t.cols[i].type == INTEGER)
                row.push_back(rI(100 * k + i));
            else if (t.cols[i].type == DOUBLE)
                row.push_back(rD(0.5 * k + i));
            else {
                std::string s(8 * t.cols[i].w, char('a' + i));
                if (pattern == 4)
                    s[s.size() - 1] = char('A' + k);
                else
                    s = s.substr(0, 1 + (5 * k + 3 * i) % (8 * t.cols[i].w));
                row.push_back(rS(s, t.cols[i].w));
            }
        }
        t.rows.push_back(row);
    }
    return t;
}

std::string reference(mc::Ctx& c, const Tab& t, long rpf) {
    std::string ref;
    std::string err = thrown([&] { ref = encodeCpp(t, SEPARATE, rpf ? rpf : 10000); });
    if (!err.empty())
        c.fail("encode-error", err + " for " + showTab(t));
    return ref;
}

void layouts(mc::Ctx& c) {
    Tab t = table(c, 3, c.thorough ? 4 : 3);
    long rpf = c.choose(3);
    c.shard();
    int l      = c.choose(4);
    int slackR = l <= 1 ? c.choose(2) : 0;
    int slackW = c.choose(2);
    bool zero  = l == SEPARATE ? c.flip() : false;
    int api    = (l == COLMAJOR || slackR) ? 0 : c.choose(2);
    if (t.rows.size() > 1 && t.cols.size() > 1)
        c.nontrivial();
    c.note(mc::fmt("layout %d slack %d/%d rpf %ld api %d: ", l, slackR, slackW, rpf, api) + showTab(t));
    std::string ref = reference(c, t, rpf);
    c.outcome(ref);
    for (int fill : {0x00, 0xa5}) {
        Image im           = img(t, Layout(l), slackR, slackW, fill, api ? 4 : 0);
        std::string before = snapshot(t, im);
        std::string got;
        std::string err = thrown([&] {
            if (api) {
                eckit::MemoryHandle out(size_t(1024), true);
                out.openForWrite(0);
                odc::api::encode(out, columnInfo(t), strided(t, im), t.props, rpf ? rpf : 10000);
                got.assign((const char*)out.data(), size_t(out.position()));
                out.close();
            }
            else {
                Encoder e;
                configure(e.e, t, im, zero);
                if (l >= SEPARATE || slackR)
                    CAPI(odc_encoder_set_row_count(e.e, t.rows.size()));
                if (rpf)
                    CAPI(odc_encoder_set_rows_per_frame(e.e, rpf));
                got = encodeTo(c, e.e, 0, capFor(t) + 4096 * t.rows.size());
            }
        });
        if (!err.empty())
            c.fail("encode-error", err);
        if (snapshot(t, im) != before)
            c.fail("input-modified", "the caller's data was modified");
        if (got != ref)
            c.fail("layout-dependent", mc::fmt("layout %d (slack rows %d, width %d, fill %02x, api %d) encodes to different bytes", l, slackR, slackW, fill, api));
    }
}

void sinks(mc::Ctx& c) {
    Tab t    = table(c, 2, 3);
    t.props  = {{"key", "value"}};
    long rpf = c.choose(3);
    c.shard();
    int sink = c.choose(5);
    Layout l = Layout(c.choose(2) * 2);
    if (t.rows.size() > 1)
        c.nontrivial();
    c.note(mc::fmt("sink %d rpf %ld: ", sink, rpf) + showTab(t));
    std::string ref = reference(c, t, rpf), got;
    c.outcome(ref);
    Image im        = img(t, l, 0, 0, 0x5a);
    std::string err = thrown([&] {
        Encoder e;
        configure(e.e, t, im, true);
        CAPI(odc_encoder_set_row_count(e.e, t.rows.size()));
        if (rpf)
            CAPI(odc_encoder_set_rows_per_frame(e.e, rpf));
        got = encodeTo(c, e.e, sink, capFor(t) + 4096 * t.rows.size());
    });
    if (!err.empty())
        c.fail(sink == 4 ? "encode-error-pipe" : "encode-error", mc::fmt("sink %d: ", sink) + err);
    if (got != ref)
        c.fail("sink-dependent", mc::fmt("sink %d received different bytes", sink));
}

// column-major arrays whose column width is not 8: right answer or an error
void cmwidth(mc::Ctx& c) {
    int cmw = 8 * (1 + c.choose(3));
    Tab t;
    int nc = 1 + c.choose(3);
    for (int i = 0; i < nc; i++)
        t.cols.push_back({mc::fmt("c%d", i), STRING, 1 + c.choose(4), {}});
    int nr = 1 + c.choose(3);
    for (int r = 0; r < nr; r++) {
        Row row;
        for (int i = 0; i < nc; i++) {
            std::string s(8 * t.cols[i].w, ' ');
            for (size_t k = 0; k < s.size(); k++)
                s[k] = 'A' + (r * 7 + i * 3 + k) % 50;
            row.push_back(rS(s, t.cols[i].w));
        }
        t.rows.push_back(row);
    }
    c.shard();
    bool divides = true;
    for (auto& col : t.cols)
        divides &= (8 * col.w) % cmw == 0;
    c.nontrivial();
    c.note(mc::fmt("column major width %d: ", cmw) + showTab(t));
    long width = rowWidth(t.cols), height = nr;
    std::unique_ptr<char[]> a(new char[width * height]);
    memset(a.get(), 0, width * height);
    if (divides) {
        long off = 0;
        for (int i = 0; i < nc; i++)
            for (int k = 0; k < 8 * t.cols[i].w / cmw; k++, off += cmw * height)
                for (int r = 0; r < nr; r++)
                    memcpy(a.get() + off + cmw * r, t.rows[r][i].data() + cmw * k, cmw);
    }
    std::string ref = reference(c, t, 0), got;
    std::string err = thrown([&] {
        Encoder e;
        configureColumns(e.e, t);
        CAPI(odc_encoder_set_data_array(e.e, a.get(), width, height, cmw));
        got = encodeTo(c, e.e, 0, capFor(t));
    });
    c.outcome(err.empty() ? got : err);
    if (divides) {
        if (!err.empty())
            c.fail("encode-error", err);
        if (got != ref)
            c.fail("layout-dependent", "column-major array encodes to different bytes");
    }
    else if (err.empty())
        c.fail("column-major-width", "a column narrower than (or no multiple of) the column-major width was encoded without an error");
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"layouts", "<=3 columns of 4-5 kinds/widths x <=3 (thorough 4) rows x 5 change patterns x 3 frame sizes x 4 layouts x slack rows/width x C/C++: bytes equal, two different fills of the non-cell memory; non trivial: >=2 rows and columns", layouts},
        {"sinks", "<=2 columns x <=3 rows x patterns x frame sizes x {buffer, stream, file, positioned file, pipe} x 2 layouts", sinks},
        {"column-major-width", "column-major width 8/16/24 x <=3 string columns of 1-4 words x <=3 rows: same bytes, or an error when it does not divide", cmwidth},
    };
}
