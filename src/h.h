// Model tables and thin wrappers around the public APIs of odc, shared by the harnesses.
#pragma once
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"

#include "odc/api/Odb.h"
#include "odc/api/odc.h"

#include "mc.h"

namespace H {

using Raw = std::string;  // 8*w bytes of one cell
using Row = std::vector<Raw>;
using Props = std::map<std::string, std::string>;

enum { IGNORE = 0, INTEGER = 1, REAL = 2, STRING = 3, BITFIELD = 4, DOUBLE = 5 };

static const long IMDI   = 2147483647;
static const double RMDI = -2147483647;

struct Col {
    std::string name;
    int type;
    int w = 1;  // width in 8 byte units (strings)
    std::vector<std::pair<std::string, int>> bits;
};

struct Tab {
    std::vector<Col> cols;
    std::vector<Row> rows;
    Props props;
};

inline Raw rI(long v) { return Raw((const char*)&v, 8); }
inline Raw rD(double v) { return Raw((const char*)&v, 8); }
inline Raw rS(const std::string& s, int w = 1) {
    Raw r = s;
    r.resize(8 * w, '\0');
    return r;
}
inline long asI(const Raw& r) { long v; memcpy(&v, r.data(), 8); return v; }
inline double asD(const Raw& r) { double v; memcpy(&v, r.data(), 8); return v; }
inline std::string asS(const Raw& r) { return std::string(r.c_str(), strnlen(r.data(), r.size())); }

inline const char* tname(int t) {
    static const char* n[] = {"IGNORE", "INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"};
    return t >= 0 && t < 6 ? n[t] : "?";
}

inline std::string show(const Raw& r, int type, bool asDoubles = false) {
    if (type == STRING) {
        std::string s = "'";
        for (unsigned char c : r)
            s += (c >= 32 && c < 127) ? std::string(1, c) : c == 0 ? std::string(".") : mc::fmt("\\x%02x", c);
        return s + "'";
    }
    if ((type == INTEGER || type == BITFIELD) && !asDoubles)
        return mc::fmt("%ld", asI(r));
    return mc::fmt("%.17g", asD(r));
}

inline std::string showTab(const Tab& t, bool asDoubles = false) {
    std::string s;
    for (auto& c : t.cols)
        s += mc::fmt("%s:%s/%d ", c.name.c_str(), tname(c.type), c.w);
    for (auto& r : t.rows) {
        s += "| ";
        for (size_t i = 0; i < r.size(); i++)
            s += show(r[i], t.cols[i].type, asDoubles) + " ";
    }
    return s;
}

//----------------------------------------------------------------------------------------------------------------------
// set up

inline void silence() {
    eckit::Log::error().reset();
    eckit::Log::warning().reset();
    eckit::Log::info().reset();
}

inline void init(bool longs = true) {
    static char a0[] = "check";
    static char* av[] = {a0, nullptr};
    setenv("ECKIT_EXCEPTION_IS_SILENT", "1", 1);
    setenv("ECKIT_ASSERT_FAILED_IS_SILENT", "1", 1);
    eckit::Main::initialise(1, av);
    silence();
    odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
}

// error of the last C API call
struct ApiError : std::exception {
    std::string msg;
    ApiError(const std::string& m) : msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
#define CAPI(x)                                                           \
    do {                                                                  \
        int rc_ = (x);                                                    \
        if (rc_ != ODC_SUCCESS)                                           \
            throw H::ApiError{std::string(#x) + ": " + odc_error_string(rc_)}; \
    } while (0)

//----------------------------------------------------------------------------------------------------------------------
// encoding

enum Layout { ROWMAJOR = 0, COLMAJOR = 1, SEPARATE = 2, STRIDED = 3, NLAYOUTS = 4 };

// Memory image of a table in a given layout. All blocks are exactly sized so that ASan sees stray accesses.
struct Image {
    Layout layout;
    std::unique_ptr<char[]> array;
    long width = 0, height = 0;
    std::vector<std::unique_ptr<char[]>> cols;
    std::vector<int> stride;
};

inline long rowWidth(const std::vector<Col>& cols) {
    long w = 0;
    for (auto& c : cols)
        w += 8 * c.w;
    return w;
}

inline Image image(const Tab& t, Layout l, int slackRows = 0) {
    Image im;
    im.layout = l;
    im.height = t.rows.size() + slackRows;
    im.width  = rowWidth(t.cols);
    if (l == ROWMAJOR || l == COLMAJOR) {
        im.array.reset(new char[im.width * im.height + (im.width * im.height == 0)]);
        memset(im.array.get(), 0x5a, im.width * im.height);
    }
    long off = 0;
    for (size_t c = 0; c < t.cols.size(); c++) {
        int w = t.cols[c].w;
        if (l == SEPARATE || l == STRIDED) {
            int stride = 8 * w + (l == STRIDED ? 8 : 0);
            size_t n   = t.rows.size() ? stride * (t.rows.size() - 1) + 8 * w : 1;
            im.cols.emplace_back(new char[n]);
            memset(im.cols.back().get(), 0x5a, n);
            im.stride.push_back(stride);
            for (size_t r = 0; r < t.rows.size(); r++)
                memcpy(im.cols.back().get() + stride * r, t.rows[r][c].data(), 8 * w);
        }
        else if (l == ROWMAJOR) {
            for (size_t r = 0; r < t.rows.size(); r++)
                memcpy(im.array.get() + im.width * r + off, t.rows[r][c].data(), 8 * w);
        }
        else {
            for (size_t r = 0; r < t.rows.size(); r++)
                for (int k = 0; k < w; k++)
                    memcpy(im.array.get() + (off / 8 + k) * 8 * im.height + 8 * r, t.rows[r][c].data() + 8 * k, 8);
        }
        off += 8 * w;
    }
    return im;
}

struct Encoder {
    odc_encoder_t* e = nullptr;
    Encoder() { CAPI(odc_new_encoder(&e)); }
    ~Encoder() { odc_free_encoder(e); }
    Encoder(const Encoder&) = delete;
};

inline void configureColumns(odc_encoder_t* e, const Tab& t) {
    for (size_t c = 0; c < t.cols.size(); c++) {
        auto& col = t.cols[c];
        CAPI(odc_encoder_add_column(e, col.name.c_str(), col.type));
        for (auto& b : col.bits)
            CAPI(odc_encoder_column_add_bitfield(e, c, b.first.c_str(), b.second));
        if (col.w != 1)
            CAPI(odc_encoder_column_set_data_size(e, c, 8 * col.w));
    }
}

inline void configureData(odc_encoder_t* e, const Tab& t, const Image& im) {
    if (im.layout == ROWMAJOR)
        CAPI(odc_encoder_set_data_array(e, im.array.get(), im.width, im.height, 0));
    else if (im.layout == COLMAJOR)
        CAPI(odc_encoder_set_data_array(e, im.array.get(), im.width, im.height, 8));
    else
        for (size_t c = 0; c < t.cols.size(); c++)
            CAPI(odc_encoder_column_set_data_array(e, c, 8 * t.cols[c].w, im.layout == STRIDED ? im.stride[c] : 0,
                                                   im.cols[c].get()));
}

inline std::string encodeBuf(odc_encoder_t* e, size_t cap) {
    std::unique_ptr<char[]> buf(new char[cap]);
    long n = -1;
    CAPI(odc_encode_to_buffer(e, buf.get(), cap, &n));
    return std::string(buf.get(), n);
}

inline size_t capFor(const Tab& t) {
    size_t s = 4096 + t.rows.size() * (rowWidth(t.cols) + 2 + 8 * t.cols.size()) * 2 + t.rows.size() * 1024;
    for (auto& p : t.props)
        s += p.first.size() + p.second.size();
    for (auto& c : t.cols)
        s += c.name.size() + 300 + 40 * c.bits.size() + t.rows.size() * (c.w * 8 + 16);
    return s * 2;
}

// throws ApiError
inline std::string encodeC(const Tab& t, Layout l = ROWMAJOR, long rowsPerFrame = 0) {
    Image im = image(t, l);
    Encoder e;
    configureColumns(e.e, t);
    for (auto& p : t.props)
        CAPI(odc_encoder_add_property(e.e, p.first.c_str(), p.second.c_str()));
    configureData(e.e, t, im);
    CAPI(odc_encoder_set_row_count(e.e, t.rows.size()));
    if (rowsPerFrame)
        CAPI(odc_encoder_set_rows_per_frame(e.e, rowsPerFrame));
    return encodeBuf(e.e, capFor(t) + (rowsPerFrame ? (t.rows.size() / rowsPerFrame + 1) * 2048 : 0));
}

inline std::vector<odc::api::ColumnInfo> columnInfo(const Tab& t) {
    std::vector<odc::api::ColumnInfo> ci;
    for (auto& c : t.cols) {
        odc::api::ColumnInfo i;
        i.name        = c.name;
        i.type        = odc::api::ColumnType(c.type);
        i.decodedSize = 8 * c.w;
        int off       = 0;
        for (auto& b : c.bits) {
            odc::api::ColumnInfo::Bit bit;
            bit.name   = b.first;
            bit.size   = b.second;
            bit.offset = off;
            off += b.second;
            i.bitfield.push_back(bit);
        }
        ci.push_back(i);
    }
    return ci;
}

inline std::vector<odc::api::ConstStridedData> strided(const Tab& t, const Image& im) {
    std::vector<odc::api::ConstStridedData> d;
    long off = 0;
    for (size_t c = 0; c < t.cols.size(); c++) {
        if (im.layout == ROWMAJOR)
            d.emplace_back(im.array.get() + off, t.rows.size(), size_t(8 * t.cols[c].w), size_t(im.width));
        else
            d.emplace_back(im.cols[c].get(), t.rows.size(), size_t(8 * t.cols[c].w), size_t(im.stride[c]));
        off += 8 * t.cols[c].w;
    }
    return d;
}

inline std::string handleData(eckit::MemoryHandle& mh) {
    return std::string((const char*)mh.data(), size_t(mh.size()));
}

// C++ API
inline std::string encodeCpp(const Tab& t, Layout l = ROWMAJOR, long rowsPerFrame = 10000) {
    Image im = image(t, l);
    eckit::MemoryHandle out(size_t(1024), true);
    out.openForWrite(0);
    odc::api::encode(out, columnInfo(t), strided(t, im), t.props, rowsPerFrame);
    std::string s((const char*)out.data(), size_t(out.position()));
    out.close();
    return s;
}

//----------------------------------------------------------------------------------------------------------------------
// decoding

struct FCol {
    std::string name;
    int type;
    int size;  // bytes
    std::vector<std::pair<std::string, int>> bits;
    std::vector<int> offsets;
};

struct Frame {
    std::vector<FCol> cols;
    std::vector<Row> rows;
    Props props;
    long offset = -1, length = -1;
};

struct CReader {
    odc_reader_t* r = nullptr;
    ~CReader() {
        if (r)
            odc_close(r);
    }
    CReader() {}
    CReader(const CReader&) = delete;
};
struct CFrame {
    odc_frame_t* f = nullptr;
    ~CFrame() {
        if (f)
            odc_free_frame(f);
    }
    CFrame() {}
    CFrame(const CFrame&) = delete;
};
struct CDecoder {
    odc_decoder_t* d = nullptr;
    CDecoder() { CAPI(odc_new_decoder(&d)); }
    ~CDecoder() { odc_free_decoder(d); }
    CDecoder(const CDecoder&) = delete;
};

// structure of the current frame
inline void describeC(odc_frame_t* f, Frame& out, long& nrows) {
    int ncols;
    CAPI(odc_frame_row_count(f, &nrows));
    CAPI(odc_frame_column_count(f, &ncols));
    for (int c = 0; c < ncols; c++) {
        FCol fc;
        const char* nm;
        int nb;
        CAPI(odc_frame_column_attributes(f, c, &nm, &fc.type, &fc.size, &nb));
        fc.name = nm;
        for (int b = 0; b < nb; b++) {
            const char* bn;
            int off, sz;
            CAPI(odc_frame_bitfield_attributes(f, c, b, &bn, &off, &sz));
            fc.bits.emplace_back(bn, sz);
            fc.offsets.push_back(off);
        }
        out.cols.push_back(fc);
    }
    int np;
    CAPI(odc_frame_properties_count(f, &np));
    for (int i = 0; i < np; i++) {
        const char *k, *v;
        CAPI(odc_frame_property_idx(f, i, &k, &v));
        out.props[k] = v;
    }
}

// all columns of the current frame, library allocated row-major data
inline Frame decodeFrameC(odc_frame_t* f, int nthreads = 1) {
    Frame out;
    long nrows;
    describeC(f, out, nrows);
    CDecoder d;
    CAPI(odc_decoder_defaults_from_frame(d.d, f));
    long got = -1;
    CAPI(odc_decode_threaded(d.d, f, &got, nthreads));
    if (got != nrows)
        throw ApiError{mc::fmt("rows_decoded %ld, expected %ld", got, nrows)};
    out.rows.assign(nrows, Row(out.cols.size()));
    for (size_t c = 0; c < out.cols.size(); c++) {
        int es, st;
        const void* p;
        CAPI(odc_decoder_column_data_array(d.d, c, &es, &st, &p));
        for (long r = 0; r < nrows; r++)
            out.rows[r][c] = Raw((const char*)p + st * r, es);
    }
    return out;
}

struct ReadOpt {
    bool aggregated = false;
    long maxRows    = -1;
    int nthreads    = 1;
};

inline std::vector<Frame> readAllC(const std::string& bytes, ReadOpt o = ReadOpt()) {
    CReader r;
    CAPI(odc_open_buffer(&r.r, bytes.data(), bytes.size()));
    CFrame f;
    CAPI(odc_new_frame(&f.f, r.r));
    std::vector<Frame> v;
    while (true) {
        int rc = o.aggregated ? odc_next_frame_aggregated(f.f, o.maxRows) : odc_next_frame(f.f);
        if (rc == ODC_ITERATION_COMPLETE)
            break;
        if (rc != ODC_SUCCESS)
            throw ApiError{std::string("odc_next_frame: ") + odc_error_string(rc)};
        v.push_back(decodeFrameC(f.f, o.nthreads));
    }
    return v;
}

// A table's frame as C++ API sees it
inline Frame decodeFrameCpp(odc::api::Frame& f, int nthreads = 1) {
    Frame out;
    size_t nrows = f.rowCount();
    std::vector<std::string> names;
    std::vector<odc::api::StridedData> sd;
    std::vector<std::unique_ptr<char[]>> bufs;
    for (auto& ci : f.columnInfo()) {
        FCol fc;
        fc.name = ci.name;
        fc.type = int(ci.type);
        fc.size = ci.decodedSize;
        for (auto& b : ci.bitfield) {
            fc.bits.emplace_back(b.name, b.size);
            fc.offsets.push_back(b.offset);
        }
        out.cols.push_back(fc);
        names.push_back(ci.name);
        bufs.emplace_back(new char[ci.decodedSize * nrows + 1]);
        memset(bufs.back().get(), 0xee, ci.decodedSize * nrows);
        sd.emplace_back(bufs.back().get(), nrows, size_t(ci.decodedSize), size_t(ci.decodedSize));
    }
    odc::api::Decoder d(names, sd);
    d.decode(f, nthreads);
    out.rows.assign(nrows, Row(out.cols.size()));
    for (size_t c = 0; c < out.cols.size(); c++)
        for (size_t r = 0; r < nrows; r++)
            out.rows[r][c] = Raw(bufs[c].get() + out.cols[c].size * r, out.cols[c].size);
    out.props  = f.properties();
    out.offset = long(f.offset());
    out.length = long(f.length());
    return out;
}

inline std::vector<Frame> readAllCpp(eckit::DataHandle& dh, ReadOpt o = ReadOpt()) {
    odc::api::Reader r(dh, o.aggregated, o.maxRows);
    std::vector<Frame> v;
    while (true) {
        odc::api::Frame f = r.next();
        if (!f)
            break;
        v.push_back(decodeFrameCpp(f, o.nthreads));
    }
    return v;
}
inline std::vector<Frame> readAllCpp(const std::string& bytes, ReadOpt o = ReadOpt()) {
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    mh.openForRead();
    auto v = readAllCpp(mh, o);
    mh.close();
    return v;
}

//----------------------------------------------------------------------------------------------------------------------
// expectations

// missing value in the model
inline bool isMissing(const Raw& r, int type, bool asDoubles = false) {
    if (type == INTEGER || type == BITFIELD)
        return asDoubles ? asD(r) == double(IMDI) : asI(r) == IMDI;
    if (type == REAL || type == DOUBLE)
        return asD(r) == RMDI;
    return false;
}

// same value?  stored: what was encoded; got: decoded cell (its own width)
inline bool sameCell(const Raw& stored, const Raw& got, int type, bool asDoubles = false) {
    if (type == STRING) {
        // padding bytes must be NUL
        std::string a = asS(stored);
        if (got.size() < a.size())
            return false;
        Raw e = a;
        e.resize(got.size(), '\0');
        return e == got;
    }
    if (got.size() != 8)
        return false;
    if ((type == INTEGER || type == BITFIELD) && !asDoubles)
        return asI(stored) == asI(got);
    double a = asD(stored), b = asD(got);
    if (type == REAL && a != RMDI && b != RMDI) {  // 32 bit precision is what REAL promises
        a = double(float(a));
        b = double(float(b));
    }
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    return a == b;
}

// Does a list of frames, taken together, hold exactly the table's rows (same columns in the same order)?
inline bool matches(const Tab& t, const std::vector<Frame>& fs, std::string& why, bool asDoubles = false) {
    size_t r = 0;
    for (size_t k = 0; k < fs.size(); k++) {
        auto& f = fs[k];
        if (f.cols.size() != t.cols.size()) {
            why = mc::fmt("frame %zu has %zu columns, expected %zu", k, f.cols.size(), t.cols.size());
            return false;
        }
        for (size_t c = 0; c < t.cols.size(); c++) {
            if (f.cols[c].name != t.cols[c].name || f.cols[c].type != t.cols[c].type) {
                why = mc::fmt("frame %zu column %zu is %s:%s, expected %s:%s", k, c, f.cols[c].name.c_str(),
                              tname(f.cols[c].type), t.cols[c].name.c_str(), tname(t.cols[c].type));
                return false;
            }
            if (f.cols[c].bits != t.cols[c].bits) {
                why = mc::fmt("frame %zu column %zu: bitfield definition differs", k, c);
                return false;
            }
        }
        for (auto& row : f.rows) {
            if (r >= t.rows.size()) {
                why = mc::fmt("more rows than encoded (%zu)", t.rows.size());
                return false;
            }
            for (size_t c = 0; c < t.cols.size(); c++)
                if (!sameCell(t.rows[r][c], row[c], t.cols[c].type, asDoubles)) {
                    why = mc::fmt("row %zu column %zu (%s %s): encoded %s, decoded %s", r, c, t.cols[c].name.c_str(),
                                  tname(t.cols[c].type), show(t.rows[r][c], t.cols[c].type, asDoubles).c_str(),
                                  show(row[c], t.cols[c].type, asDoubles).c_str());
                    return false;
                }
            r++;
        }
    }
    if (r != t.rows.size()) {
        why = mc::fmt("%zu rows decoded, expected %zu", r, t.rows.size());
        return false;
    }
    return true;
}

// call f, returning the text of whatever it throws ("" if nothing)
template <typename F>
inline std::string thrown(F f) {
    try {
        f();
    }
    catch (mc::Violation&) {
        throw;
    }
    catch (mc::SkipPath&) {
        throw;
    }
    catch (ApiError& e) {
        return e.msg.empty() ? "error" : e.msg;
    }
    catch (std::exception& e) {
        return std::string("exception: ") + e.what();
    }
    return "";
}

}  // namespace H
