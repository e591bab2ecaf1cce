// Independent implementation of the ODB-2 format, written from the format description: a writer able to use any codec,
// marker policy, minor version and byte order, and a reader.  Shares nothing with odc.
#pragma once
#include <stdint.h>
#include <functional>
#include "h.h"

namespace Ref {

//----------------------------------------------------------------------------------------------------------------------
// MD5 (RFC 1321)

inline std::string md5(const std::string& in) {
    static const uint32_t K[64] = {
        0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1,
        0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453,
        0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942,
        0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05,
        0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d,
        0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
    static const int S[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9,  14, 20, 5, 9,  14, 20, 5, 9,  14, 20, 5, 9,  14, 20,
                              4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
    std::string m = in;
    uint64_t bits = uint64_t(in.size()) * 8;
    m += char(0x80);
    while (m.size() % 64 != 56)
        m += '\0';
    for (int i = 0; i < 8; i++)
        m += char(bits >> (8 * i));
    uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16];
        memcpy(w, m.data() + o, 64);
        uint32_t a = a0, b = b0, c = c0, d = d0;
        for (int i = 0; i < 64; i++) {
            uint32_t f;
            int g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; }
            else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
            else { f = c ^ (b | ~d); g = (7 * i) % 16; }
            f = f + a + K[i] + w[g];
            a = d; d = c; c = b;
            b = b + ((f << S[i]) | (f >> (32 - S[i])));
        }
        a0 += a; b0 += b; c0 += c; d0 += d;
    }
    uint32_t r[4] = {a0, b0, c0, d0};
    std::string out;
    for (int i = 0; i < 16; i++)
        out += mc::fmt("%02x", ((unsigned char*)r)[i]);
    return out;
}

//----------------------------------------------------------------------------------------------------------------------
// writer

struct W {
    bool swap = false;
    std::string s;
    std::vector<std::pair<std::string, std::pair<size_t, size_t>>> fields;  // label, offset, size
    template <typename T>
    void num(T v, const char* label = "") {
        char b[sizeof(T)];
        memcpy(b, &v, sizeof(T));
        if (swap)
            std::reverse(b, b + sizeof(T));
        fields.push_back({label, {s.size(), sizeof(T)}});
        s.append(b, sizeof(T));
    }
    void str(const std::string& v, const char* label = "") {
        num<int32_t>(v.size(), (std::string(label) + ".len").c_str());
        s += v;
    }
};

struct Column {
    H::Col col;          // name, type, bits
    std::string codec;
    // statistics; by default derived from the data
    bool statsSet = false;
    int32_t hasMissing = 0;
    double mn = 0, mx = 0, missing = 0;
    std::vector<std::string> dict;      // *_string codecs
    std::vector<int32_t> dictIndex;     // index of each dictionary entry (default 0..n-1)
    int words = 1;                      // width of a "chars" value is not stored: always 1 for files read by the library
};

struct Frame {
    std::vector<Column> cols;
    std::vector<H::Row> rows;
    H::Props props;
    int32_t minor = 5;
    int policy    = 0;  // row markers: 0 minimal rows, 1 everything in every row, 2 half way
    bool swap     = false;
    // hooks for hostile headers
    int64_t nrows = -1, dataSize = -1;
};

inline bool isIntCodec(const std::string& c) {
    return c == "int8" || c == "int16" || c == "int32" || c == "int8_missing" || c == "int16_missing" || c == "constant_or_missing";
}

// value of a numeric cell as a double
inline double number(const H::Raw& r, int type) {
    return type == H::INTEGER || type == H::BITFIELD ? double(H::asI(r)) : H::asD(r);
}

// Fill in the statistics the codec needs from the data.  Returns false if the codec cannot represent the data.
inline bool prepare(Column& c, const std::vector<H::Row>& rows, size_t k) {
    using namespace H;
    int t    = c.col.type;
    bool num = t != STRING;
    double missing = t == INTEGER || t == BITFIELD ? double(IMDI) : RMDI;
    if (t == STRING)
        missing = c.codec == "int8_string" || c.codec == "int16_string" ? double(IMDI) : RMDI;
    c.missing = missing;
    c.mn = c.mx = missing;
    c.hasMissing = 0;
    bool any = false;
    if (num)
        for (auto& r : rows) {
            double v = number(r[k], t);
            if (v == missing) {
                c.hasMissing = 1;
                continue;
            }
            if (!any || v < c.mn) c.mn = v;
            if (!any || v > c.mx) c.mx = v;
            any = true;
        }
    const std::string& n = c.codec;
    if (!num) {
        size_t longest = 0;
        std::set<std::string> distinct;
        for (auto& r : rows) {
            longest = std::max(longest, asS(r[k]).size());
            distinct.insert(asS(r[k]));
        }
        if (n == "chars")
            return longest <= 8;
        if (n == "constant_string") {
            if (longest > 8 || distinct.size() > 1)
                return false;
            Raw r = rS(distinct.empty() ? "" : *distinct.begin());
            c.mn = c.mx = asD(r);
            return true;
        }
        if (n == "long_constant_string") {
            if (distinct.size() > 1)
                return false;
            c.dict.assign(1, distinct.empty() ? "" : *distinct.begin());
            return true;
        }
        if (n == "int8_string" || n == "int16_string") {
            if (distinct.size() > (n == "int8_string" ? 256u : 65536u))
                return false;
            if (c.dict.empty())
                c.dict.assign(distinct.begin(), distinct.end());
            return true;
        }
        return false;
    }
    bool integral = t == INTEGER || t == BITFIELD;
    if (n == "constant")
        return (any && c.mn == c.mx && !c.hasMissing) || !any;
    if (n == "constant_or_missing")
        return integral && (!any || c.mx - c.mn < 255);
    if (n == "real_constant_or_missing")
        return !integral && (!any || c.mn == c.mx);
    if (n == "int8")
        return integral && ((any && !c.hasMissing && c.mx - c.mn <= 255) || !any);
    if (n == "int16")
        return integral && ((any && !c.hasMissing && c.mx - c.mn <= 65535) || !any);
    if (n == "int8_missing")
        return integral && (!any || c.mx - c.mn < 255);
    if (n == "int16_missing")
        return integral && (!any || c.mx - c.mn < 65535);
    if (n == "int32")
        return integral;
    if (n == "long_real")
        return !integral;
    if (n == "short_real" || n == "short_real2") {
        for (auto& r : rows) {
            float f = float(asD(r[k]));
            uint32_t u;
            memcpy(&u, &f, 4);
            if (asD(r[k]) != missing && u == (n == "short_real" ? 0x00800000u : 0xff7fffffu))
                return false;
            if (t == DOUBLE && asD(r[k]) != missing && double(f) != asD(r[k]) && !std::isnan(asD(r[k])))
                return false;
        }
        return !integral;
    }
    return false;
}

inline void cell(W& w, const Column& c, const H::Raw& raw) {
    using namespace H;
    const std::string& n = c.codec;
    if (n == "chars") {
        Raw r = raw.substr(0, 8 * c.words);
        r.resize(8 * c.words, '\0');
        w.s += r;
        return;
    }
    if (n == "constant" || n == "constant_string" || n == "long_constant_string")
        return;
    if (n == "int8_string" || n == "int16_string") {
        size_t i = std::find(c.dict.begin(), c.dict.end(), asS(raw)) - c.dict.begin();
        if (!c.dictIndex.empty())
            i = c.dictIndex[i];
        if (n == "int8_string")
            w.num<uint8_t>(i, "v");
        else
            w.num<uint16_t>(i, "v");
        return;
    }
    double v = number(raw, c.col.type);
    bool m   = v == c.missing;
    if (n == "int8")
        w.num<uint8_t>(m ? 0 : uint8_t(v - c.mn), "v");
    else if (n == "int16")
        w.num<uint16_t>(m ? 0 : uint16_t(v - c.mn), "v");
    else if (n == "int32")
        w.num<int32_t>(int32_t(v), "v");
    else if (n == "int8_missing" || n == "constant_or_missing" || n == "real_constant_or_missing")
        w.num<uint8_t>(m ? 0xff : uint8_t(v - c.mn), "v");
    else if (n == "int16_missing")
        w.num<uint16_t>(m ? 0xffff : uint16_t(v - c.mn), "v");
    else if (n == "long_real")
        w.num<double>(v, "v");
    else if (n == "short_real" || n == "short_real2") {
        float f    = float(v);
        uint32_t u = n == "short_real" ? 0x00800000u : 0xff7fffffu;
        if (m)
            memcpy(&f, &u, 4);
        w.num<float>(f, "v");
    }
    else
        abort();
}

// variable part of the header
inline void description(W& w, const Frame& f, int64_t dataSize) {
    w.num<int64_t>(f.dataSize >= 0 ? f.dataSize : dataSize, "dataSize");
    w.num<int64_t>(0, "prev");
    w.num<int64_t>(f.nrows >= 0 ? f.nrows : int64_t(f.rows.size()), "nrows");
    w.num<int32_t>(0, "flags.count");
    w.num<int32_t>(f.props.size(), "props.count");
    for (auto& p : f.props) {
        w.str(p.first, "prop.key");
        w.str(p.second, "prop.value");
    }
    w.num<int32_t>(f.cols.size(), "ncols");
    for (auto& c : f.cols) {
        w.str(c.col.name, "col.name");
        w.num<int32_t>(c.col.type, "col.type");
        if (c.col.type == H::BITFIELD) {
            w.num<int32_t>(c.col.bits.size(), "bits.names.count");
            for (auto& b : c.col.bits)
                w.str(b.first, "bit.name");
            w.num<int32_t>(c.col.bits.size(), "bits.sizes.count");
            for (auto& b : c.col.bits)
                w.num<int32_t>(b.second, "bit.size");
        }
        w.str(c.codec, "codec.name");
        w.num<int32_t>(c.hasMissing, "hasMissing");
        if (c.codec == "constant_string") {  // eight characters, in order
            w.s.append((const char*)&c.mn, 8);
            w.s.append((const char*)&c.mx, 8);
        }
        else {
            w.num<double>(c.mn, "min");
            w.num<double>(c.mx, "max");
        }
        w.num<double>(c.missing, "missing");
        if (c.codec == "chars")
            w.num<int32_t>(0, "chars.count");
        if (c.codec == "long_constant_string")
            w.str(c.dict[0], "constant");
        if (c.codec == "int8_string" || c.codec == "int16_string") {
            w.num<int32_t>(c.dict.size(), "dict.count");
            for (size_t i = 0; i < c.dict.size(); i++) {
                w.str(c.dict[i], "dict.str");
                w.num<int32_t>(0, "dict.cnt");
                w.num<int32_t>(c.dictIndex.empty() ? int32_t(i) : c.dictIndex[i], "dict.index");
            }
        }
    }
}

inline std::string assemble(const std::string& desc, const std::string& data, bool swap, int32_t minor) {
    W h;
    h.swap = swap;
    h.s    = std::string("\xff\xff" "ODA");
    h.num<int32_t>(1);
    h.num<int32_t>(0);
    h.num<int32_t>(minor);
    h.str(md5(desc));
    h.num<int32_t>(desc.size());
    return h.s + desc + data;
}

inline std::string rowData(const Frame& f) {
    W d;
    d.swap = f.swap;
    for (size_t r = 0; r < f.rows.size(); r++) {
        size_t start = 0;
        if (r == 0 && f.policy == 3)  // as old writers did: missing values at the start of the first row are left out
            while (start < f.cols.size() && H::isMissing(f.rows[r][start], f.cols[start].col.type))
                start++;
        if (r > 0 && f.policy != 1) {
            while (start < f.cols.size() && f.rows[r][start] == f.rows[r - 1][start])
                start++;
            if (f.policy == 2)
                start /= 2;
        }
        d.s += char((start >> 8) & 0xff);
        d.s += char(start & 0xff);
        for (size_t c = start; c < f.cols.size(); c++)
            cell(d, f.cols[c], f.rows[r][c]);
    }
    return d.s;
}

inline std::string encode(const Frame& f) {
    std::string data = rowData(f);
    W w;
    w.swap = f.swap;
    description(w, f, data.size());
    return assemble(w.s, data, f.swap, f.minor);
}

//----------------------------------------------------------------------------------------------------------------------
// reader (of valid streams; throws std::runtime_error with a reason otherwise)

struct Bad : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct In {
    const std::string& s;
    size_t pos, end;
    bool swap;
    In(const std::string& str, size_t b, size_t e, bool sw) : s(str), pos(b), end(e), swap(sw) {}
    std::string raw(size_t n) {
        if (n > end - pos)
            throw Bad("unexpected end");
        pos += n;
        return s.substr(pos - n, n);
    }
    template <typename T>
    T num() {
        std::string b = raw(sizeof(T));
        if (swap)
            std::reverse(b.begin(), b.end());
        T v;
        memcpy(&v, b.data(), sizeof(T));
        return v;
    }
    std::string str() {
        int32_t n = num<int32_t>();
        if (n < 0)
            throw Bad("negative length");
        return raw(n);
    }
};

struct Parsed {
    Frame f;                      // columns with their statistics and dictionaries; properties
    std::vector<H::Row> rows;     // decoded, integers as longs
    size_t offset, length, headerLength;
    std::vector<int> markers;
};

inline std::vector<Parsed> parse(const std::string& s) {
    using namespace H;
    std::vector<Parsed> out;
    size_t pos = 0;
    while (pos < s.size()) {
        Parsed p;
        p.offset = pos;
        In h(s, pos, s.size(), false);
        if (h.raw(5) != "\xff\xff" "ODA")
            throw Bad("magic");
        int32_t bo = h.num<int32_t>();
        h.swap     = bo != 1;
        if (h.swap && bo != 0x01000000)
            throw Bad("byte order");
        p.f.swap = h.swap;
        if (h.num<int32_t>() != 0)
            throw Bad("major version");
        p.f.minor = h.num<int32_t>();
        if (p.f.minor != 5 && p.f.minor != 4)
            throw Bad("minor version");
        std::string digest = h.str();
        int32_t hs         = h.num<int32_t>();
        size_t start       = h.pos;
        std::string desc   = h.raw(hs);
        if (md5(desc) != digest)
            throw Bad("digest");
        p.headerLength = h.pos - pos;
        In d(s, start, start + hs, h.swap);
        int64_t dataSize = d.num<int64_t>();
        if (d.num<int64_t>() != 0)
            throw Bad("previous frame offset");
        int64_t nrows = d.num<int64_t>();
        if (d.num<int32_t>() != 0)
            throw Bad("flags");
        int32_t np = d.num<int32_t>();
        for (int i = 0; i < np; i++) {
            std::string k = d.str();
            p.f.props[k]  = d.str();
        }
        int32_t nc = d.num<int32_t>();
        for (int i = 0; i < nc; i++) {
            Column c;
            c.col.name = d.str();
            c.col.type = d.num<int32_t>();
            if (c.col.type == BITFIELD) {
                std::vector<std::string> names;
                int n = d.num<int32_t>();
                for (int b = 0; b < n; b++)
                    names.push_back(d.str());
                if (d.num<int32_t>() != n)
                    throw Bad("bitfield names and sizes differ");
                for (int b = 0; b < n; b++)
                    c.col.bits.emplace_back(names[b], d.num<int32_t>());
            }
            c.codec      = d.str();
            c.hasMissing = d.num<int32_t>();
            if (c.codec == "constant_string") {
                std::string a = d.raw(8), b = d.raw(8);
                memcpy(&c.mn, a.data(), 8);
                memcpy(&c.mx, b.data(), 8);
            }
            else {
                c.mn = d.num<double>();
                c.mx = d.num<double>();
            }
            c.missing = d.num<double>();
            if (c.codec == "chars" && d.num<int32_t>() != 0)
                throw Bad("chars with a string table");
            if (c.codec == "long_constant_string")
                c.dict.push_back(d.str());
            if (c.codec == "int8_string" || c.codec == "int16_string") {
                int n = d.num<int32_t>();
                std::map<int, std::string> m;
                for (int k = 0; k < n; k++) {
                    std::string v = d.str();
                    d.num<int32_t>();
                    m[d.num<int32_t>()] = v;
                }
                for (int k = 0; k < n; k++)
                    if (!m.count(k))
                        throw Bad("string table has holes");
                    else
                        c.dict.push_back(m[k]);
            }
            size_t longest = 1;
            for (auto& x : c.dict)
                longest = std::max(longest, x.size());
            c.col.w = (longest + 7) / 8;
            p.f.cols.push_back(c);
        }
        if (d.pos != d.end)
            throw Bad("bytes left in the header");
        In r(s, h.pos, h.pos + dataSize, h.swap);
        if (size_t(dataSize) > s.size() - h.pos)
            throw Bad("data beyond the end");
        Row last;
        for (auto& c : p.f.cols)
            last.push_back(c.col.type == STRING ? Raw(8 * c.col.w, '\0') : c.col.type == INTEGER || c.col.type == BITFIELD ? rI(long(c.missing)) : rD(c.missing));
        for (int64_t k = 0; k < nrows; k++) {
            std::string m = r.raw(2);
            int sc        = (unsigned char)m[0] * 256 + (unsigned char)m[1];
            if (sc > nc || (k == 0 && sc != 0))
                throw Bad(mc::fmt("row marker %d", sc));
            p.markers.push_back(sc);
            for (int c = sc; c < nc; c++) {
                Column& col          = p.f.cols[c];
                const std::string& n = col.codec;
                bool integral        = col.col.type == INTEGER || col.col.type == BITFIELD;
                auto setNum          = [&](double v) { last[c] = integral ? rI(long(v)) : rD(v); };
                if (n == "chars")
                    last[c] = r.raw(8);
                else if (n == "constant_string")
                    last[c] = Raw((const char*)&col.mn, 8);
                else if (n == "long_constant_string")
                    last[c] = rS(col.dict[0], col.col.w);
                else if (n == "int8_string" || n == "int16_string") {
                    size_t i = n == "int8_string" ? r.num<uint8_t>() : r.num<uint16_t>();
                    if (i >= col.dict.size())
                        throw Bad("string index");
                    last[c] = rS(col.dict[i], col.col.w);
                }
                else if (n == "constant")
                    setNum(col.mn);
                else if (n == "int8")
                    setNum(r.num<uint8_t>() + col.mn);
                else if (n == "int16")
                    setNum(r.num<uint16_t>() + col.mn);
                else if (n == "int32")
                    setNum(r.num<int32_t>());
                else if (n == "int8_missing" || n == "constant_or_missing" || n == "real_constant_or_missing") {
                    uint8_t v = r.num<uint8_t>();
                    setNum(v == 0xff ? col.missing : v + col.mn);
                }
                else if (n == "int16_missing") {
                    uint16_t v = r.num<uint16_t>();
                    setNum(v == 0xffff ? col.missing : v + col.mn);
                }
                else if (n == "long_real")
                    setNum(r.num<double>());
                else if (n == "short_real" || n == "short_real2") {
                    float v = r.num<float>();
                    uint32_t u;
                    memcpy(&u, &v, 4);
                    setNum(u == (n == "short_real" ? 0x00800000u : 0xff7fffffu) ? col.missing : double(v));
                }
                else
                    throw Bad("codec " + n);
            }
            p.rows.push_back(last);
        }
        if (r.pos != r.end)
            throw Bad(mc::fmt("%zu bytes left after the rows", r.end - r.pos));
        p.length = r.end - p.offset;
        pos      = r.end;
        out.push_back(p);
    }
    return out;
}

}  // namespace Ref
