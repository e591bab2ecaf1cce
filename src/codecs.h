// Enumeration of foreign frames (written by the reference implementation) over every codec, shared by C14 and C22.
#pragma once
#include "ref.h"
#include "sources.h"

namespace H {

struct Kind {
    int type;
    const char* codec;
};
inline const std::vector<Kind>& kinds() {
    static const std::vector<Kind> k = {
        {INTEGER, "int8"}, {INTEGER, "int16"}, {INTEGER, "int32"}, {INTEGER, "int8_missing"}, {INTEGER, "int16_missing"},
        {INTEGER, "constant_or_missing"}, {INTEGER, "constant"}, {BITFIELD, "int8"}, {BITFIELD, "int32"}, {BITFIELD, "constant"},
        {REAL, "long_real"}, {REAL, "short_real"}, {REAL, "short_real2"}, {REAL, "real_constant_or_missing"}, {REAL, "constant"},
        {DOUBLE, "long_real"}, {DOUBLE, "short_real"}, {DOUBLE, "short_real2"}, {DOUBLE, "real_constant_or_missing"}, {DOUBLE, "constant"},
        {STRING, "chars"}, {STRING, "constant_string"}, {STRING, "long_constant_string"}, {STRING, "int8_string"}, {STRING, "int16_string"}};
    return k;
}

inline const std::vector<Raw>& values(int type) {
    static const std::vector<Raw> ints = {rI(-3), rI(0), rI(5), rI(252), rI(65000), rI(IMDI), rI(2147483646), rI(-2147483647 - 1)};
    static const std::vector<Raw> reals = {rD(0), rD(1.5), rD(-2.25), rD(RMDI), rD(double(1.17549435e-38f)), rD(-3.4028234663852886e38), rD(1e300)};
    static const std::vector<Raw> strings = {rS("", 3), rS("a", 3), rS("abcdefgh", 3), rS("abcdefghi", 3), rS("0123456789abcdefg", 3)};
    return type == STRING ? strings : type == INTEGER || type == BITFIELD ? ints : reals;
}

inline std::vector<std::pair<std::string, int>> bitsFor(int type, int i) {
    if (type != BITFIELD)
        return {};
    return i % 2 ? std::vector<std::pair<std::string, int>>{{"only", 31}} : std::vector<std::pair<std::string, int>>{{"a", 1}, {"bb", 5}, {"ccc", 2}};
}

// false: the codec cannot represent the values
inline bool foreign(const std::vector<Kind>& ks, const std::vector<Row>& rows, Ref::Frame& f, Tab& t) {
    for (size_t i = 0; i < ks.size(); i++) {
        Ref::Column c;
        c.col   = {mc::fmt("c%zu@t", i), ks[i].type, ks[i].type == STRING ? 3 : 1, bitsFor(ks[i].type, i)};
        c.codec = ks[i].codec;
        if (!Ref::prepare(c, rows, i))
            return false;
        f.cols.push_back(c);
        t.cols.push_back(c.col);
    }
    f.rows = t.rows = rows;
    return true;
}

// integer cells as doubles
inline Tab asDoubles(const Tab& t) {
    Tab d = t;
    for (auto& r : d.rows)
        for (size_t c = 0; c < r.size(); c++)
            if (t.cols[c].type == INTEGER || t.cols[c].type == BITFIELD)
                r[c] = rD(double(asI(r[c])));
    return d;
}

}  // namespace H
