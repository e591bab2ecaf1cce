// Tables as lists of rows of text, to compare data regardless of how it is split into frames.
#pragma once
#include "sources.h"

namespace H {

struct AsDoubles {
    AsDoubles() { odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES); }
    ~AsDoubles() { odc_integer_behaviour(ODC_INTEGERS_AS_LONGS); }
};

// A row as text: names, types and values of its columns, regardless of the widths of strings
using Flat = std::vector<std::string>;

inline std::string flatCell(const std::string& name, int type, Raw v) {
    if (type == STRING)
        v = v.substr(0, v.find_last_not_of('\0') + 1);
    return name + mc::fmt("/%d=", type) + v + ";";
}
inline void flatten(Flat& out, const Tab& t) {
    for (auto& r : t.rows) {
        std::string s;
        for (size_t c = 0; c < t.cols.size(); c++)
            s += flatCell(t.cols[c].name, t.cols[c].type, r[c]);
        out.push_back(s);
    }
}
inline Flat flatten(const std::vector<Frame>& fs) {
    Flat out;
    for (auto& f : fs)
        for (auto& r : f.rows) {
            std::string s;
            for (size_t c = 0; c < f.cols.size(); c++)
                s += flatCell(f.cols[c].name, f.cols[c].type, r[c]);
            out.push_back(s);
        }
    return out;
}

inline std::string printable(const std::string& s) {
    std::string r;
    for (unsigned char c : s)
        r += c >= 32 && c < 127 ? std::string(1, c) : mc::fmt("\\x%02x", c);
    return r;
}

// the first difference of two lists of rows
inline std::string difference(const Flat& got, const Flat& want) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
        if (i >= got.size())
            return mc::fmt("%zu rows instead of %zu", got.size(), want.size());
        else if (i >= want.size())
            return mc::fmt("%zu rows instead of %zu", got.size(), want.size());
        else if (got[i] != want[i])
            return mc::fmt("row %zu is ", i) + printable(got[i]) + " instead of " + printable(want[i]);
    return "";
}

}  // namespace H
