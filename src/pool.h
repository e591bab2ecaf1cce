// A pool of small tables which between them use every codec the encoder can choose.
#pragma once
#include "h.h"

namespace H {

struct PoolItem {
    std::string name;
    Tab t;
};

inline const std::vector<PoolItem>& tablePool() {
    static std::vector<PoolItem> p;
    if (!p.empty())
        return p;
    auto add = [&](const std::string& n, std::vector<Col> cols, std::vector<Row> rows, Props props = {}) {
        Tab t;
        t.cols  = cols;
        t.rows  = rows;
        t.props = props;
        p.push_back({n, t});
    };
    add("int8+string", {{"a@t", INTEGER}, {"s@t", STRING, 1}}, {{rI(1), rS("one")}, {rI(2), rS("two")}});
    add("constants", {{"a@t", INTEGER}, {"s@t", STRING, 1}, {"r@t", REAL}}, {{rI(7), rS("c"), rD(1.5)}, {rI(7), rS("c"), rD(1.5)}});
    add("int16 int32 missing", {{"a@t", INTEGER}, {"b@t", INTEGER}, {"d@t", INTEGER}},
        {{rI(1), rI(100000), rI(IMDI)}, {rI(3000), rI(-100000), rI(4)}, {rI(IMDI), rI(5), rI(4)}});
    add("real double", {{"r@t", REAL}, {"d@t", DOUBLE}}, {{rD(0.5), rD(0.1)}, {rD(RMDI), rD(1e300)}, {rD(2.5), rD(RMDI)}}, {{"k", "v"}});
    add("wide string", {{"w@t", STRING, 3}, {"a@t", INTEGER}}, {{rS("abcdefghijklmnopqrst", 3), rI(1)}, {rS("x", 3), rI(1)}});
    add("long constant string", {{"w@t", STRING, 2}}, {{rS("abcdefghij", 2)}, {rS("abcdefghij", 2)}});
    add("bitfield", {{"f@t", BITFIELD, 1, {{"x", 1}, {"yy", 3}}}, {"z@t", DOUBLE}}, {{rI(3), rD(4)}, {rI(12), rD(4)}});
    add("one row", {{"a@t", INTEGER}}, {{rI(42)}});
    {
        std::vector<Row> rows;
        for (int i = 0; i < 6; i++)
            rows.push_back({rI(i / 2), rS(std::string(1, 'a' + i)), rI(i)});
        add("elided", {{"a@t", INTEGER}, {"s@t", STRING, 1}, {"b@t", INTEGER}}, rows, {{"p", ""}, {"q", "x y"}});
    }
    {
        std::vector<Row> rows;
        for (int i = 0; i < 300; i++)
            rows.push_back({rS(mc::fmt("s%d", i)), rI(i == 7 ? IMDI : i)});
        add("int16_string", {{"s@t", STRING, 1}, {"a@t", INTEGER}}, rows);
    }
    add("no rows", {{"a@t", INTEGER}, {"s@t", STRING, 1}}, {});
    return p;
}
inline int poolIndex(const std::string& n) {
    auto& p = tablePool();
    for (size_t i = 0; i < p.size(); i++)
        if (p[i].name == n)
            return i;
    abort();
}

}  // namespace H
