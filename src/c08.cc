// C08: a truncated stream is reported, never read as if complete.
#include "odc/api/Odb.h"
#include "pool.h"
#include "sources.h"
using namespace H;

namespace {

struct Item {
    std::string name, bytes;
    Frame full;  // read back from the complete stream, validated against the model
    bool empty;
};

const std::vector<Item>& items() {
    static std::vector<Item> v;
    if (v.empty())
        for (auto& p : tablePool()) {
            Item i;
            i.name  = p.name;
            i.empty = p.t.rows.empty();
            i.bytes = encodeCpp(p.t);
            auto fs = readAllC(i.bytes);
            std::string why;
            Tab t  = p.t;
            if (fs.size() != 1 || !matches(t, fs, why)) {
                fprintf(stderr, "pool item %s: %zu frames %s\n", p.name.c_str(), fs.size(), why.c_str());
                abort();
            }
            i.full = fs[0];
            v.push_back(i);
        }
    return v;
}

bool mergeable(const Frame& a, const Frame& b) {
    if (a.cols.size() != b.cols.size())
        return false;
    for (size_t i = 0; i < a.cols.size(); i++)
        if (a.cols[i].name != b.cols[i].name || a.cols[i].type != b.cols[i].type || a.cols[i].size != b.cols[i].size)
            return false;
    return true;
}

struct Expect {
    std::vector<Frame> frames;
};

std::vector<Frame> group(const std::vector<Frame>& fs, bool agg) {
    if (!agg)
        return fs;
    std::vector<Frame> g;
    for (auto& f : fs) {
        if (!g.empty() && mergeable(g.back(), f)) {
            g.back().rows.insert(g.back().rows.end(), f.rows.begin(), f.rows.end());
            for (auto& p : f.props)
                g.back().props.insert(p);
        }
        else
            g.push_back(f);
    }
    return g;
}

void verify(mc::Ctx& c, const std::vector<const Item*>& parts, const std::string& bytes, size_t cut, int src, bool agg) {
    size_t pos = 0;
    std::vector<Frame> contained;
    bool boundary = cut == 0;
    for (auto* p : parts) {
        if (pos + p->bytes.size() > cut)
            break;
        pos += p->bytes.size();
        contained.push_back(p->full);
        boundary = boundary || pos == cut;
    }
    std::string what = mc::fmt("%s%s, first %zu of %zu bytes (%zu whole frames%s)", sourceName(src), agg ? " aggregated" : "",
                               cut, bytes.size(), contained.size(), boundary ? "" : " and a part of one");
    c.at(mc::fmt("truncated-%s", sourceName(src)));
    if (!boundary)
        c.nontrivial();
    Outcome o = readSource(src, bytes.substr(0, cut), agg);
    c.note(what + " -> " + mc::fmt("%zu frames, ", o.frames.size()) + (o.error.empty() ? "end of data" : o.error));
    c.outcome(mc::fmt("%d%d%zu%zu", src, agg, contained.size(), o.frames.size()) + o.error.substr(0, 40));
    std::vector<Frame> want = group(contained, agg);
    if (isLegacy(src)) {
        std::vector<Frame> w;
        for (auto& f : want)
            if (!f.rows.empty()) {  // the row-wise reader shows no rows of an empty frame
                w.push_back(f);
                w.back().props.clear();
            }
        want = w;
    }
    // aggregation looks ahead; a stream callback cannot go back to the data and may refuse
    bool mayRefuse = src == C_STREAM && agg;
    if (boundary && !o.error.empty() && !mayRefuse) {
        c.fail(mc::fmt("boundary-error-%s", sourceName(src)), what + ": " + o.error);
    }
    if (!boundary && o.error.empty())
        c.fail(mc::fmt("not-reported-%s", sourceName(src)), what + mc::fmt(": read as %zu complete frames", o.frames.size()));
    // a truncated aggregate loses the logical frame under construction
    size_t atLeast = mayRefuse ? 0 : want.size();
    if (!boundary && agg && atLeast)
        atLeast--;
    if (o.frames.size() > want.size())
        c.fail(mc::fmt("extra-frame-%s", sourceName(src)), what + mc::fmt(": %zu frames delivered", o.frames.size()));
    if (o.frames.size() < atLeast)
        c.fail(mc::fmt("lost-frame-%s", sourceName(src)), what + mc::fmt(": only %zu of %zu frames delivered, then ", o.frames.size(), want.size()) + o.error);
    for (size_t i = 0; i < o.frames.size(); i++) {
        std::string why;
        if (!sameRows(o.frames[i], want[i], why))
            c.fail(mc::fmt("wrong-frame-%s", sourceName(src)), what + mc::fmt(": frame %zu: ", i) + why);
    }
}

void prefixes(mc::Ctx& c, int minParts, int maxParts) {
    int n = minParts + c.choose(maxParts - minParts + 1);
    std::vector<const Item*> parts;
    std::string bytes;
    // in longer streams the parts stand for: mergeable, wide, empty, properties
    static const std::vector<std::string> few = {"one row", "int8+string", "no rows", "elided", "wide string"};
    for (int i = 0; i < n; i++) {
        const Item* it = n == 1 ? &items()[c.choose(items().size())] : &items()[poolIndex(few[c.choose(c.thorough ? few.size() : (n > 2 ? 3 : 4))])];
        parts.push_back(it);
        bytes += it->bytes;
        if (i == 0)
            c.note("stream:");
        c.note("  " + it->name);
    }
    c.shard();
    // all cuts that fall in the last part, plus its two ends
    size_t last = bytes.size() - parts.back()->bytes.size();
    size_t len  = parts.back()->bytes.size();
    // the int16 dictionary is long: the middle of it is one repeated structure
    size_t cut = last + (n == 1 ? c.choose(len + 1) : 1 + c.choose(len));
    if (len > 3000 && !c.thorough && cut > 600 && cut < len - 1300 && cut % 16 != 3)
        c.skip();
    c.shard();
    int src  = c.choose(NSOURCES);
    bool agg = aggregates(src) ? c.flip() : false;
    verify(c, parts, bytes, cut, src, agg);
}

void filtering(mc::Ctx& c) {
    auto& it = items()[c.choose(items().size())];
    bool two = c.flip();
    std::string bytes = (two ? it.bytes : std::string()) + it.bytes;
    size_t last       = bytes.size() - it.bytes.size();
    c.shard();
    if (it.bytes.size() > 3000)
        c.skip();
    size_t cut = last + c.choose(it.bytes.size() + 1);
    bool boundary = cut == last || cut == bytes.size();
    int how = c.choose(2);
    c.at("filter");
    if (!boundary)
        c.nontrivial();
    static std::string path = mc::scratchDir() + "/filter.odb";
    std::string prefix = bytes.substr(0, cut);
    if (how == 1)
        writeFile(path, prefix);
    eckit::MemoryHandle out(size_t(1024), true);
    out.openForWrite(0);
    size_t n = 0;
    std::string sql = "select *";
    std::string err = thrown([&] {
        if (how == 0) {
            eckit::MemoryHandle in(prefix.data(), prefix.size());
            in.openForRead();
            n = odc::api::filter(sql, in, out);
        }
        else {
            eckit::FileHandle in(path);
            in.openForRead();
            n = odc::api::filter(sql, in, out);
        }
    });
    std::string what = mc::fmt("filter of the first %zu of %zu bytes (%s)", cut, bytes.size(), it.name.c_str());
    c.note(what + mc::fmt(" -> %zu rows, ", n) + err);
    c.outcome(err.substr(0, 40));
    if (!boundary && err.empty())
        c.fail("filter-not-reported", what + ": reported success");
    if (boundary && !prefix.empty() && !err.empty())
        c.fail("filter-error", what + ": " + err);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); items(); };
    std::vector<mc::Scenario> v;
    v.push_back({"single", "every prefix of 11 one-frame streams that use every codec, x 9 kinds of source and reader, x plain/aggregated; non trivial: the prefix ends inside a frame",
                 [](mc::Ctx& c) { prefixes(c, 1, 1); }});
    v.push_back({"several", "every prefix ending in the last frame of every stream of 2-3 frames from a pool (mergeable, different, empty frames), x 9 kinds of source and reader, x plain/aggregated",
                 [](mc::Ctx& c) { prefixes(c, 2, 3); }});
    v.push_back({"filter", "every prefix of 10 streams alone or after the same frame, filtered with 'select *' from memory and file",
                 filtering});
    return v;
}
