// C09: a damaged frame header is detected.
#include "pool.h"
#include "ref.h"
#include "sources.h"
#include "bounded_new.h"
using namespace H;

namespace {

struct Item {
    std::string name, bytes;
    size_t header;
    Frame full, legacy;
};

Outcome legacyMemory(const std::string& bytes) {
    eckit::MemoryHandle mh(bytes.data(), bytes.size());
    odc::Reader r(mh);
    return readLegacy(r);
}

const std::vector<Item>& items();
int indexOf(const std::string& name) {
    for (size_t i = 0; i < items().size(); i++)
        if (items()[i].name == name)
            return i;
    abort();
}

const std::vector<Item>& items() {
    static std::vector<Item> v;
    if (v.empty())
        for (auto& p : tablePool()) {
            if (p.name == "int16_string" || p.name == "no rows")
                continue;
            Item i;
            i.name   = p.name;
            i.bytes  = encodeCpp(p.t);
            auto ps  = Ref::parse(i.bytes);
            i.header = ps[0].headerLength;
            auto fs  = readAllC(i.bytes);
            std::string why;
            if (ps.size() != 1 || fs.size() != 1 || !matches(p.t, fs, why))
                abort();
            i.full   = fs[0];
            i.legacy = legacyMemory(i.bytes).frames[0];
            v.push_back(i);
            // a file of the previous version differs in its fixed part only
            if (p.name == "one row" || p.name == "elided") {
                i.name += " (version 0.4)";
                i.bytes[13] = 4;
                v.push_back(i);
            }
        }
    return v;
}

struct Where {
    const char* name;
    size_t from, to;
};

void verify(mc::Ctx& c, const Item& it, const std::string& bad, size_t pos, const std::string& what, bool before, int src) {
    static const Item& good = items()[indexOf("one row")];
    std::string stream      = (before ? good.bytes : std::string()) + bad + (before ? good.bytes : std::string());
    bool described          = pos >= 57;
    Outcome o               = src == 0 ? readSource(C_BUFFER, stream, false) : src == 1 ? readSource(CPP_MEMORY, stream, it.name.compare(0, 7, "one row") != 0) : legacyMemory(stream);
    c.note(what + mc::fmt(" -> %zu frames, ", o.frames.size()) + o.error);
    c.outcome(mc::fmt("%zu ", o.frames.size()) + o.error.substr(0, 60));
    size_t k = 0;
    std::string why;
    if (before) {
        // aggregated reading looks ahead, and may report the damage before delivering the frame in front of it
        if (o.frames.empty()) {
            if (src == 1 && !o.error.empty())
                return;
            c.fail("frame-before-lost", what + ": the frame before the damaged one is not delivered: " + o.error);
        }
        if (!sameRows(o.frames[0], src == 2 ? good.legacy : good.full, why))
            c.fail("frame-before-changed", what + ": frame before the damaged one: " + why);
        k = 1;
    }
    if (o.frames.size() > k) {
        if (described)
            c.fail("damage-not-detected", what + ": a frame was delivered");
        if (!sameRows(o.frames[k], src == 2 ? it.legacy : it.full, why))
            c.fail("damaged-frame-delivered", what + ": a frame with other contents was delivered: " + why);
    }
    else if (o.error.empty())
        c.fail("frame-silently-missing", what + ": neither a frame nor an error");
}

void singleByte(mc::Ctx& c) {
    int n    = c.choose(items().size());
    auto& it = items()[n];
    size_t pos = c.choose(it.header);
    c.shard();
    bool before = c.flip();
    int src     = c.choose(3);
    // around 255 other values; quick: those with one bit changed and the extremes in the descriptions, all in the fixed part
    int v = c.choose(256);
    unsigned char old = it.bytes[pos];
    if (v == old)
        c.skip();
    if (!c.thorough && (pos >= 57 || before || src)) {
        unsigned char x = old ^ v;
        bool one        = (x & (x - 1)) == 0;
        if (!one && v != 0 && v != 0xff)
            c.skip();
    }
    c.nontrivial();
    std::string bad = it.bytes;
    bad[pos]        = char(v);
    c.at("single-byte");
    verify(c, it, bad, pos, mc::fmt("%s: header byte %zu of %zu changed from %02x to %02x", it.name.c_str(), pos, it.header, old, v), before, src);
}

// two bytes of the fixed part
void twoBytes(mc::Ctx& c) {
    auto& it   = items()[indexOf(c.thorough && c.flip() ? "elided" : "one row")];
    // magic, byte order, versions, first characters of the digest, header size
    static const std::vector<int> where = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 52, 53, 54, 55, 56};
    int a = c.choose(where.size());
    int b = c.choose(where.size());
    if (b <= a)
        c.skip();
    c.shard();
    int src = c.choose(2) * 2;
    static const std::vector<int> vals = {0x00, 0x01, 0x04, 0x05, 0x10, 0x20, 0x30, 0x80, 0xff};
    std::string bad = it.bytes;
    for (int p : {where[a], where[b]}) {
        int v = c.pick(vals);
        if (v == (unsigned char)bad[p])
            c.skip();
        bad[p] = char(v);
    }
    c.nontrivial();
    c.at("two-bytes");
    verify(c, it, bad, 0, mc::fmt("%s: header bytes %d and %d changed to %02x and %02x", it.name.c_str(), where[a], where[b],
                                  (unsigned char)bad[where[a]], (unsigned char)bad[where[b]]), false, src);
}

// structural damage: blocks swapped, removed, inserted, duplicated
void blocks(mc::Ctx& c) {
    auto& it = items()[c.choose(items().size())];
    int kind = c.choose(4);
    size_t pos = c.choose(it.header);
    c.shard();
    size_t len = 1 + c.choose(c.thorough ? 16 : 8);
    int src    = c.choose(3);
    std::string bad = it.bytes;
    if (pos + len > it.header)
        c.skip();
    if (kind == 0)
        bad.erase(pos, len);
    else if (kind == 1)
        bad.insert(pos, std::string(len, '\0'));
    else if (kind == 2)
        bad.insert(pos, it.bytes.substr(pos, len));
    else {
        if (pos + 2 * len > it.header)
            c.skip();
        bad = it.bytes.substr(0, pos) + it.bytes.substr(pos + len, len) + it.bytes.substr(pos, len) + it.bytes.substr(pos + 2 * len);
    }
    if (bad == it.bytes || bad.substr(0, it.header) == it.bytes.substr(0, it.header))
        c.skip();
    c.nontrivial();
    c.at("blocks");
    static const char* kinds[] = {"removed", "inserted", "duplicated", "swapped with the next"};
    verify(c, it, bad, kind == 3 ? pos : 0, mc::fmt("%s: %zu header bytes at %zu %s", it.name.c_str(), len, pos, kinds[kind]), false, src);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { alloc::limit = 64 << 20; H::init(); items(); };
    std::vector<mc::Scenario> v;
    v.push_back({"single-byte", "every byte of the headers of 9 frames (all codecs), two of them also as format version 0.4, x replacement values (quick: all values in the fixed part read alone through C, otherwise every one-bit change, 00 and ff; thorough: all 255) x alone / between good frames x 3 readers",
                 singleByte});
    v.push_back({"two-bytes", "every pair of bytes of the fixed part of a header (of the digest: its first two) x 8 values each x 2 readers",
                 twoBytes});
    v.push_back({"blocks", "every block of 1-8 (thorough 16) header bytes removed, duplicated, swapped with the next or preceded by zeros x 3 readers",
                 blocks});
    return v;
}
