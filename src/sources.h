// The ways of presenting bytes to the readers, and of reading frames back through each interface.
#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "odc/Reader.h"
#include "h.h"

namespace H {

inline void writeFile(const std::string& path, const std::string& bytes) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, bytes.data(), bytes.size()) != long(bytes.size()))
        abort();
    close(fd);
}
inline std::string readFile(const std::string& path) {
    std::string s;
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return s;
    char buf[65536];
    long n;
    while ((n = read(fd, buf, sizeof buf)) > 0)
        s.append(buf, n);
    close(fd);
    return s;
}

// stream callback over a block of memory
struct MemStream {
    std::string bytes;
    size_t pos = 0;
    long maxPerRead = -1;  // short reads
    long calls = 0;
    long failAt = -1;  // call that fails
    static long proc(void* p, void* buf, long n) {
        MemStream& s = *(MemStream*)p;
        if (s.calls++ == s.failAt)
            return -1;
        long k = std::min<long>(n, s.bytes.size() - s.pos);
        if (s.maxPerRead > 0)
            k = std::min(k, s.maxPerRead);
        memcpy(buf, s.bytes.data() + s.pos, k);
        s.pos += k;
        return k;
    }
};

// how a stream ended
struct Outcome {
    std::vector<Frame> frames;  // delivered intact as far as the interface says
    std::string error;          // "" = end of data
    bool atDecode = false;
};

inline bool sameRows(const Frame& a, const Frame& b, std::string& why) {
    if (a.cols.size() != b.cols.size()) {
        why = mc::fmt("%zu columns instead of %zu", a.cols.size(), b.cols.size());
        return false;
    }
    for (size_t c = 0; c < a.cols.size(); c++)
        if (a.cols[c].name != b.cols[c].name || a.cols[c].type != b.cols[c].type || a.cols[c].bits != b.cols[c].bits) {
            why = mc::fmt("column %zu is %s:%s instead of %s:%s", c, a.cols[c].name.c_str(), tname(a.cols[c].type),
                          b.cols[c].name.c_str(), tname(b.cols[c].type));
            return false;
        }
    if (a.rows.size() != b.rows.size()) {
        why = mc::fmt("%zu rows instead of %zu", a.rows.size(), b.rows.size());
        return false;
    }
    for (size_t r = 0; r < a.rows.size(); r++)
        for (size_t c = 0; c < a.cols.size(); c++)
            if (a.rows[r][c] != b.rows[r][c]) {
                why = mc::fmt("row %zu column %zu is %s instead of %s", r, c, show(a.rows[r][c], a.cols[c].type).c_str(),
                              show(b.rows[r][c], b.cols[c].type).c_str());
                return false;
            }
    if (a.props != b.props) {
        why = "properties differ";
        return false;
    }
    return true;
}

// one after the other, all frames; continues with the next frame when one cannot be decoded is NOT attempted
inline Outcome readC(odc_reader_t* r, bool agg, long maxRows = -1) {
    Outcome o;
    CFrame f;
    if (int rc = odc_new_frame(&f.f, r); rc != ODC_SUCCESS) {
        o.error = std::string("odc_new_frame: ") + odc_error_string(rc);
        return o;
    }
    while (true) {
        int rc = agg ? odc_next_frame_aggregated(f.f, maxRows) : odc_next_frame(f.f);
        if (rc == ODC_ITERATION_COMPLETE)
            return o;
        if (rc != ODC_SUCCESS) {
            o.error = std::string("odc_next_frame: ") + odc_error_string(rc);
            return o;
        }
        Frame d;
        o.error = thrown([&] { d = decodeFrameC(f.f); });
        if (!o.error.empty()) {
            o.atDecode = true;
            return o;
        }
        o.frames.push_back(d);
    }
}

inline Outcome readCppReader(odc::api::Reader& r) {
    Outcome o;
    while (true) {
        std::unique_ptr<odc::api::Frame> f;
        o.error = thrown([&] { f.reset(new odc::api::Frame(r.next())); });
        if (!o.error.empty())
            return o;
        if (!*f)
            return o;
        Frame d;
        o.error = thrown([&] { d = decodeFrameCpp(*f); });
        if (!o.error.empty()) {
            o.atDecode = true;
            return o;
        }
        o.frames.push_back(d);
    }
}

// Row-wise reader.  Frames are told apart by isNewDataset().
inline Outcome readLegacy(odc::Reader& r) {
    Outcome o;
    std::vector<Frame> got;
    o.error = thrown([&] {
        auto it  = r.begin();
        auto end = r.end();
        while (it != end) {
            if (got.empty() || it->isNewDataset()) {
                Frame f;
                auto& md = it->columns();
                for (size_t c = 0; c < md.size(); c++) {
                    FCol fc;
                    fc.name = md[c]->name();
                    fc.type = int(md[c]->type());
                    fc.size = int(8 * md[c]->dataSizeDoubles());
                    auto& bd = md[c]->bitfieldDef();
                    for (size_t b = 0; b < bd.first.size(); b++)
                        fc.bits.emplace_back(bd.first[b], bd.second[b]);
                    f.cols.push_back(fc);
                }
                got.push_back(f);
            }
            Frame& f = got.back();
            Row row;
            for (size_t c = 0; c < f.cols.size(); c++)
                row.push_back(Raw((const char*)&(*it).data(c), f.cols[c].size));
            f.rows.push_back(row);
            ++it;
        }
    });
    o.frames = got;
    return o;
}

enum Source {
    C_PATH, C_FD, C_BUFFER, C_STREAM, CPP_PATH, CPP_MEMORY, CPP_OWNED_FILE, LEGACY_PATH, LEGACY_HANDLE, NSOURCES
};
inline const char* sourceName(int s) {
    static const char* n[] = {"odc_open_path", "odc_open_file_descriptor", "odc_open_buffer", "odc_open_stream",
                              "Reader(path)", "Reader(memory handle)", "Reader(DataHandle*)", "odc::Reader(path)",
                              "odc::Reader(handle)"};
    return n[s];
}
inline bool isLegacy(int s) { return s == LEGACY_PATH || s == LEGACY_HANDLE; }
inline bool aggregates(int s) { return !isLegacy(s); }

// read the bytes completely through one kind of source
inline Outcome readSource(int src, const std::string& bytes, bool agg, long maxRows = -1) {
    static std::string path = mc::scratchDir() + "/source.odb";
    bool file = src == C_PATH || src == C_FD || src == CPP_PATH || src == CPP_OWNED_FILE || isLegacy(src);
    if (file)
        writeFile(path, bytes);
    Outcome o;
    switch (src) {
        case C_PATH:
        case C_FD:
        case C_BUFFER:
        case C_STREAM: {
            CReader r;
            MemStream ms;
            int rc;
            // exactly sized copy, so that ASan sees reads beyond the source
            std::unique_ptr<char[]> copy(new char[bytes.size()]);
            memcpy(copy.get(), bytes.data(), bytes.size());
            if (src == C_PATH)
                rc = odc_open_path(&r.r, path.c_str());
            else if (src == C_FD) {
                int fd = open(path.c_str(), O_RDONLY);
                rc     = odc_open_file_descriptor(&r.r, fd);
                close(fd);
            }
            else if (src == C_BUFFER)
                rc = odc_open_buffer(&r.r, copy.get(), bytes.size());
            else {
                ms.bytes = bytes;
                rc       = odc_open_stream(&r.r, &ms, &MemStream::proc);
            }
            if (rc != ODC_SUCCESS) {
                o.error = std::string("open: ") + odc_error_string(rc);
                r.r     = nullptr;
                return o;
            }
            return readC(r.r, agg, maxRows);
        }
        case CPP_PATH: {
            std::unique_ptr<odc::api::Reader> r;
            o.error = thrown([&] { r.reset(new odc::api::Reader(path, agg, maxRows)); });
            return r ? readCppReader(*r) : o;
        }
        case CPP_MEMORY: {
            eckit::MemoryHandle mh(bytes.data(), bytes.size());
            mh.openForRead();
            std::unique_ptr<odc::api::Reader> r;
            o.error = thrown([&] { r.reset(new odc::api::Reader(mh, agg, maxRows)); });
            return r ? readCppReader(*r) : o;
        }
        case CPP_OWNED_FILE: {
            std::unique_ptr<odc::api::Reader> r;
            o.error = thrown([&] { r.reset(new odc::api::Reader(new eckit::FileHandle(path), agg, maxRows)); });
            return r ? readCppReader(*r) : o;
        }
        case LEGACY_PATH: {
            std::unique_ptr<odc::Reader> r;
            o.error = thrown([&] { r.reset(new odc::Reader(eckit::PathName(path))); });
            return r ? readLegacy(*r) : o;
        }
        default: {
            eckit::FileHandle fh(path);
            odc::Reader r(fh);
            return readLegacy(r);
        }
    }
}

}  // namespace H
