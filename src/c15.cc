// C15: a failed or incomplete write is reported, never taken for success.
// Every way of producing encoded data, against destinations that fail at every point in every way.
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "eckit/filesystem/PathName.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/tools/ImportTool.h"
#include "odc/tools/MergeTool.h"
#include "odc/tools/SplitTool.h"
#include "pool.h"
#include "sources.h"

using namespace H;

namespace {

// -------------------------------------------------------------------------- destinations that fail on command

enum How { SHORT1, HALF, ZERO, MINUS1, THROW, NHOW };
const char* howName[] = {"accepts one byte less", "accepts half", "accepts nothing", "returns -1", "throws"};

struct Plan {
    long at       = -1;  // index of the failing write
    How how       = SHORT1;
    bool always   = false;  // and all those after it
    long calls    = 0;
    bool failed   = false;
    std::string got;
    // number of bytes accepted, or -1 (throws when asked to)
    long take(const void* p, long n) {
        long k = calls++;
        if (at >= 0 && (k == at || (always && k > at))) {
            failed = true;
            switch (how) {
                case SHORT1: n = n > 0 ? n - 1 : 0; break;
                case HALF: n /= 2; break;
                case ZERO: n = 0; break;
                case MINUS1: return -1;
                default: throw eckit::WriteError("injected");
            }
        }
        got.append(static_cast<const char*>(p), n);
        return n;
    }
};

long streamWrite(void* h, const void* p, long n) {
    return static_cast<Plan*>(h)->take(p, n);
}

struct Sink : public eckit::DataHandle {
    Plan& plan;
    int opened = 0, closed = 0;
    explicit Sink(Plan& p) : plan(p) {}
    void print(std::ostream& s) const override { s << "Sink"; }
    eckit::Length openForRead() override { NOTIMP; }
    void openForWrite(const eckit::Length&) override { opened++; }
    void openForAppend(const eckit::Length&) override { opened++; }
    long read(void*, long) override { return -1; }
    long write(const void* p, long n) override { return plan.take(p, n); }
    void close() override { closed++; }
    eckit::Offset position() override { return long(plan.got.size()); }
    eckit::Length estimate() override { return 0; }
};

// write(2) on this descriptor follows the plan
int scriptedFd    = -1;
Plan* scriptedPlan = nullptr;

}  // namespace

extern "C" ssize_t write(int fd, const void* p, size_t n) {
    static ssize_t (*real)(int, const void*, size_t) = reinterpret_cast<ssize_t (*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write"));
    if (fd >= 0 && fd == scriptedFd) {
        long k = scriptedPlan->take(p, long(n));
        if (k < 0)
            errno = ENOSPC;
        return k;
    }
    return real(fd, p, n);
}

namespace {

// Limits the size of the files written by the process
struct FileLimit {
    explicit FileLimit(long n) {
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit r;
        getrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = n < 0 ? r.rlim_max : rlim_t(n);
        setrlimit(RLIMIT_FSIZE, &r);
    }
    ~FileLimit() {
        struct rlimit r;
        getrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = r.rlim_max;
        setrlimit(RLIMIT_FSIZE, &r);
    }
};

// -------------------------------------------------------------------------- operations

// tables of the pool, all of them but the largest and the one without rows (which the C interface refuses) when thorough
const std::vector<std::string>& tables(bool all) {
    static std::vector<std::string> q = {"int8+string", "constants", "real double", "wide string", "elided"}, t;
    if (t.empty())
        for (auto& i : tablePool())
            if (i.name != "no rows" && i.name != "int16_string")
                t.push_back(i.name);
    return all ? t : q;
}

struct Prepared {
    Tab t;
    Image im;
    Encoder e;
    Prepared(const Tab& tab, long rpf) : t(tab), im(image(t, ROWMAJOR)) {
        configureColumns(e.e, t);
        for (auto& p : t.props)
            CAPI(odc_encoder_add_property(e.e, p.first.c_str(), p.second.c_str()));
        configureData(e.e, t, im);
        CAPI(odc_encoder_set_row_count(e.e, t.rows.size()));
        if (rpf)
            CAPI(odc_encoder_set_rows_per_frame(e.e, rpf));
    }
};

// Rows written one by one; returns the errors of the calls
void writeRows(odc::Writer<>& w, const Tab& t, long bufferRows) {
    auto it = w.begin();
    (**it).rowsBufferSize(bufferRows);
    it->setNumberOfColumns(t.cols.size());
    for (size_t c = 0; c < t.cols.size(); c++) {
        if (t.cols[c].type == BITFIELD) {
            eckit::sql::BitfieldDef b;
            for (auto& x : t.cols[c].bits) {
                b.first.push_back(x.first);
                b.second.push_back(x.second);
            }
            it->setBitfieldColumn(c, t.cols[c].name, odc::api::ColumnType(t.cols[c].type), b);
        }
        else
            it->setColumn(c, t.cols[c].name, odc::api::ColumnType(t.cols[c].type));
        if (t.cols[c].type == STRING)
            const_cast<odc::core::MetaData&>(it->columns())[c]->dataSizeDoubles(t.cols[c].w);
    }
    (**it).writeHeader();
    for (auto& row : t.rows) {
        for (size_t c = 0; c < t.cols.size(); c++)
            memcpy(&it->data(c), row[c].data(), row[c].size());
        ++it;
    }
    (**it).close();
}

const std::string csv = "a@t:INTEGER,s@t:STRING,d@t:DOUBLE\n1,'x',0.5\n2,'yy',1.5\n3,'x',0.25\n";

enum Op { C_STREAM, C_FD, CPP_HANDLE, WRITER, FILTER, FILTER_ALL, CSV, NOP };
const char* opName[] = {"odc_encode_to_stream", "odc_encode_to_file_descriptor", "encode", "Writer", "filter", "filter without query", "odbFromCSV"};

// SQL and CSV always work with integers as doubles
struct AsDoubles {
    AsDoubles() { odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES); }
    ~AsDoubles() { odc_integer_behaviour(ODC_INTEGERS_AS_LONGS); }
};

// runs the operation against the destination; returns the error ("" on success), the reported length in n
std::string run(int op, const Tab& t, long rpf, Plan& plan, long& n) {
    n = -1;
    try {
        switch (op) {
            case C_STREAM: {
                Prepared p(t, rpf);
                int rc = odc_encode_to_stream(p.e.e, &plan, &streamWrite, &n);
                return rc == ODC_SUCCESS ? "" : odc_error_string(rc);
            }
            case C_FD: {
                Prepared p(t, rpf);
                int fd       = open("/dev/null", O_WRONLY);
                scriptedPlan = &plan;
                scriptedFd   = fd;
                int rc       = odc_encode_to_file_descriptor(p.e.e, fd, &n);
                scriptedFd   = -1;
                close(fd);
                return rc == ODC_SUCCESS ? "" : odc_error_string(rc);
            }
            case CPP_HANDLE: {
                Image im = image(t, ROWMAJOR);
                Sink s(plan);
                odc::api::encode(s, columnInfo(t), strided(t, im), t.props, rpf ? rpf : 10000);
                return "";
            }
            case WRITER: {
                Sink s(plan);
                odc::Writer<> w(s);
                writeRows(w, t, rpf ? rpf : 100);
                return "";
            }
            case FILTER:
            case FILTER_ALL: {
                std::string in = encodeCpp(t, ROWMAJOR, rpf ? rpf : 10000);
                eckit::MemoryHandle mh(in.data(), in.size());
                mh.openForRead();
                Sink s(plan);
                AsDoubles d;
                odc::api::filter(op == FILTER ? "select *" : "", mh, s);
                return "";
            }
            case CSV: {
                Sink s(plan);
                AsDoubles d;
                odc::api::odbFromCSV(csv, s);
                return "";
            }
        }
    }
    catch (ApiError& e) {
        throw;
    }
    catch (std::exception& e) {
        return *e.what() ? e.what() : "?";
    }
    return "unreachable";
}

void sinks(mc::Ctx& ctx) {
    int op   = ctx.choose(NOP, "operation");
    int ti   = ctx.choose(op == CSV ? 1 : int(tables(ctx.thorough).size()), "table");
    long rpf = op == CSV ? 0 : ctx.choose(3, "rows per frame");
    const Tab& t = tablePool()[poolIndex(tables(ctx.thorough)[ti])].t;
    if (rpf && rpf >= long(t.rows.size()))
        ctx.skip();
    ctx.shard();
    // what an undisturbed run writes
    Plan clean;
    long n0;
    std::string err = run(op, t, rpf, clean, n0);
    ctx.check(err.empty(), "clean", mc::fmt("%s fails without a fault: %s", opName[op], err.c_str()));
    if (op != CSV) {
        std::string why;
        ctx.check(matches(t, readAllC(clean.got), why), "clean", std::string(opName[op]) + " writes something else: " + why);
    }
    if (op == C_STREAM || op == C_FD)
        ctx.check(n0 == long(clean.got.size()), "length", mc::fmt("%ld bytes reported, %zu written", n0, clean.got.size()));
    int at      = ctx.choose(int(clean.calls) + 1, "failing write");
    if (at == clean.calls)  // one more than there are: nothing fails
        return;
    Plan p;
    p.at     = at;
    p.how    = How(ctx.choose(op == C_STREAM || op == C_FD ? int(THROW) : int(NHOW), "how"));
    p.always = ctx.flip("always");
    ctx.at(mc::fmt("%s, write %s", opName[op], howName[p.how]));
    long n;
    err = run(op, t, rpf, p, n);
    ctx.outcome(err.substr(0, 40));
    ctx.nontrivial();
    if (err.empty() && p.got != clean.got)
        ctx.fail(mc::fmt("unreported:%s", opName[op]),
                 mc::fmt("%s: write %d of %ld %s, the call reports success having delivered %zu of %zu bytes", opName[op], at,
                         clean.calls, howName[p.how], p.got.size(), clean.got.size()));
    if (err.empty() && (op == C_STREAM || op == C_FD) && n != long(clean.got.size()))
        ctx.fail("length", "wrong length reported");
}

// every size of the caller's buffer
void buffers(mc::Ctx& ctx) {
    int ti   = ctx.choose(int(tables(ctx.thorough).size()), "table");
    long rpf = ctx.choose(2, "rows per frame");
    const Tab& t = tablePool()[poolIndex(tables(ctx.thorough)[ti])].t;
    ctx.shard();
    std::string want = encodeC(t, ROWMAJOR, rpf);
    int cap = ctx.choose(int(want.size()) + 2, "capacity");
    Prepared p(t, rpf);
    // exactly sized block (AddressSanitizer watches its end)
    std::unique_ptr<char[]> b(new char[cap]);
    long n  = -1;
    int rc  = odc_encode_to_buffer(p.e.e, b.get(), cap, &n);
    bool ok = cap >= int(want.size());
    if (ok != (rc == ODC_SUCCESS))
        ctx.fail("buffer", mc::fmt("encoding %zu bytes into a buffer of %d: %s", want.size(), cap, rc == ODC_SUCCESS ? "success" : odc_error_string(rc)));
    if (rc == ODC_SUCCESS && (n != long(want.size()) || memcmp(b.get(), want.data(), n)))
        ctx.fail("buffer", "other bytes or length");
    ctx.nontrivial();
}

// real files on a device that becomes full at every point
enum FileOp { F_FD, F_HANDLE, F_WRITER, F_SPLIT, F_IMPORT, F_MERGE, F_FILTER, F_SORT, F_INTO, NFILEOP };
const char* fileOpName[] = {"odc_encode_to_file_descriptor", "encode to a file", "Writer to a path", "split", "import", "merge", "filter to a file", "split with sorting", "select into"};

std::string runFile(int op, const Tab& t, const std::string& dir, long limit, long& n) {
    std::string out = dir + "/out.odb";
    n = -1;
    try {
        switch (op) {
            case F_FD: {
                Prepared p(t, 2);
                int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                int rc;
                {
                    FileLimit l(limit);
                    rc = odc_encode_to_file_descriptor(p.e.e, fd, &n);
                }
                close(fd);
                return rc == ODC_SUCCESS ? "" : odc_error_string(rc);
            }
            case F_HANDLE: {
                Image im = image(t, ROWMAJOR);
                std::unique_ptr<eckit::DataHandle> dh(eckit::PathName(out).fileHandle());
                FileLimit l(limit);
                dh->openForWrite(0);
                {
                    eckit::AutoClose c(*dh);
                    odc::api::encode(*dh, columnInfo(t), strided(t, im), t.props, 2);
                }
                return "";
            }
            case F_WRITER: {
                odc::Writer<> w{eckit::PathName(out)};
                FileLimit l(limit);
                writeRows(w, t, 2);
                return "";
            }
            case F_SPLIT: {
                writeFile(dir + "/in.odb", encodeCpp(t, ROWMAJOR, 2));
                FileLimit l(limit);
                AsDoubles d;
                odc::tool::SplitTool::split(dir + "/in.odb", dir + "/out.{a}.odb", 2, false);
                return "";
            }
            case F_SORT: {
                writeFile(dir + "/in.odb", encodeCpp(t, ROWMAJOR, 2));
                AsDoubles d;
                FileLimit l(limit);
                odc::tool::SplitTool::presortAndSplit(dir + "/in.odb", dir + "/out.{a}.odb");
                return "";
            }
            case F_INTO: {
                writeFile(dir + "/in.odb", encodeCpp(t, ROWMAJOR, 2));
                AsDoubles d;
                FileLimit l(limit);
                odc::Select s("select * into \"" + out + "\" from \"" + dir + "/in.odb\"");
                for (auto it = s.begin(), end = s.end(); it != end; ++it)
                    ;
                return "";
            }
            case F_IMPORT: {
                writeFile(dir + "/in.csv", csv);
                FileLimit l(limit);
                AsDoubles d;
                odc::tool::ImportTool::importFile(dir + "/in.csv", out, ",");
                return "";
            }
            case F_MERGE: {
                writeFile(dir + "/in.odb", encodeCpp(t, ROWMAJOR, 2));
                Tab u = t;
                for (auto& c : u.cols)
                    c.name = "x" + c.name;
                writeFile(dir + "/in2.odb", encodeCpp(u, ROWMAJOR, 2));
                FileLimit l(limit);
                AsDoubles d;
                odc::tool::MergeTool::merge({dir + "/in.odb", dir + "/in2.odb"}, out);
                return "";
            }
            case F_FILTER: {
                std::string in = encodeCpp(t, ROWMAJOR, 2);
                eckit::MemoryHandle mh(in.data(), in.size());
                mh.openForRead();
                std::unique_ptr<eckit::DataHandle> dh(eckit::PathName(out).fileHandle());
                FileLimit l(limit);
                AsDoubles d;
                odc::api::filter("select *", mh, *dh);
                dh->close();
                return "";
            }
        }
    }
    catch (std::exception& e) {
        return *e.what() ? e.what() : "?";
    }
    return "unreachable";
}

std::map<std::string, std::string> listing(const std::string& dir) {
    std::map<std::string, std::string> r;
    for (auto& f : std::vector<std::string>{"out.odb", "out.1.odb", "out.2.odb", "out.7.odb", "out.0.odb"}) {
        struct stat st;
        if (stat((dir + "/" + f).c_str(), &st) == 0)
            r[f] = readFile(dir + "/" + f);
    }
    return r;
}

void files(mc::Ctx& ctx) {
    int op = ctx.choose(NFILEOP, "operation");
    int ti = ctx.choose(op == F_IMPORT ? 1 : ctx.thorough ? 3 : 2, "table");
    const char* names[] = {"int8+string", "constants", "elided"};
    const Tab& t        = tablePool()[poolIndex(names[ti])].t;
    ctx.shard();
    std::string dir = mc::scratchDir() + "/c15";
    mkdir(dir.c_str(), 0700);
    auto clear = [&] {
        for (auto& f : listing(dir))
            unlink((dir + "/" + f.first).c_str());
    };
    clear();
    long n0;
    std::string err = runFile(op, t, dir, -1, n0);
    ctx.check(err.empty(), "clean", mc::fmt("%s fails without a fault: %s", fileOpName[op], err.c_str()));
    auto clean = listing(dir);
    size_t largest = 0;
    for (auto& f : clean)
        largest = std::max(largest, f.second.size());
    ctx.check(largest > 0, "clean", "no output");
    long limit = ctx.choose(int(largest) + 2, "limit");
    clear();
    ctx.at(mc::fmt("%s to a full device", fileOpName[op]));
    long n;
    err        = runFile(op, t, dir, limit, n);
    auto after = listing(dir);
    clear();
    ctx.nontrivial();
    ctx.outcome(err.substr(0, 40));
    if (err.empty() && after != clean)
        ctx.fail(mc::fmt("unreported:%s", fileOpName[op]),
                 mc::fmt("%s: the device is full after %ld of %zu bytes, but success is reported", fileOpName[op], limit, largest));
    if (!err.empty() && limit >= long(largest))
        ctx.fail("refused", mc::fmt("%s fails although there is room: %s", fileOpName[op], err.c_str()));
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"sinks", "7 ways of writing x 5 tables x 3 frame sizes: every write call fails in turn, once or from then on, in every way", sinks},
        {"buffers", "every capacity of the caller's buffer from 0 to one more than needed", buffers},
        {"files", "9 ways of writing files, the device being full after every number of bytes", files},
    };
}
