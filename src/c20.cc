// C20: the C interface reports every misuse as an error code.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <limits>

#include "h.h"

using namespace H;

namespace {

//----------------------------------------------------------------------------------------------------------------------
// the world

struct Handled {
    int calls = 0, code = 0;
    void* context = nullptr;
} handled;
int marker;

void onFailure(void* context, int code) {
    handled.calls++;
    handled.code    = code;
    handled.context = context;
}

enum Want { OK = 1, DONE = 2, ERR = 4, NOT_DONE = OK | ERR, ANY = OK | DONE | ERR };

// The calls of one execution, each of them checked for what goes for all calls
struct Session {
    mc::Ctx& c;
    std::string history;
    explicit Session(mc::Ctx& c) : c(c) { odc_set_failure_handler(onFailure, &marker); }
    ~Session() { odc_set_failure_handler(nullptr, nullptr); }

    template <typename F>
    int operator()(const std::string& what, int want, F f) {
        handled = Handled();
        history += (history.empty() ? "" : "; ") + what;
        int rc = -1;
        bool threw = true;
        std::string w;
        try {
            rc    = f();
            threw = false;
        }
        catch (std::exception& e) {
            w = e.what();
        }
        catch (...) {
        }
        std::string name = what.substr(0, what.find('('));
        if (threw)
            c.fail(name + " throws", history + ": " + w);
        c.transition();
        bool error = rc == ODC_ERROR_GENERAL_EXCEPTION || rc == ODC_ERROR_UNKNOWN_EXCEPTION;
        c.check(error || rc == ODC_SUCCESS || rc == ODC_ITERATION_COMPLETE, name + ": strange code", history + mc::fmt(" gives %d", rc));
        c.check(handled.calls == (error ? 1 : 0), name + ": failure handler", history + mc::fmt(" gives %d, and %d calls of the handler", rc, handled.calls));
        const char* text = odc_error_string(rc);
        c.check(text != nullptr, name + ": no error string", history);
        if (error) {
            c.check(handled.context == &marker && handled.code == rc, name + ": arguments of the failure handler", history);
            c.check(strlen(text) > 0, name + ": empty error string", history);
        }
        int got = error ? ERR : rc == ODC_SUCCESS ? OK : DONE;
        if (!(got & want))
            c.fail(name + (got == ERR ? ": refused" : got == OK ? ": misuse accepted" : ": says that there is no more"),
                   history + mc::fmt(" gives %d (%s)", rc, text));
        c.outcome(name + mc::fmt(" %d", rc));
        return got;
    }
};

Tab tabA() {
    Tab t;
    t.cols  = {{"i", INTEGER}, {"s", STRING, 2}, {"b@t", BITFIELD, 1, {{"x", 1}, {"yy", 2}}}, {"d", DOUBLE}};
    t.rows  = {{rI(1), rS("a-long-string", 2), rI(5), rD(1.5)}, {rI(-2), rS("b", 2), rI(7), rD(RMDI)}, {rI(300), rS("sixteen-charact3", 2), rI(0), rD(-0.25)}};
    t.props = {{"key", "value"}, {"other", "x"}};
    return t;
}
Tab tabB() {
    Tab t  = tabA();
    t.rows = {{rI(4), rS("c", 2), rI(1), rD(0)}, {rI(IMDI), rS("a-long-string", 2), rI(2), rD(7)}};
    t.props.clear();
    return t;
}
Tab tabC() {
    Tab t;
    t.cols = {{"i", INTEGER}, {"r", REAL}};
    t.rows = {{rI(9), rD(2.5)}};
    return t;
}

const std::string& data() {
    static std::string s = encodeC(tabA(), ROWMAJOR) + encodeC(tabB(), ROWMAJOR) + encodeC(tabB(), ROWMAJOR) + encodeC(tabC(), ROWMAJOR);
    return s;
}
// the frames that reading delivers: one by one (mode 0) or aggregated
const std::vector<Frame>& reference(int mode) {
    static std::map<int, std::vector<Frame>> cache;
    if (!cache.count(mode)) {
        ReadOpt o;
        o.aggregated = mode != 0;
        o.maxRows    = mode == 2 ? 5 : -1;
        cache[mode]  = readAllC(data(), o);
    }
    return cache[mode];
}

//----------------------------------------------------------------------------------------------------------------------
// frames

struct Slot {
    odc_frame_t* f = nullptr;
    int at = -1;   // which of the frames of the reference; -1 when none
    bool known = true;
};

struct Frames {
    Session s;
    mc::Ctx& c;
    odc_reader_t* reader = nullptr;
    Slot slot[3];
    int mode = -1, next = 0;

    explicit Frames(mc::Ctx& c) : s(c), c(c) {
        s("open_buffer", OK, [&] { return odc_open_buffer(&reader, data().data(), data().size()); });
        for (int i = 0; i < 2; i++)
            s(mc::fmt("new_frame(F%d)", i), OK, [&] { return odc_new_frame(&slot[i].f, reader); });
    }
    ~Frames() {
        for (auto& x : slot)
            if (x.f)
                odc_free_frame(x.f);
        if (reader)
            odc_close(reader);
    }
    const Frame* model(int i) const { return slot[i].at < 0 ? nullptr : &reference(mode)[slot[i].at]; }

    void advance(int i, int m) {
        auto& x = slot[i];
        if (!x.f)
            return;
        bool mixed = mode >= 0 && mode != m;
        if (mode < 0)
            mode = m;
        int want = next < int(reference(mode).size()) ? OK : DONE;
        int got  = s(mc::fmt(m == 0 ? "next_frame(F%d)" : "next_frame_aggregated(F%d, %d)", i, m == 2 ? 5 : -1), mixed ? want | ERR : want,
                    [&] { return m == 0 ? odc_next_frame(x.f) : odc_next_frame_aggregated(x.f, m == 2 ? 5 : -1); });
        if (got == OK)
            x.at = next++;
        else if (got == DONE)
            x.at = -1;
        else
            c.skip();
    }

    void copy(int i) {
        if (!slot[i].f || i == 2)
            return;
        if (slot[2].f)
            s("free_frame(K)", OK, [&] { return odc_free_frame(slot[2].f); });
        slot[2] = Slot();
        // a frame which has not been read may be copied, to another which has not
        if (s(mc::fmt("copy_frame(F%d, K)", i), slot[i].at < 0 ? NOT_DONE : OK, [&] { return odc_copy_frame(slot[i].f, &slot[2].f); }) == OK)
            slot[2].at = slot[i].at;
        else
            slot[2].f = nullptr;
    }

    // everything there is to know about a frame
    void verify(int i) {
        auto& x = slot[i];
        if (!x.f)
            return;
        const Frame* m = model(i);
        std::string n  = mc::fmt("F%d", i);
        long rows = -5;
        int cols = -5, props = -5;
        int w = m ? OK : ERR;
        s("frame_row_count(" + n + ")", w, [&] { return odc_frame_row_count(x.f, &rows); });
        s("frame_column_count(" + n + ")", w, [&] { return odc_frame_column_count(x.f, &cols); });
        s("frame_properties_count(" + n + ")", w, [&] { return odc_frame_properties_count(x.f, &props); });
        if (!m) {
            c.check(rows == -5 && cols == -5 && props == -5, "a failing query sets its result", s.history);
            return;
        }
        c.check(rows == long(m->rows.size()) && cols == int(m->cols.size()) && props == int(m->props.size()), "frame: counts",
                s.history + mc::fmt(": %ld rows, %d columns, %d properties", rows, cols, props));
        Frame got;
        std::string err = thrown([&] { got = decodeFrameC(x.f); });
        c.check(err.empty(), "frame: cannot be decoded", s.history + ": " + err);
        c.check(got.rows == m->rows && got.props == m->props && got.cols.size() == m->cols.size(), "frame: contents", s.history);
        for (size_t k = 0; k < got.cols.size(); k++)
            c.check(got.cols[k].name == m->cols[k].name && got.cols[k].type == m->cols[k].type && got.cols[k].bits == m->cols[k].bits, "frame: columns", s.history);
        c.nontrivial();
    }

    // one query of a frame, with a valid or an invalid argument
    void query(int i, int q) {
        auto& x = slot[i];
        if (!x.f)
            return;
        const Frame* m = model(i);
        std::string n  = mc::fmt("F%d", i);
        int ncols      = m ? m->cols.size() : 0;
        static const int idx[] = {-1, 0, 2, 3, 4, std::numeric_limits<int>::max()};
        if (q < 6) {
            int k = idx[q];
            const char* name = nullptr;
            int type = -5, size = -5, nbits = -5;
            bool good = m && k >= 0 && k < ncols;
            s("frame_column_attributes(" + n + mc::fmt(", %d)", k), good ? OK : ERR, [&] { return odc_frame_column_attributes(x.f, k, &name, &type, &size, &nbits); });
            if (good)
                c.check(name == m->cols[k].name && type == m->cols[k].type && nbits == int(m->cols[k].bits.size()), "frame: attributes", s.history);
            else
                c.check(!name && type == -5 && size == -5 && nbits == -5, "a failing query sets its result", s.history);
            s("frame_column_attributes(" + n + mc::fmt(", %d, null outputs)", k), good ? OK : ERR, [&] { return odc_frame_column_attributes(x.f, k, nullptr, nullptr, nullptr, nullptr); });
        }
        else if (q < 11) {
            static const int at[][2] = {{2, -1}, {2, 0}, {2, 1}, {2, 2}, {0, 0}};
            int k = at[q - 6][0], b = at[q - 6][1];
            const char* name = nullptr;
            int off = -5, size = -5;
            bool good = m && k < ncols && b >= 0 && b < int(m->cols[k].bits.size());
            s("frame_bitfield_attributes(" + n + mc::fmt(", %d, %d)", k, b), good ? OK : ERR, [&] { return odc_frame_bitfield_attributes(x.f, k, b, &name, &off, &size); });
            if (good)
                c.check(name == m->cols[k].bits[b].first && size == m->cols[k].bits[b].second && off == m->cols[k].offsets[b], "frame: bitfield attributes", s.history);
            else
                c.check(!name && off == -5 && size == -5, "a failing query sets its result", s.history);
        }
        else if (q < 15) {
            static const int at[] = {-1, 0, 1, 2};
            int k     = at[q - 11];
            bool good = m && k >= 0 && k < int(m->props.size());
            const char *key = nullptr, *value = nullptr;
            s("frame_property_idx(" + n + mc::fmt(", %d)", k), good ? OK : ERR, [&] { return odc_frame_property_idx(x.f, k, &key, &value); });
            if (good)
                c.check(key == std::next(m->props.begin(), k)->first && value == std::next(m->props.begin(), k)->second, "frame: property", s.history);
            else
                c.check(!key && !value, "a failing query sets its result", s.history);
        }
        else if (q == 15 || q == 16) {
            std::string key = q == 15 ? "key" : "nothing";
            const char* value = "?";
            s("frame_property(" + n + ", " + key + ")", m ? OK : ERR, [&] { return odc_frame_property(x.f, key.c_str(), &value); });
            if (m) {
                bool has = m->props.count(key);
                c.check(has ? value && value == m->props.at(key) : !value, "frame: property", s.history);
            }
        }
        else if (q == 17)
            s("frame_row_count(" + n + ", null)", ERR, [&] { return odc_frame_row_count(x.f, nullptr); });
        else if (q == 18)
            verify(i);
    }
};

// every sequence of advancing, copying and freeing, with queries
void frames(mc::Ctx& c) {
    Frames w(c);
    int depth = c.thorough ? 6 : 5;
    for (int i = 0; i < depth; i++) {
        int op = c.choose(11);
        if (i == 1)
            c.shard();
        if (op < 6)
            w.advance(op / 3, op % 3);
        else if (op < 8)
            w.copy(op - 6);
        else if (op == 8)
            w.verify(2);
        else if (op == 9) {
            if (w.slot[0].f)
                w.s("free_frame(F0)", OK, [&] { return odc_free_frame(w.slot[0].f); });
            w.slot[0].f = nullptr;
            w.slot[0].at = -1;
        }
        else
            break;
    }
    for (int i = 0; i < 3; i++)
        w.verify(i);
}

void queries(mc::Ctx& c) {
    Frames w(c);
    // bring the frame into a state
    int state = c.choose(8);
    int mode  = c.choose(3);
    switch (state) {
        case 0:
            break;  // nothing read
        case 1:
        case 2:
        case 3:
            for (int i = 0; i < state; i++)
                w.advance(0, mode);
            break;
        case 4:  // past the end
            for (int i = 0; i < 6; i++)
                w.advance(0, mode);
            break;
        case 5:  // a copy, of a frame which moved on
            w.advance(0, mode);
            w.copy(0);
            w.advance(0, mode);
            break;
        case 6:
            w.copy(0);
            break;
        case 7:  // another frame took the last
            w.advance(0, mode);
            for (int i = 0; i < 5; i++)
                w.advance(1, mode);
            break;
    }
    c.shard();
    int n = c.thorough ? 3 : 2;
    for (int i = 0; i < n; i++) {
        int who = state == 5 || state == 6 ? 2 * c.choose(2) : 0;
        w.query(who, c.choose(19));
    }
    for (int i = 0; i < 3; i++)
        w.verify(i);
}

//----------------------------------------------------------------------------------------------------------------------
// null pointers

void nulls(mc::Ctx& c) {
    Frames w(c);
    auto& s = w.s;
    w.advance(0, 0);
    odc_frame_t* f   = w.slot[0].f;
    odc_decoder_t* d = nullptr;
    odc_encoder_t* e = nullptr;
    CAPI(odc_new_decoder(&d));
    CAPI(odc_new_encoder(&e));
    CAPI(odc_encoder_add_column(e, "i", ODC_INTEGER));
    long cell = 5;
    CAPI(odc_encoder_set_data_array(e, &cell, 8, 1, 0));
    char buffer[10000];
    long n = 0;
    int m  = 0;
    const char *p = nullptr, *q = nullptr;
    odc_reader_t* r = nullptr;
    odc_frame_t* g  = nullptr;
    auto rd = [](void*, void*, long) -> long { return 0; };
    auto wr = [](void*, const void*, long k) -> long { return k; };
    using F = std::function<int()>;
    std::vector<std::pair<std::string, F>> all = {
        {"column_type_count(null)", [&] { return odc_column_type_count(nullptr); }},
        {"column_type_name(1, null)", [&] { return odc_column_type_name(1, nullptr); }},
        {"missing_integer(null)", [&] { return odc_missing_integer(nullptr); }},
        {"missing_double(null)", [&] { return odc_missing_double(nullptr); }},
        {"version(null)", [&] { return odc_version(nullptr); }},
        {"vcs_version(null)", [&] { return odc_vcs_version(nullptr); }},
        {"integer_behaviour(99)", [&] { return odc_integer_behaviour(99); }},
        {"integer_behaviour(-1)", [&] { return odc_integer_behaviour(-1); }},
        {"open_path(null, path)", [&] { return odc_open_path(nullptr, "/dev/null"); }},
        {"open_path(r, null)", [&] { return odc_open_path(&r, nullptr); }},
        {"open_path(r, missing)", [&] { return odc_open_path(&r, "/nonexistent/file.odb"); }},
        {"open_file_descriptor(null)", [&] { return odc_open_file_descriptor(nullptr, 0); }},
        {"open_file_descriptor(-1)", [&] { return odc_open_file_descriptor(&r, -1); }},
        {"open_file_descriptor(closed)", [&] { return odc_open_file_descriptor(&r, 987); }},
        {"open_buffer(null reader)", [&] { return odc_open_buffer(nullptr, data().data(), data().size()); }},
        {"open_buffer(null data)", [&] { return odc_open_buffer(&r, nullptr, 10); }},
        {"open_buffer(length -1)", [&] { return odc_open_buffer(&r, data().data(), -1); }},
        {"open_stream(null reader)", [&] { return odc_open_stream(nullptr, nullptr, rd); }},
        {"open_stream(null function)", [&] { return odc_open_stream(&r, nullptr, nullptr); }},
        {"close(null)", [&] { return odc_close(nullptr); }},
        {"new_frame(null, reader)", [&] { return odc_new_frame(nullptr, w.reader); }},
        {"new_frame(frame, null)", [&] { return odc_new_frame(&g, nullptr); }},
        {"free_frame(null)", [&] { return odc_free_frame(nullptr); }},
        {"next_frame(null)", [&] { return odc_next_frame(nullptr); }},
        {"next_frame_aggregated(null)", [&] { return odc_next_frame_aggregated(nullptr, -1); }},
        {"copy_frame(null, copy)", [&] { return odc_copy_frame(nullptr, &g); }},
        {"copy_frame(frame, null)", [&] { return odc_copy_frame(f, nullptr); }},
        {"frame_row_count(null, n)", [&] { return odc_frame_row_count(nullptr, &n); }},
        {"frame_row_count(frame, null)", [&] { return odc_frame_row_count(f, nullptr); }},
        {"frame_column_count(null, n)", [&] { return odc_frame_column_count(nullptr, &m); }},
        {"frame_column_count(frame, null)", [&] { return odc_frame_column_count(f, nullptr); }},
        {"frame_column_attributes(null)", [&] { return odc_frame_column_attributes(nullptr, 0, &p, &m, &m, &m); }},
        {"frame_bitfield_attributes(null)", [&] { return odc_frame_bitfield_attributes(nullptr, 2, 0, &p, &m, &m); }},
        {"frame_properties_count(null, n)", [&] { return odc_frame_properties_count(nullptr, &m); }},
        {"frame_properties_count(frame, null)", [&] { return odc_frame_properties_count(f, nullptr); }},
        {"frame_property_idx(null)", [&] { return odc_frame_property_idx(nullptr, 0, &p, &q); }},
        {"frame_property_idx(null key)", [&] { return odc_frame_property_idx(f, 0, nullptr, &q); }},
        {"frame_property_idx(null value)", [&] { return odc_frame_property_idx(f, 0, &p, nullptr); }},
        {"frame_property(null frame)", [&] { return odc_frame_property(nullptr, "key", &q); }},
        {"frame_property(null key)", [&] { return odc_frame_property(f, nullptr, &q); }},
        {"frame_property(null value)", [&] { return odc_frame_property(f, "key", nullptr); }},
        {"new_decoder(null)", [&] { return odc_new_decoder(nullptr); }},
        {"decoder_defaults_from_frame(null, f)", [&] { return odc_decoder_defaults_from_frame(nullptr, f); }},
        {"decoder_defaults_from_frame(d, null)", [&] { return odc_decoder_defaults_from_frame(d, nullptr); }},
        {"decoder_set_column_major(null)", [&] { return odc_decoder_set_column_major(nullptr, true); }},
        {"decoder_set_row_count(null)", [&] { return odc_decoder_set_row_count(nullptr, 1); }},
        {"decoder_row_count(null)", [&] { return odc_decoder_row_count(nullptr, &n); }},
        {"decoder_row_count(d, null)", [&] { return odc_decoder_row_count(d, nullptr); }},
        {"decoder_set_data_array(null)", [&] { return odc_decoder_set_data_array(nullptr, buffer, 8, 1, false); }},
        {"decoder_set_data_array(null data)", [&] { return odc_decoder_set_data_array(d, nullptr, 8, 1, false); }},
        {"decoder_data_array(null)", [&] { return odc_decoder_data_array(nullptr, nullptr, nullptr, nullptr, nullptr); }},
        {"decoder_add_column(null, name)", [&] { return odc_decoder_add_column(nullptr, "i"); }},
        {"decoder_add_column(d, null)", [&] { return odc_decoder_add_column(d, nullptr); }},
        {"decoder_column_count(null)", [&] { return odc_decoder_column_count(nullptr, &m); }},
        {"decoder_column_count(d, null)", [&] { return odc_decoder_column_count(d, nullptr); }},
        {"decoder_column_set_data_size(null)", [&] { return odc_decoder_column_set_data_size(nullptr, 0, 8); }},
        {"decoder_column_set_data_array(null)", [&] { return odc_decoder_column_set_data_array(nullptr, 0, 8, 8, buffer); }},
        {"decoder_column_data_array(null)", [&] { return odc_decoder_column_data_array(nullptr, 0, &m, &m, nullptr); }},
        {"decode(null, f)", [&] { return odc_decode(nullptr, f, &n); }},
        {"decode(d, null)", [&] { return odc_decode(d, nullptr, &n); }},
        {"decode_threaded(null, f)", [&] { return odc_decode_threaded(nullptr, f, &n, 2); }},
        {"decode_threaded(d, null)", [&] { return odc_decode_threaded(d, nullptr, &n, 2); }},
        {"new_encoder(null)", [&] { return odc_new_encoder(nullptr); }},
        {"encoder_add_property(null, k, v)", [&] { return odc_encoder_add_property(nullptr, "k", "v"); }},
        {"encoder_add_property(e, null, v)", [&] { return odc_encoder_add_property(e, nullptr, "v"); }},
        {"encoder_add_property(e, k, null)", [&] { return odc_encoder_add_property(e, "k", nullptr); }},
        {"encoder_set_row_count(null)", [&] { return odc_encoder_set_row_count(nullptr, 1); }},
        {"encoder_set_row_count(-1)", [&] { return odc_encoder_set_row_count(e, -1); }},
        {"encoder_set_rows_per_frame(null)", [&] { return odc_encoder_set_rows_per_frame(nullptr, 1); }},
        {"encoder_set_data_array(null)", [&] { return odc_encoder_set_data_array(nullptr, &cell, 8, 1, 0); }},
        {"encoder_add_column(null)", [&] { return odc_encoder_add_column(nullptr, "x", 1); }},
        {"encoder_add_column(e, null)", [&] { return odc_encoder_add_column(e, nullptr, 1); }},
        {"encoder_column_set_data_size(null)", [&] { return odc_encoder_column_set_data_size(nullptr, 0, 8); }},
        {"encoder_column_set_data_array(null)", [&] { return odc_encoder_column_set_data_array(nullptr, 0, 8, 8, &cell); }},
        {"encoder_column_add_bitfield(null)", [&] { return odc_encoder_column_add_bitfield(nullptr, 0, "x", 1); }},
        {"encoder_column_add_bitfield(null name)", [&] { return odc_encoder_column_add_bitfield(e, 0, nullptr, 1); }},
        {"encode_to_stream(null encoder)", [&] { return odc_encode_to_stream(nullptr, nullptr, wr, &n); }},
        {"encode_to_stream(null function)", [&] { return odc_encode_to_stream(e, nullptr, nullptr, &n); }},
        {"encode_to_file_descriptor(null encoder)", [&] { return odc_encode_to_file_descriptor(nullptr, 987, &n); }},
        {"encode_to_file_descriptor(-1)", [&] { return odc_encode_to_file_descriptor(e, -1, &n); }},
        {"encode_to_file_descriptor(closed)", [&] { return odc_encode_to_file_descriptor(e, 987, &n); }},
        {"encode_to_buffer(null encoder)", [&] { return odc_encode_to_buffer(nullptr, buffer, sizeof(buffer), &n); }},
        {"encode_to_buffer(null buffer)", [&] { return odc_encode_to_buffer(e, nullptr, 10000, &n); }},
        {"encode_to_buffer(length -1)", [&] { return odc_encode_to_buffer(e, buffer, -1, &n); }},
        {"encode_to_buffer(length 0)", [&] { return odc_encode_to_buffer(e, buffer, 0, &n); }},
    };
    size_t calls = c.thorough ? 3 : 2;
    for (size_t i = 0; i < calls; i++) {
        auto& x = all[c.choose(all.size())];
        if (i == 0)
            c.shard();
        s(x.first, ERR, x.second);
        c.check(!r && !g, "an error gives a handle", s.history);
    }
    // may or may not be errors, but have to be harmless
    switch (c.choose(4)) {
        case 0:
            s("free_decoder(null)", NOT_DONE, [] { return odc_free_decoder(nullptr); });
            s("free_encoder(null)", NOT_DONE, [] { return odc_free_encoder(nullptr); });
            break;
        case 1:
            s("column_type_name(-1)", NOT_DONE, [&] { return odc_column_type_name(-1, &p); });
            s("column_type_name(99)", NOT_DONE, [&] { return odc_column_type_name(99, &p); });
            break;
        case 2:
            s("encode_to_stream(null count)", NOT_DONE, [&] { return odc_encode_to_stream(e, nullptr, wr, nullptr); });
            break;
        case 3:
            s("encode_to_buffer(null count)", NOT_DONE, [&] { return odc_encode_to_buffer(e, buffer, sizeof(buffer), nullptr); });
            break;
    }
    for (int k = -2; k < 10; k++)
        c.check(odc_error_string(k) != nullptr, "no error string", mc::fmt("%d", k));
    w.verify(0);
    odc_free_decoder(d);
    odc_free_encoder(e);
}

// No handler, and another handler
void handlers(mc::Ctx& c) {
    handled   = Handled();
    int other = 0;
    odc_failure_handler_t h2 = [](void* context, int) { ++*static_cast<int*>(context); };
    int installed = 0, wantFirst = 0, wantOther = 0;
    for (int i = 0; i < 5; i++) {
        int op = c.choose(5);
        if (op < 3) {
            installed = op;
            CAPI(odc_set_failure_handler(op == 0 ? nullptr : op == 1 ? onFailure : h2, op == 1 ? (void*)&marker : (void*)&other));
        }
        else {
            int rc = op == 3 ? odc_integer_behaviour(99) : odc_next_frame(nullptr);
            c.check(rc == ODC_ERROR_GENERAL_EXCEPTION && strlen(odc_error_string(rc)) > 0, "handler: code", mc::fmt("%d", rc));
            std::string text = odc_error_string(rc);
            c.check((text.find("integer behaviour") != std::string::npos) == (op == 3), "handler: the error string is that of another error", text);
            wantFirst += installed == 1;
            wantOther += installed == 2;
            c.nontrivial();
        }
        c.transition();
        c.check(handled.calls == wantFirst && other == wantOther, "handler: calls", mc::fmt("%d and %d instead of %d and %d", handled.calls, other, wantFirst, wantOther));
    }
    odc_set_failure_handler(nullptr, nullptr);
    c.outcome(mc::fmt("%d/%d", wantFirst, wantOther));
}

//----------------------------------------------------------------------------------------------------------------------
// decoder

struct DCol {
    std::string name;
    int elem = 0, stride = 0;
    std::shared_ptr<char> user;
    bool wild = false;
};

struct DecoderWorld : Frames {
    odc_decoder_t* d = nullptr;
    std::vector<DCol> cols;
    long nrows = 0;
    bool colMajor = false;
    std::shared_ptr<char> array;
    long width = 0, height = 0;
    bool used = false;
    std::vector<std::shared_ptr<char>> keep;

    explicit DecoderWorld(mc::Ctx& c) : Frames(c) {
        s("new_decoder", OK, [&] { return odc_new_decoder(&d); });
    }
    ~DecoderWorld() { odc_free_decoder(d); }

    std::shared_ptr<char> memory(size_t n) {
        std::shared_ptr<char> p(new char[n], std::default_delete<char[]>());
        memset(p.get(), 0x5a, n);
        keep.push_back(p);
        return p;
    }

    static const FCol* find(const Frame& f, const std::string& name, size_t& at) {
        for (int pass = 0; pass < 2; pass++)
            for (size_t i = 0; i < f.cols.size(); i++)
                if (f.cols[i].name == name || (pass && f.cols[i].name.substr(0, f.cols[i].name.find('@')) == name)) {
                    at = i;
                    return &f.cols[i];
                }
        return nullptr;
    }

    void op(int o) {
        int n = cols.size();
        static const std::vector<std::pair<int, int>> sizes = {{-1, 8}, {0, -1}, {0, 0}, {0, 8}, {0, 16}, {1, 16}, {1, 24}, {5, 8}, {0, 12}};
        static const char* names[] = {"i", "s", "d", "b", "b@t", "nothing", "", "r"};
        struct A { int col, elem, stride; bool data; };
        static const std::vector<A> arrays = {{0, 8, 8, true}, {0, 0, 0, true}, {0, 8, 16, true}, {1, 16, 16, true}, {1, 16, 40, true}, {1, 8, 8, true}, {0, 8, -8, true},
                                              {0, -8, 8, true}, {-1, 8, 8, true}, {7, 8, 8, true}, {0, 8, 8, false}, {0, 12, 12, true}, {1, 16, 0, true}};
        struct M { long w, h; bool data, cm; };
        static const std::vector<M> images = {{40, 3, true, false}, {40, 3, true, true}, {64, 10, true, false}, {64, 10, true, true}, {16, 3, true, false}, {40, 1, true, true},
                                              {0, 3, true, false}, {40, -1, true, false}, {40, 3, false, false}, {8, 3, true, true}};
        if (o == 0) {
            bool have = model(0);
            if (s("decoder_defaults_from_frame(F0)", have ? OK : ERR, [&] { return odc_decoder_defaults_from_frame(d, slot[0].f); }) == OK) {
                nrows = model(0)->rows.size();
                for (auto& k : model(0)->cols) {
                    cols.emplace_back();
                    cols.back().name = k.name;
                }
            }
        }
        else if (o < 9) {
            std::string name = names[o - 1];
            if (s("decoder_add_column(" + name + ")", name.empty() ? NOT_DONE : OK, [&] { return odc_decoder_add_column(d, name.c_str()); }) == OK) {
                cols.emplace_back();
                cols.back().name = name;
            }
        }
        else if (o < 18) {
            auto x    = sizes[o - 9];
            bool good = x.first >= 0 && x.first < n && x.second >= 0;
            if (s(mc::fmt("decoder_column_set_data_size(%d, %d)", x.first, x.second), good ? (x.second % 8 ? NOT_DONE : OK) : ERR,
                  [&] { return odc_decoder_column_set_data_size(d, x.first, x.second); }) == OK)
                cols[x.first].elem = x.second;
        }
        else if (o < 31) {
            auto x    = arrays[o - 18];
            bool good = x.col >= 0 && x.col < n && x.elem >= 0 && x.stride >= 0;
            auto p    = x.data ? memory(110 * 48) : nullptr;
            if (s(mc::fmt("decoder_column_set_data_array(%d, %d, %d, %s)", x.col, x.elem, x.stride, x.data ? "data" : "null"), good ? (x.elem % 8 ? NOT_DONE : OK) : ERR,
                  [&] { return odc_decoder_column_set_data_array(d, x.col, x.elem, x.stride, p.get()); }) == OK) {
                cols[x.col].elem   = x.elem;
                cols[x.col].stride = x.stride;
                cols[x.col].user   = p;
            }
        }
        else if (o < 41) {
            auto x    = images[o - 31];
            bool good = x.w > 0 && x.h > 0 && x.data;
            auto p    = x.data ? memory(good ? x.w * x.h : 8) : nullptr;
            if (s(mc::fmt("decoder_set_data_array(%s, %ld, %ld, %d)", x.data ? "data" : "null", x.w, x.h, x.cm), good ? OK : ERR,
                  [&] { return odc_decoder_set_data_array(d, p.get(), x.w, x.h, x.cm); }) == OK) {
                array    = p;
                width    = x.w;
                height   = x.h;
                colMajor = x.cm;
                nrows    = x.h;
            }
        }
        else if (o < 45) {
            long k = std::vector<long>{-1, 0, 2, 100}[o - 41];
            if (s(mc::fmt("decoder_set_row_count(%ld)", k), k < 0 ? ERR : OK, [&] { return odc_decoder_set_row_count(d, k); }) == OK)
                nrows = k;
        }
        else if (o == 45) {
            colMajor = !colMajor;
            s(mc::fmt("decoder_set_column_major(%d)", colMajor), OK, [&] { return odc_decoder_set_column_major(d, colMajor); });
        }
        else if (o == 46) {  // queries
            long k = -5;
            int m  = -5;
            s("decoder_row_count", OK, [&] { return odc_decoder_row_count(d, &k); });
            c.check(k == nrows || used, "decoder: row count", s.history);
            s("decoder_column_count", OK, [&] { return odc_decoder_column_count(d, &m); });
            c.check(m == n, "decoder: column count", s.history);
            int e = -5, st = -5;
            const void* p = nullptr;
            for (int col : {-1, 0, n, 7}) {
                bool good = col >= 0 && col < n;
                s(mc::fmt("decoder_column_data_array(%d)", col), good ? OK : ERR, [&] { return odc_decoder_column_data_array(d, col, &e, &st, &p); });
                s(mc::fmt("decoder_column_data_array(%d, nulls)", col), good ? OK : ERR, [&] { return odc_decoder_column_data_array(d, col, nullptr, nullptr, nullptr); });
            }
            s("decoder_data_array(nulls)", NOT_DONE, [&] { return odc_decoder_data_array(d, nullptr, nullptr, nullptr, nullptr); });
            long w, h;
            bool cm;
            s("decoder_data_array", array ? OK : used ? NOT_DONE : ERR, [&] { return odc_decoder_data_array(d, &p, &w, &h, &cm); });
        }
        else if (o == 47)
            advance(0, 0);
        else
            decode(o == 48 ? 1 : o == 49 ? 3 : o == 50 ? 0 : -1);
    }

    void decode(int threads) {
        const Frame* f = model(0);
        bool mustFail = !f || threads < 1, sane = !used && !mustFail;
        long total = 0;
        std::vector<std::string> seen;
        for (auto& k : cols) {
            size_t at = 0;
            const FCol* fc = f ? find(*f, k.name, at) : nullptr;
            if (!fc) {
                mustFail = true;
                continue;
            }
            int need = fc->size, elem = k.elem ? k.elem : k.user ? 8 : need;
            if (elem < need)
                mustFail = true;
            if (elem % 8 || (k.user && k.stride && k.stride < elem) || std::count(seen.begin(), seen.end(), fc->name))
                sane = false;
            seen.push_back(fc->name);
            if (!k.user)
                total += elem;
        }
        if (f && nrows && nrows < long(f->rows.size()))
            mustFail = true;
        if (array && total && (total > width || (nrows ? nrows : f ? long(f->rows.size()) : 0) > height))
            mustFail = true;
        if (cols.empty())
            sane = false;
        if (used)
            mustFail = mustFail && (!f || threads < 1);
        long rows = -5;
        int got   = s(mc::fmt("decode_threaded(F0, %d)", threads), mustFail ? ERR : sane ? OK : NOT_DONE, [&] { return odc_decode_threaded(d, slot[0].f, &rows, threads); });
        used      = true;
        if (got != OK)
            return;
        c.nontrivial();
        c.check(rows == long(f->rows.size()), "decode: rows", s.history + mc::fmt(": %ld", rows));
        long w = 0, h = 0;
        CAPI(odc_decoder_data_array(d, nullptr, &w, &h, nullptr));
        for (size_t i = 0; i < cols.size(); i++) {
            int e = 0, st = 0;
            const void* p = nullptr;
            CAPI(odc_decoder_column_data_array(d, i, &e, &st, &p));
            size_t at;
            const FCol* fc = find(*f, cols[i].name, at);
            c.check(fc, "decode: unknown column decoded", s.history);
            if (cols[i].user)
                c.check(p == cols[i].user.get(), "decode: elsewhere than asked for", s.history);
            for (long r = 0; r < rows; r++) {
                std::string v;
                for (int k = 0; k < e / 8; k++) {
                    const char* q = (const char*)p + (colMajor && !cols[i].user && e > 8 ? k * h * 8 + r * 8 : r * st + 8 * k);
                    v += std::string(q, 8);
                }
                Raw want = f->rows[r][at];
                want.resize(e / 8 * 8, '\0');
                // overlapping cells, or the same column twice, are what was asked for
                if (cols[i].user && st < e)
                    continue;
                c.check(v == want, "decode: values", s.history + mc::fmt(": column %zu row %ld is ", i, r) + show(v, fc->type) + " instead of " + show(want, fc->type));
            }
        }
    }
};

void decoders(mc::Ctx& c) {
    DecoderWorld w(c);
    int start = c.choose(4);  // nothing read, each of the frames
    for (int i = 0; i < start; i++)
        w.advance(0, 0);
    c.shard();
    int depth = 3;
    // either from scratch, or from the defaults
    if (c.flip())
        w.op(0);
    else if (!c.thorough)
        depth--;
    if (!c.thorough && (start == 0 || start == 3))
        depth--;
    for (int i = 0; i < depth; i++) {
        int o = c.choose(53);
        if (o == 52)
            break;
        w.op(o);
    }
    w.decode(1);
    if (w.slot[0].at >= 0)
        w.verify(0);
}

//----------------------------------------------------------------------------------------------------------------------
// encoder

struct ECol {
    std::string name;
    int type, size = 0, stride = 0;
    std::vector<std::pair<std::string, int>> bits;
    std::shared_ptr<char> data;
    bool set = false;
};


// cell n of a block of memory: an integer, the beginning of a string or a double, and none of them special
long cellValue(long n) { return 'A' + n % 50; }

struct EncoderWorld {
    Session s;
    mc::Ctx& c;
    odc_encoder_t* e = nullptr;
    std::vector<ECol> cols;
    Props props;
    long rows = 0, rpf = 10000;
    bool hasArray = false, zeroRows = false, fresh = true, strange = false;
    std::shared_ptr<char> array;
    long width = 0, height = 0, cmw = 0;
    std::vector<std::shared_ptr<char>> keep;

    explicit EncoderWorld(mc::Ctx& c) : s(c), c(c) {
        s("new_encoder", OK, [&] { return odc_new_encoder(&e); });
    }
    ~EncoderWorld() { odc_free_encoder(e); }

    std::shared_ptr<char> memory(size_t n) {
        std::shared_ptr<char> p(new char[n], std::default_delete<char[]>());
        for (size_t i = 0; i + 8 <= n; i += 8) {
            long v = cellValue(i / 8);
            memcpy(p.get() + i, &v, 8);
        }
        keep.push_back(p);
        return p;
    }

    void op(int o) {
        int n = cols.size();
        struct C { const char* name; int type; };
        static const std::vector<C> newCols = {{"i", INTEGER}, {"s", STRING}, {"b", BITFIELD}, {"d@t", DOUBLE}, {"i", DOUBLE}, {"", INTEGER}, {"z", IGNORE}, {"y", 99}, {"x", -1}};
        static const std::vector<std::pair<int, int>> sizes = {{0, 16}, {1, 16}, {0, 0}, {0, 12}, {0, -8}, {-1, 8}, {5, 8}, {1, 24}};
        struct A { int col, elem, stride; bool data; };
        static const std::vector<A> arrays = {{0, 8, 0, true}, {0, 8, 16, true}, {1, 16, 0, true}, {1, 8, 8, true}, {0, 12, 0, true}, {0, 8, 12, true}, {0, 8, -8, true}, {0, 8, 8, false}, {-1, 8, 8, true}, {6, 8, 8, true}};
        struct M { long w, h; int cmw; bool data; };
        static const std::vector<M> images = {{16, 2, 0, true}, {16, 2, 8, true}, {24, 5, 0, true}, {32, 3, 16, true}, {8, 1, 0, true}, {-16, 2, 0, true}, {16, -2, 0, true}, {16, 2, 4, true}, {16, 2, -8, true}, {16, 2, 0, false}, {12, 2, 0, true}, {40, 3, 8, true}};
        struct B { int col; const char* name; int bits; };
        static const std::vector<B> bitfields = {{0, "x", 1}, {0, "y", 31}, {0, "z", 32}, {0, "w", 33}, {0, "v", 0}, {0, "u", -1}, {-1, "t", 1}, {4, "r", 1}, {0, "", 2}};
        if (o < 9) {
            auto x    = newCols[o];
            bool good = x.type >= 1 && x.type <= 5;
            if (s(std::string("encoder_add_column(") + x.name + mc::fmt(", %d)", x.type), good && *x.name ? OK : NOT_DONE, [&] { return odc_encoder_add_column(e, x.name, x.type); }) == OK) {
                strange = strange || !good || !*x.name || std::any_of(cols.begin(), cols.end(), [&](const ECol& k) { return k.name == x.name; });
                cols.emplace_back();
                cols.back().name = x.name;
                cols.back().type = x.type;
            }
        }
        else if (o < 17) {
            auto x    = sizes[o - 9];
            bool good = x.first >= 0 && x.first < n && x.second >= 0 && x.second % 8 == 0;
            if (s(mc::fmt("encoder_column_set_data_size(%d, %d)", x.first, x.second), good ? OK : ERR, [&] { return odc_encoder_column_set_data_size(e, x.first, x.second); }) == OK)
                cols[x.first].size = x.second;
        }
        else if (o < 27) {
            auto x    = arrays[o - 17];
            bool good = x.col >= 0 && x.col < n && x.elem >= 0 && x.elem % 8 == 0 && x.stride >= 0 && x.stride % 8 == 0;
            auto p    = x.data ? memory(6 * 16) : nullptr;
            if (s(mc::fmt("encoder_column_set_data_array(%d, %d, %d, %s)", x.col, x.elem, x.stride, x.data ? "data" : "null"), good ? OK : ERR,
                  [&] { return odc_encoder_column_set_data_array(e, x.col, x.elem, x.stride, p.get()); }) == OK) {
                cols[x.col].size   = x.elem;
                cols[x.col].stride = x.stride;
                cols[x.col].data   = p;
                cols[x.col].set    = true;
            }
        }
        else if (o < 39) {
            auto x    = images[o - 27];
            bool good = x.w >= 0 && x.h >= 0 && x.cmw >= 0 && x.cmw % 8 == 0;
            auto p    = x.data && good ? memory(x.w * x.h) : x.data ? memory(8) : nullptr;
            if (s(mc::fmt("encoder_set_data_array(%s, %ld, %ld, %d)", x.data ? "data" : "null", x.w, x.h, x.cmw), !good ? ERR : x.data ? OK : NOT_DONE,
                  [&] { return odc_encoder_set_data_array(e, p.get(), x.w, x.h, x.cmw); }) == OK) {
                // setting it again starts afresh
                if (hasArray && array)
                    for (auto& k : cols) {
                        k.data.reset();
                        k.set    = false;
                        k.stride = 0;
                    }
                if (hasArray && array)
                    fresh = true;
                hasArray = true;
                zeroRows = false;
                array    = p;
                width    = x.w;
                height   = x.h;
                cmw      = x.cmw;
            }
        }
        else if (o < 48) {
            auto x    = bitfields[o - 39];
            bool good = x.col >= 0 && x.col < n && x.bits > 0;
            int total = x.bits;
            if (good)
                for (auto& b : cols[x.col].bits)
                    total += b.second;
            good = good && total <= 32;
            if (s(mc::fmt("encoder_column_add_bitfield(%d, '%s', %d)", x.col, x.name, x.bits), good ? (*x.name ? OK : NOT_DONE) : ERR,
                  [&] { return odc_encoder_column_add_bitfield(e, x.col, x.name, x.bits); }) == OK)
                cols[x.col].bits.emplace_back(x.name, x.bits);
        }
        else if (o < 53) {
            long k = std::vector<long>{-1, 0, 1, 2, 5}[o - 48];
            if (s(mc::fmt("encoder_set_row_count(%ld)", k), k < 0 ? ERR : OK, [&] { return odc_encoder_set_row_count(e, k); }) == OK) {
                rows     = k;
                zeroRows = k == 0 && hasArray;  // as many as the array has, or none
            }
        }
        else if (o < 57) {
            long k = std::vector<long>{-1, 0, 1, 2}[o - 53];
            if (s(mc::fmt("encoder_set_rows_per_frame(%ld)", k), k <= 0 ? NOT_DONE : OK, [&] { return odc_encoder_set_rows_per_frame(e, k); }) == OK)
                rpf = k;
        }
        else if (o < 59) {
            const char* k = o == 57 ? "key" : "";
            if (s(std::string("encoder_add_property('") + k + "', v)", *k ? OK : NOT_DONE, [&] { return odc_encoder_add_property(e, k, "v"); }) == OK)
                props[k] = "v";
        }
        else
            encode(o - 59);
    }

    // 0 to a buffer, 1 to a stream, 2 to a buffer which is too small, 3 to a stream which fails, 4 to a file descriptor which cannot be written
    void encode(int how) {
        bool mustFail = how >= 2 || cols.empty(), sane = fresh && !strange && !mustFail;
        // what there is to encode
        Tab t;
        long nrows = rows;
        long total = 0;
        if (hasArray && array) {
            if (nrows == 0)
                nrows = height;
            if (nrows > height)
                mustFail = true;
        }
        if (hasArray && !array)
            sane = false;  // rows, but no data
        if (hasArray && !array && nrows == 0)
            nrows = height;
        if (nrows == 0)
            mustFail = true;
        bool predictable = true;
        for (auto& k : cols) {
            ECol col = k;
            if (col.size == 0)
                col.size = 8;
            if (col.type != STRING && col.size != 8)
                predictable = sane = false;  // whether that means anything
            if (hasArray && array) {
                if (col.set)
                    predictable = sane = false;  // both an array and data of its own
                if (cmw && col.size % cmw)
                    sane = false;
                if (cmw > 8)
                    sane = false;
            }
            else if (!col.data)
                mustFail = true;
            else if (col.stride && col.stride < col.size)
                sane = false;
            else if ((col.stride ? col.stride : col.size) * (nrows - 1) + col.size > 6 * 16) {
                // our memory is too small for what was asked for: not a matter of odc's
                c.skip();
            }
            total += col.size;
        }
        if (hasArray && array && total > width)
            mustFail = true;
        if (hasArray && array && (width % 8 || (cmw == 16 && width % 16)))
            sane = false;
        if (rpf <= 0)
            sane = false;
        if (how >= 2 || zeroRows)
            sane = false;
        if (!fresh)
            mustFail = how >= 2;  // encoding again may be refused, or do the right thing
        char* buffer = new char[20000];
        memset(buffer, 0x77, 20000);
        std::unique_ptr<char[]> own(buffer);
        std::unique_ptr<char[]> small(new char[60]);
        long n = -5;
        std::string streamed;
        int got = s(how == 0 ? "encode_to_buffer" : how == 1 ? "encode_to_stream" : how == 2 ? "encode_to_buffer(60 bytes)" : how == 3 ? "encode_to_stream(failing)" : "encode_to_file_descriptor(read only)",
                    mustFail ? ERR : sane ? OK : NOT_DONE, [&]() -> int {
                        if (how == 0)
                            return odc_encode_to_buffer(e, buffer, 20000, &n);
                        if (how == 1)
                            return odc_encode_to_stream(e, &streamed, [](void* to, const void* p, long k) -> long { static_cast<std::string*>(to)->append((const char*)p, k); return k; }, &n);
                        if (how == 2)
                            return odc_encode_to_buffer(e, small.get(), 60, &n);
                        if (how == 3)
                            return odc_encode_to_stream(e, nullptr, [](void*, const void*, long) -> long { return -1; }, &n);
                        int fd = open("/dev/null", O_RDONLY);
                        int rc = odc_encode_to_file_descriptor(e, fd, &n);
                        close(fd);
                        return rc;
                    });
        fresh = false;
        if (got != OK) {
            c.check(n == -5, "a failing encode gives a length", s.history + mc::fmt(": %ld", n));
            return;
        }
        std::string odb = how == 0 ? std::string(buffer, n > 0 && n <= 20000 ? n : 0) : streamed;
        c.check(n > 0 && n == long(odb.size()), "encode: length", s.history + mc::fmt(": %ld", n));
        if (!predictable || strange)
            return;
        std::vector<Frame> fs;
        std::string err = thrown([&] { fs = readAllC(odb); });
        c.check(err.empty(), "encode: unreadable", s.history + ": " + err);
        long r = 0, off = 0;
        for (auto& f : fs) {
            for (auto& kv : props)
                c.check(f.props.count(kv.first) && f.props.at(kv.first) == kv.second, "encode: properties", s.history);
            c.check(f.cols.size() == cols.size(), "encode: columns", s.history);
            c.check(long(f.rows.size()) <= rpf, "encode: rows per frame", s.history);
            for (size_t k = 0; k < f.rows.size(); k++, r++) {
                off = 0;
                for (size_t i = 0; i < cols.size(); i++) {
                    ECol& col = cols[i];
                    int size  = col.size ? col.size : 8;
                    c.check(f.cols[i].name == col.name && f.cols[i].type == col.type, "encode: columns", s.history);
                    if (col.type == BITFIELD)
                        c.check(f.cols[i].bits == col.bits, "encode: bitfields", s.history);
                    const char* base;
                    if (hasArray && array) {
                        base = cmw ? array.get() + off * height + r * cmw : array.get() + r * width + off;
                    }
                    else
                        base = col.data.get() + r * (col.stride ? col.stride : size);
                    off += size;
                    long v;
                    memcpy(&v, base, 8);
                    Raw want = rI(v), have = f.rows[k][i].substr(0, 8);
                    if (col.type == REAL)
                        continue;
                    if (col.type == STRING ? asS(want) != asS(have) : want != have)
                        c.fail("encode: values", s.history + mc::fmt(": row %ld column %zu is ", r, i) + show(have, col.type) + " instead of " + show(want, col.type));
                }
            }
        }
        c.check(r == nrows, "encode: rows", s.history + mc::fmt(": %ld instead of %ld", r, nrows));
        c.nontrivial();
    }
};

void encoders(mc::Ctx& c) {
    EncoderWorld w(c);
    int start = c.choose(5);
    // a prefix of sensible calls
    if (start >= 1)
        w.op(0);
    if (start >= 2)
        w.op(1);
    if (start == 3)
        w.op(27);  // an array of two columns
    if (start == 4) {
        w.op(17);  // data of their own
        w.op(20);
        w.op(51);  // two rows
    }
    int depth = c.thorough || start >= 3 ? 3 : 2;
    for (int i = 0; i < depth; i++) {
        int o = c.choose(65);
        if (i == 0)
            c.shard();
        if (o == 64)
            break;
        w.op(o);
    }
    w.encode(c.thorough ? c.choose(2) : 0);
}

//----------------------------------------------------------------------------------------------------------------------
// damaged data: an error, and calls after it

void damaged(mc::Ctx& c) {
    Session s(c);
    static const std::vector<std::string> pieces = {encodeC(tabA(), ROWMAJOR), encodeC(tabB(), ROWMAJOR)};
    std::string bytes = pieces[0] + pieces[1];
    // where the second frame ends too early, or is damaged in its header
    size_t cut = c.choose(5);
    if (cut == 0)
        bytes.resize(bytes.size() - 1);
    else if (cut == 1)
        bytes.resize(pieces[0].size() + 20);
    else if (cut == 2)
        bytes[pieces[0].size() + 60] ^= 0x40;
    else if (cut == 3)
        bytes[pieces[0].size()] ^= 1;
    else
        bytes += "trailing rubbish which is no frame";
    size_t good = cut == 4 ? 2 : 1;
    bool agg    = c.flip();
    std::unique_ptr<char[]> exact(new char[bytes.size()]);
    memcpy(exact.get(), bytes.data(), bytes.size());
    odc_reader_t* r = nullptr;
    odc_frame_t *f = nullptr, *k = nullptr;
    CAPI(odc_open_buffer(&r, exact.get(), bytes.size()));
    CAPI(odc_new_frame(&f, r));
    bool failed  = false;
    size_t seen  = 0;
    int depth    = c.thorough ? 6 : 5;
    Frame kept;
    for (int i = 0; i < depth; i++) {
        int op = c.choose(4);
        if (op == 0) {
            int got = s("next_frame", failed ? NOT_DONE | DONE : agg ? NOT_DONE : seen < good ? (cut == 0 ? NOT_DONE : OK) : ERR,
                        [&] { return agg ? odc_next_frame_aggregated(f, 1000) : odc_next_frame(f); });
            if (got == ERR)
                failed = true;
            else if (got == OK)
                seen++;
            if (failed)
                c.check(got != OK, "reading goes on after an error", s.history);
        }
        else if (op == 1 && !k) {
            if (s("copy_frame", NOT_DONE, [&] { return odc_copy_frame(f, &k); }) == OK && seen && !failed)
                thrown([&] { kept = decodeFrameC(k); });
            else if (!k)
                k = nullptr;
        }
        else if (op == 2) {
            long n;
            int m;
            s("frame_row_count", NOT_DONE, [&] { return odc_frame_row_count(f, &n); });
            s("frame_properties_count", NOT_DONE, [&] { return odc_frame_properties_count(f, &m); });
        }
        else if (op == 3) {
            odc_decoder_t* d = nullptr;
            CAPI(odc_new_decoder(&d));
            long n;
            s("decoder_defaults_from_frame", NOT_DONE, [&] { return odc_decoder_defaults_from_frame(d, f); });
            s("decode", NOT_DONE, [&] { return odc_decode(d, f, &n); });
            odc_free_decoder(d);
        }
    }
    if (!kept.rows.empty()) {
        Frame again;
        std::string err = thrown([&] { again = decodeFrameC(k); });
        c.check(err.empty() && again.rows == kept.rows && again.props == kept.props, "a copied frame changes", s.history + err);
        c.nontrivial();
    }
    if (failed)
        c.nontrivial();
    if (k)
        odc_free_frame(k);
    odc_free_frame(f);
    odc_close(r);
}

}  // namespace

std::vector<mc::Scenario> scenarios() {
    mc::workerInit = [] { H::init(); };
    return {
        {"frames", "every sequence of up to 5 calls (thorough 6) of reading two frames, one by one or aggregated, copying, querying and freeing", frames},
        {"queries", "every sequence of 2 queries (thorough 3) of 19 with valid and invalid arguments, on a frame in 8 states, 3 ways of reading", queries},
        {"nulls", "every pair (thorough triple) of 84 calls with null pointers, bad descriptors and lengths", nulls},
        {"handlers", "5 calls of installing none, one or another failure handler and of failing in two ways", handlers},
        {"decoders", "every sequence of 1 to 3 calls (thorough 3) of 53 which configure, query and use a decoder, with valid and invalid arguments, on no frame and three frames", decoders},
        {"encoders", "every sequence of 2 or 3 calls (thorough 3) of 64 which configure and use an encoder, with valid and invalid arguments, from 5 states", encoders},
        {"damaged", "5 kinds of damage, and every sequence of 5 calls (thorough 6) of reading, copying, querying and decoding", damaged},
    };
}
