// P01 reload, P02 truncated or failing streams, P03 saving on failing storage, P04 encrypted streams.
#include "bench.h"
#include "api/module.h"
#include "api/tensor.h"
#include "api/common.h"
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "encryption/encrypted_fstream.h"
#include "module/header.h"
using namespace scn;
using namespace bench;

namespace {
// ------------------------------------------------------------------ streams a user may pass
enum Ending { END_ZERO, END_THROW, END_NEGATIVE, ENDINGS };
struct ChunkReader : public StreamReaderV2 {
    std::string data; size_t pos = 0, limit; Rng r; int piece; int ending; bool throws_plain = false;
    bool ended = false;
    ChunkReader(std::string d, Rng rr, int pc, size_t lim = size_t(-1), int end = END_ZERO) : data(std::move(d)), limit(lim), r(rr), piece(pc), ending(end) {}
    size_t read(void *buf, size_t n) override {
        size_t all = std::min(data.size(), limit);
        size_t left = pos < all ? all - pos : 0;
        if (n == 0) return 0;
        if (left == 0) {
            if (!ended) sim::tag(ending == END_ZERO ? "stream_end" : ending == END_THROW ? "stream_throw" : "stream_negative");
            ended = true;
            if (ending == END_THROW) throw Exception("the stream failed");
            if (ending == END_NEGATIVE) return size_t(-1);
            return 0;
        }
        size_t k = std::min(n, left);
        if (piece > 0) { size_t c = 1 + r.below(piece); if (c < k) { k = c; sim::tag("stream_short_reads"); } }
        std::memcpy(buf, data.data() + pos, k);
        pos += k;
        return k;
    }
    void rewind() override { pos = 0; }
};
struct ChunkWriter : public StreamWriter {
    std::string data; size_t limit; Rng r; int piece; int ending; bool failed = false; bool once;
    std::vector<size_t> ends;
    ChunkWriter(Rng rr, int pc, size_t lim = size_t(-1), int end = END_ZERO, bool one = false) : limit(lim), r(rr), piece(pc), ending(end), once(one) {}
    size_t write(const void *buf, size_t n) override {
        if (n == 0) return 0;
        size_t left = data.size() < limit ? limit - data.size() : 0;
        if (left == 0) {
            if (!failed) sim::tag("stream_write_fail");
            failed = true;
            if (once) limit = size_t(-1);            // the next one works again
            if (ending == END_THROW) throw Exception("the stream failed");
            if (ending == END_NEGATIVE) return size_t(-1);
            return 0;
        }
        size_t k = std::min(n, left);
        if (piece > 0) { size_t c = 1 + r.below(piece); if (c < k) { k = c; sim::tag("stream_short_writes"); } }
        data.append((const char *)buf, k);
        ends.push_back(data.size());
        return k;
    }
};
int random_piece(Rng &r) { return r.chance(0.25) ? 0 : r.chance(0.4) ? 3 : r.chance(0.5) ? 17 : 200; }

// ------------------------------------------------------------------ what is saved
Tensor any_tensor(Rng &r, bool pack = true) {
    static const DTYPE all[] = {BOOLEAN, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT16, FLOAT32, FLOAT64, CHAR8, CHAR16, CHAR32};
    if (pack && r.chance(0.25)) {
        std::vector<Tensor> fs; int n = (int)r.range(2, 4);
        for (int i = 0; i < n; ++i) fs.push_back(any_tensor(r, false));
        Tensor p; p.pack(fs); return p;
    }
    Shape s; int dims = (int)r.below(5);
    for (int i = 0; i < dims; ++i) s.push_back(r.chance(0.07) ? 0 : (int)r.range(1, 5));
    Tensor t(all[r.below(sizeof all / sizeof *all)], s);
    size_t n = size_t(t.count()) * t.proto().type_bytes();
    for (size_t i = 0; i < n; ++i) ((uint8_t *)t.data())[i] = uint8_t(r.next());
    return t;
}
struct Thing {          // a model or a tensor
    bool is_module;
    Model m;
    Tensor t;
    std::string want;   // its complete content
};
std::string dump_of(const Module::shared &m) { return graph_dump(m); }
std::string dump_of(const Tensor &t) { return zoo::bytes_of(t); }
Thing any_thing(Rng &r, bool can_be_tensor = true) {
    Thing x;
    x.is_module = !can_be_tensor || r.chance(0.7);
    if (!x.is_module) { x.t = any_tensor(r); x.want = dump_of(x.t); return x; }
    zoo::Config c; c.max_ops = 5; c.max_count = 1500; c.p_big = 0; c.odd_names = r.chance(0.4); c.nul_names = r.chance(0.5); c.dup_outputs = r.chance(0.4); c.direct_outputs = r.chance(0.4);
    if (r.chance(0.3)) c.only = "*";
    x.m = zoo::make(r, c);
    if (r.chance(0.5)) {       // further parameters on some nodes
        for (auto &p : Module::list_reference_nodes(x.m.module->outputs())) if (r.chance(0.3)) {
            Node n = p.first;
            static const char *names[] = {"extra", "a longer name of a parameter", "", "\xe5\x8f\x82", "x.y"};
            n->set(names[r.below(5)], any_tensor(r));
            sim::tag("extra_params");
        }
    }
    x.want = dump_of(x.m.module);
    return x;
}

// ------------------------------------------------------------------ ways to save and load
// routes through files, streams and the C interface
void save_to(StreamWriter &w, const Thing &x) { if (x.is_module) Module::Save(w, x.m.module); else tensor::save(w, x.t); }
void save_file(const std::string &path, const Thing &x) { if (x.is_module) Module::Save(path, x.m.module); else tensor::save(path, x.t); }
bool capi_save(const std::string &path, const Thing &x) {
    ts_Tensor t(x.t);
    return ts_Tensor_save(path.c_str(), &t);
}
uint64_t c_read(void *obj, char *buf, uint64_t n) { return ((ChunkReader *)obj)->read(buf, n); }
void c_rewind(void *obj) { ((ChunkReader *)obj)->rewind(); }
std::string c_error() { const char *e = ts_last_error_message(); return e ? e : ""; }

struct Loaded { bool ok = false; Module::shared m; Tensor t; std::string dump, err; };
template <class F> Loaded take(F f) {
    Loaded l;
    try { l = f(); } catch (const std::exception &e) { l = Loaded(); l.err = e.what(); if (l.err.empty()) l.err = "(no message)"; }
    return l;
}
Loaded of_module(Module::shared m) { Loaded l; SIM_CHECK(m != nullptr, "half-loaded", "loading returns no model and reports nothing"); l.ok = true; l.m = m; l.dump = dump_of(m); return l; }
Loaded of_tensor(const Tensor &t) { Loaded l; l.ok = true; l.t = t; l.dump = dump_of(t); return l; }
Loaded of_c(ts_Module *m) {
    std::unique_ptr<ts_Module> own(m);
    if (!m) { Loaded l; l.err = c_error(); SIM_CHECK(!l.err.empty(), "no-message", "the C interface fails without a message"); return l; }
    return of_module(m->pointer);
}
Loaded of_c(ts_Tensor *t) {
    std::unique_ptr<ts_Tensor> own(t);
    if (!t) { Loaded l; l.err = c_error(); SIM_CHECK(!l.err.empty(), "no-message", "the C interface fails without a message"); return l; }
    return of_tensor(**t);
}
Loaded load_stream(bool module, ChunkReader &s, int route) {
    if (!module) return take([&] { return of_tensor(tensor::load(s)); });
    switch (route) {
        default: return take([&] { return of_module(Module::Load(s)); });
        case 1: return take([&] { return of_module(Module::LoadV2(s, nullptr, 0)); });
        case 2: if (s.ending == END_THROW) s.ending = END_ZERO; return of_c(ts_Module_LoadFromStream(&s, c_read, TS_BINARY));
        case 3: if (s.ending == END_THROW) s.ending = END_ZERO; return of_c(ts_Module_LoadFromStreamV2(&s, c_read, c_rewind, nullptr, 0, TS_BINARY));
    }
}
Loaded load_file(bool module, const std::string &path, int route) {
    if (!module) {
        if (route & 1) return of_c(ts_Tensor_load(path.c_str()));
        return take([&] { return of_tensor(tensor::load(path)); });
    }
    switch (route) {
        default: return take([&] { return of_module(Module::Load(path)); });
        case 1: return take([&] { return of_module(Module::LoadV2(path, nullptr, 0)); });
        case 2: return of_c(ts_Module_Load(path.c_str(), TS_BINARY));
        case 3: return of_c(ts_Module_LoadV2(path.c_str(), "", 0, TS_BINARY));
    }
}
std::string first_difference(const std::string &a, const std::string &b) {
    size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    std::string o = "byte " + std::to_string(k) + " of " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ": ";
    for (size_t i = k > 20 ? k - 20 : 0; i < k + 10 && i < a.size(); ++i) o += a[i] >= 32 && a[i] < 127 ? a[i] : '.';
    return o;
}
Out run_module(const Module::shared &m, const std::vector<zoo::InputSpec> &in) {
    return guarded([&] {
        auto b = Workbench::Load(m, cpu(), "");
        for (auto &i : in) b->input(i.name, zoo::deep(i.base));
        b->run();
        return read_outputs(*b);
    });
}
void leak_twice(const std::function<void(Rng)> &fn, uint64_t salt) {
    Rng r = sim::rng().fork(salt);
    ts_set_error_message(std::string(4096, 'x').c_str());    // the last message is kept for the thread: give it all the room it needs now
    for (int round = 0; round < 2; ++round) {
        uint64_t mark = sim::heap_mark();
        fn(r);
        SIM_CHECK(sim::disk_open_handles() == 0, "handle-leak", "%zu files are still open", sim::disk_open_handles());
        std::string desc;
        size_t n = sim::heap_live_since(mark, &desc);
        if (n == 0) break;
        SIM_CHECK(round == 0, "leak", "%zu blocks are still allocated after everything was released: %s", n, desc.c_str());
        sim::tag("leak_check_repeated");
    }
}
}

// ------------------------------------------------------------------ P01
static void reload_run(Rng r) {
    default_threads(1);
    Thing x = any_thing(r);
    Out ref;
    bool compare_runs = x.is_module && r.chance(0.5);
    if (compare_runs) ref = run_module(x.m.module, x.m.inputs);
    SIM_CHECK(!x.is_module || dump_of(x.m.module) == x.want, "model-changed", "running changed the model");
    const std::string path = "/sim/thing.tsm";
    Ops ops;
    int n = (int)r.range(1, 4);
    Thing cur = x;
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        int sroute = (int)q.below(4), lroute = (int)q.below(4), piece = random_piece(q);
        std::string bytes;
        if (sroute == 3 || q.chance(0.2)) sim::disk_put(path, std::string(q.below(200000), 'J'));   // something longer may be there already
        sim::DiskPlan plan; bool transient = q.chance(0.5);
        if (transient) { plan.p_short = q.unit() * 0.5; plan.p_eintr = q.unit() * 0.3; }
        sim::disk_arm(plan);
        try {
            switch (sroute) {
                case 0: { StringStreamWriter w; save_to(w, cur); bytes = w.str(); break; }
                case 1: { ChunkWriter w(q, piece); save_to(w, cur); bytes = w.data; break; }
                case 2: { FileStreamWriter w(path); save_to(w, cur); w.close(); break; }
                case 3: if (!cur.is_module && q.chance(0.5)) { SIM_CHECK(capi_save(path, cur), "save-failed", "saving failed without a fault: %s", c_error().c_str()); } else save_file(path, cur); break;
            }
        } catch (const Exception &e) { sim::violation("save-failed", "saving failed without a fault: %s", e.what()); }
        sim::disk_disarm();
        if (sroute >= 2) SIM_CHECK(sim::disk_get(path, bytes), "save-failed", "no file was written");
        bool by_file = q.chance(0.5);
        Loaded l;
        if (by_file) {
            sim::disk_put(path, bytes);
            if (transient) sim::disk_arm(plan);
            l = load_file(cur.is_module, path, lroute);
            if (transient) sim::disk_disarm();
        } else {
            ChunkReader s(bytes, q, random_piece(q));
            l = load_stream(cur.is_module, s, lroute);
            SIM_CHECK(!l.ok || s.pos == bytes.size(), "not-consumed", "loading leaves %zu of %zu bytes unread", bytes.size() - s.pos, bytes.size());
        }
        SIM_CHECK(l.ok, "load-failed", "loading what was saved failed: %s", l.err.c_str());
        SIM_CHECK(l.dump == x.want, "reload-differs", "after saving and loading: %s", first_difference(l.dump, x.want).c_str());
        cur.m.module = l.m; cur.t = l.t;
        sim::tag(cur.is_module ? "models_reloaded" : "tensors_reloaded");
    }
    if (compare_runs) {
        Out o = run_module(cur.m.module, x.m.inputs);
        SIM_CHECK(o.same(ref), "reload-computes-differently", "%s", where_differs(o, ref).c_str());
        sim::tag("runs_compared");
    }
    // several things one after the other in one stream
    if (r.chance(0.3)) {
        std::vector<Thing> ts; int k = (int)r.range(2, 4);
        for (int i = 0; i < k; ++i) ts.push_back(r.chance(0.3) ? x : any_thing(r));
        ChunkWriter w(r, random_piece(r));
        for (auto &t : ts) save_to(w, t);
        ChunkReader s(w.data, r, random_piece(r));
        for (auto &t : ts) {
            Loaded l = load_stream(t.is_module, s, 0);
            SIM_CHECK(l.ok, "load-failed", "loading one of several things in a stream failed: %s", l.err.c_str());
            SIM_CHECK(l.dump == t.want, "reload-differs", "one of several things in a stream: %s", first_difference(l.dump, t.want).c_str());
        }
        sim::tag("streams_of_several");
    }
    sim::disk_remove(path);
    sim::cover(zoo::hash_of(x.want));
    sim::event(zoo::hash_of(x.want));
}
SCENARIO(reload, "P01") { leak_twice(reload_run, 1); }

// ------------------------------------------------------------------ P02
static void truncated_run(Rng r) {
    Thing x = any_thing(r);
    ChunkWriter w(r, 0);
    save_to(w, x);
    const std::string bytes = w.data, path = "/sim/thing.tsm";
    Ops ops;
    int n = (int)r.range(3, 9);
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        size_t cut;
        switch (q.below(4)) {
            case 0: cut = q.below(bytes.size()); break;
            case 1: { size_t e = w.ends[q.below(w.ends.size())]; cut = e == bytes.size() ? e - 1 : e; break; }
            case 2: { size_t e = w.ends[q.below(w.ends.size())]; cut = e > 1 ? e - 1 : 0; break; }
            default: cut = bytes.size() - 1 - q.below(std::min<size_t>(bytes.size(), 12)); break;
        }
        int route = (int)q.below(4);
        bool file = q.chance(0.5);
        const char *what;
        Loaded l;
        uint64_t mark = sim::heap_mark();
        if (!file) {
            what = "a stream that ends early";
            ChunkReader s(bytes, q, random_piece(q), cut, (int)q.below(ENDINGS));
            if (s.ending) what = "a stream that fails";
            l = load_stream(x.is_module, s, route);
        } else if (q.chance(0.5)) {
            what = "a truncated file";
            sim::disk_put(path, bytes.substr(0, cut));
            l = load_file(x.is_module, path, route);
            sim::tag("disk_truncated");
        } else {
            what = "a file whose reads fail";
            sim::disk_put(path, bytes);
            sim::DiskPlan p; p.read_at = 1 + (int)q.below(std::max<size_t>(1, bytes.size() / 8191)); p.read_kind = sim::IO_EIO; p.read_sticky = true;
            if (q.chance(0.4)) p.read_sticky = false;
            sim::disk_arm(p);
            l = load_file(x.is_module, path, route);
            auto seen = sim::disk_disarm();
            if (!seen.fired) { SIM_CHECK(l.ok && l.dump == x.want, "load-failed", "an undisturbed load fails: %s", l.err.c_str()); continue; }
            if (l.ok && l.dump == x.want && !p.read_sticky) continue;
        }
        SIM_CHECK(!l.ok, "half-loaded", "loading %s (%zu of %zu bytes) reports success and returns %s", what, cut, bytes.size(), l.dump == x.want ? "the object" : "another object");
        SIM_CHECK(sim::disk_open_handles() == 0, "handle-leak", "a failed load leaves a file open");
        l = Loaded();
        (void)mark;
        sim::tag("loads_failing");
        // and the intact data still load
        if (q.chance(0.5)) {
            ChunkReader s(bytes, q, random_piece(q));
            l = load_stream(x.is_module, s, (int)q.below(4));
        } else { sim::disk_put(path, bytes); l = load_file(x.is_module, path, (int)q.below(4)); }
        SIM_CHECK(l.ok, "load-failed", "the intact data do not load after a failed load: %s", l.err.c_str());
        SIM_CHECK(l.dump == x.want, "reload-differs", "the intact data after a failed load: %s", first_difference(l.dump, x.want).c_str());
    }
    sim::disk_remove(path);
    sim::cover(zoo::hash_of(x.want));
}
SCENARIO(truncated, "P02") { default_threads(1); leak_twice(truncated_run, 2); }

// ------------------------------------------------------------------ P03
static void save_faults_run(Rng r) {
    Thing x = any_thing(r);
    if (r.chance(0.25)) {         // larger than the buffers
        if (!x.is_module) { x.t = zoo::rndf(r, {(int)r.range(900, 9000)}); x.want = dump_of(x.t); }
    }
    std::string bytes;
    { StringStreamWriter w; save_to(w, x); bytes = w.str(); }
    const std::string path = "/sim/thing.tsm";
    Ops ops;
    int n = (int)r.range(3, 8);
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        bool ok = false, fired; std::string err, stored;
        if (q.chance(0.35)) {          // a user stream that refuses
            ChunkWriter w(q, random_piece(q), q.chance(0.8) ? q.below(bytes.size()) : bytes.size() + q.below(5), (int)q.below(ENDINGS), q.chance(0.4));
            try { save_to(w, x); ok = true; } catch (const Exception &e) { err = e.what(); }
            fired = w.failed; stored = w.data;
        } else {
            sim::disk_remove(path);
            if (q.chance(0.3)) sim::disk_put(path, std::string(q.below(300), 'J'));
            sim::DiskPlan p;
            size_t writes = bytes.size() / 8192 + 2;
            switch (q.below(5)) {
                case 0: p.write_at = 1 + q.below(writes); p.write_kind = sim::IO_EIO; p.write_sticky = q.chance(0.5); break;
                case 1: p.write_at = 1 + q.below(writes); p.write_kind = sim::IO_ENOSPC; p.write_sticky = q.chance(0.5); p.write_len = q.below(50); break;
                case 2: p.capacity = q.below(bytes.size() + 100); break;
                case 3: p.close_at = 1; break;
                case 4: if (q.chance(0.3)) p.open_at = 1; break;
            }
            if (q.chance(0.3)) { p.p_short = 0.3; p.p_eintr = 0.2; }
            bool by_stream = q.chance(0.25);
            sim::disk_arm(p);
            if (by_stream) {           // the stream is the caller's: open, save, close, and look at its state
                try { FileStreamWriter w(path); if (!w.is_open()) throw Exception("not open"); save_to(w, x); w.close(); ok = w.stream().good(); } catch (const Exception &e) { err = e.what(); }
            } else if (!x.is_module && q.chance(0.5)) { ok = capi_save(path, x); if (!ok) { err = c_error(); SIM_CHECK(!err.empty(), "no-message", "saving fails without a message"); } }
            else try { save_file(path, x); ok = true; } catch (const Exception &e) { err = e.what(); }
            auto seen = sim::disk_disarm();
            fired = seen.fired > 0 ;
            sim::disk_get(path, stored);
        }
        if (ok) {
            SIM_CHECK(stored.size() == bytes.size(), "save-lost", "saving reports success, but %zu of %zu bytes are on the storage", stored.size(), bytes.size());
            ChunkReader s(stored, q, 0);
            Loaded l = load_stream(x.is_module, s, 0);
            SIM_CHECK(l.ok && l.dump == x.want, "save-lost", "saving reports success, but the stored data %s", l.ok ? "are another object" : "do not load");
            sim::tag(fired ? "saves_despite_fault" : "saves");
        } else {
            SIM_CHECK(fired, "save-failed", "saving failed without a fault: %s", err.c_str());
            sim::tag("saves_failing");
            // the process stays usable
            sim::disk_remove(path);
            try { save_file(path, x); } catch (const Exception &e) { sim::violation("save-failed", "saving fails after a failed save: %s", e.what()); }
            Loaded l = load_file(x.is_module, path, (int)q.below(4));
            SIM_CHECK(l.ok && l.dump == x.want, "save-lost", "saved after a failed save, loading gives %s", l.ok ? "another object" : l.err.c_str());
        }
        SIM_CHECK(sim::disk_open_handles() == 0, "handle-leak", "saving leaves a file open");
        if (x.is_module) SIM_CHECK(dump_of(x.m.module) == x.want, "model-changed", "saving changed the model");
    }
    sim::disk_remove(path);
    sim::cover(zoo::hash_of(x.want));
}
SCENARIO(save_faults, "P03") { default_threads(1); leak_twice(save_faults_run, 3); }

// ------------------------------------------------------------------ P04
// Writes data through an encrypted stream. False: a failure was reported.
static bool encrypt(Rng &q, const std::string &path, const std::string &key, const std::string &data, std::string &err) {
    try {
        EncryptedFileStreamWriter w(path, key);
        if (!w.is_open()) { err = "not open"; return false; }
        size_t at = 0;
        int piece = random_piece(q);
        while (at < data.size()) {
            size_t n = data.size() - at;
            if (piece) n = std::min<size_t>(n, q.below(piece + 1));
            size_t k = w.write(data.data() + at, n);
            if (k != n) { err = "short write"; return false; }
            at += n;
        }
        w.close();
        return true;
    } catch (const Exception &e) { err = e.what(); return false; }
}
struct Decrypted { std::string got; bool failed = false; };
static Decrypted decrypt(Rng &q, const std::string &path, const std::string &key, size_t budget) {
    Decrypted d;
    try {
        EncryptedFileStreamReader s(path, key);
        if (!s.is_open()) { d.failed = true; return d; }
        int piece = random_piece(q); if (!piece) piece = 5000;
        for (int guard = 0; guard < 100000; ++guard) {
            size_t n = 1 + q.below(piece);
            std::vector<char> buf(n);             // a heap block of exactly this size
            size_t k = s.read(buf.data(), n);
            SIM_CHECK(k <= n, "too-much", "reading %zu bytes returns %zu", n, k);
            if (k == 0) break;
            d.got.append(buf.data(), k);
            SIM_CHECK(d.got.size() <= budget, "too-much", "reading gives %zu bytes, more than the %zu stored", d.got.size(), budget);
            if (k < n && q.chance(0.5)) break;
        }
    } catch (const Exception &) { d.failed = true; }
    return d;
}
static void aes_run(Rng r) {
    const std::string path = "/sim/secret";
    Ops ops;
    int n = (int)r.range(3, 10);
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        std::string data(q.chance(0.3) ? 16 * q.below(6) : q.chance(0.8) ? q.below(130) : q.below(20000), 0);
        for (auto &c : data) c = q.chance(0.2) ? char(q.below(20)) : char(q.next());
        std::string key(q.chance(0.2) ? 32 : q.chance(0.1) ? q.range(33, 40) : q.below(32), 0);
        for (auto &c : key) c = char(q.next());
        int fault = (int)q.below(7);
        sim::disk_remove(path);
        if (q.chance(0.2)) sim::disk_put(path, std::string(q.below(40000), 'J'));
        sim::DiskPlan p; std::string err, stored;
        if (q.chance(0.4)) { p.p_short = q.unit() * 0.5; p.p_eintr = 0.2; }
        if (fault == 0) {
            size_t writes = data.size() / 8192 + 2;
            switch (q.below(4)) {
                case 0: p.write_at = 1 + q.below(writes); p.write_kind = sim::IO_EIO; p.write_sticky = q.chance(0.5); break;
                case 1: p.write_at = 1 + q.below(writes); p.write_kind = sim::IO_ENOSPC; p.write_len = q.below(50); break;
                case 2: p.capacity = q.below(data.size() + 20); break;
                case 3: p.close_at = 1; break;
            }
        }
        sim::disk_arm(p);
        bool ok = encrypt(q, path, key, data, err);
        auto seen = sim::disk_disarm();
        SIM_CHECK(sim::disk_open_handles() == 0, "handle-leak", "an encrypted file is still open");
        if (!ok) { SIM_CHECK(seen.fired, "write-failed", "writing %zu bytes failed without a fault: %s", data.size(), err.c_str()); sim::tag("encrypted_writes_failing"); continue; }
        if (!sim::disk_get(path, stored)) stored.clear();
        SIM_CHECK(stored.size() >= data.size(), "save-lost", "writing reports success, but %zu bytes are stored of %zu", stored.size(), data.size());
        if (p.p_short > 0) sim::disk_arm(p);
        Decrypted d = decrypt(q, path, key, stored.size());
        if (p.p_short > 0) sim::disk_disarm();
        SIM_CHECK(d.got == data, "content", "written %zu bytes, read %zu (%s)", data.size(), d.got.size(), first_difference(d.got, data).c_str());
        sim::tag("encrypted_round_trips");
        switch (fault) {
            case 1: {        // another key
                std::string other = key; if (other.empty() || q.chance(0.3)) other += 'k'; else other[q.below(std::min<size_t>(32, other.size()))] ^= char(1 + q.below(255));
                Decrypted w = decrypt(q, path, other, stored.size());
                sim::tag(w.failed ? "wrong_key_reported" : "wrong_key_garbage");
                break;
            }
            case 2: {        // truncated
                size_t cut = q.chance(0.5) ? q.below(stored.size()) : q.below(stored.size() / 16 + 1) * 16;
                sim::disk_put(path, stored.substr(0, cut));
                Decrypted w = decrypt(q, path, key, cut);
                size_t whole = std::min(cut / 16 * 16, data.size());
                SIM_CHECK(w.got.size() <= cut && w.got.compare(0, std::min(w.got.size(), whole), data, 0, std::min(w.got.size(), whole)) == 0, "content", "a truncated file gives other data than were written");
                sim::tag("disk_truncated");
                break;
            }
            case 3: case 4: {      // corrupted
                std::string bad = stored;
                int flips = (int)q.range(1, 3);
                for (int k = 0; k < flips; ++k) bad[q.chance(0.5) ? bad.size() - 1 - q.below(16) : q.below(bad.size())] ^= char(1 + q.below(255));
                sim::disk_put(path, bad);
                decrypt(q, path, key, bad.size());
                sim::tag("disk_corrupted");
                break;
            }
            case 5: {      // reads that fail
                sim::DiskPlan rp; rp.read_at = 1 + q.below(stored.size() / 8191 + 1); rp.read_kind = sim::IO_EIO; rp.read_sticky = q.chance(0.7);
                sim::disk_arm(rp);
                Decrypted w = decrypt(q, path, key, stored.size());
                auto rs = sim::disk_disarm();
                SIM_CHECK(rs.fired == 0 || w.got.size() <= data.size(), "too-much", "a failing file gives more data than were written");
                SIM_CHECK(w.got == data.substr(0, w.got.size()), "content", "a failing file gives other data than were written");
                break;
            }
        }
        SIM_CHECK(sim::disk_open_handles() == 0, "handle-leak", "an encrypted file is still open");
    }
    sim::disk_remove(path);
}
SCENARIO(aes_stream, "P04") { leak_twice(aes_run, 4); }
// models through encrypted files
static void aes_model_run(Rng r) {
    Thing x = any_thing(r);
    const std::string path = "/sim/secret";
    std::string key(1 + r.below(32), 0); for (auto &c : key) c = char(r.next());
    { EncryptedFileStreamWriter w(path, key); save_to(w, x); w.close(); }
    std::string stored; SIM_CHECK(sim::disk_get(path, stored), "save-lost", "no file was written");
    auto load = [&](const std::string &k) { return take([&] { EncryptedFileStreamReader s(path, k); return x.is_module ? of_module(Module::Load(s)) : of_tensor(tensor::load(s)); }); };
    Loaded l = load(key);
    SIM_CHECK(l.ok, "load-failed", "an encrypted model does not load: %s", l.err.c_str());
    SIM_CHECK(l.dump == x.want, "reload-differs", "%s", first_difference(l.dump, x.want).c_str());
    l = Loaded();
    int n = (int)r.range(1, 4);
    Ops ops;
    for (int i = 0; i < n; ++i) {
        Rng q(r.next());
        if (!ops.next()) continue;
        size_t cut = q.chance(0.5) ? q.below(stored.size()) : q.below((stored.size() + 15) / 16) * 16;
        sim::disk_put(path, stored.substr(0, cut));
        Loaded t = load(key);
        // the padding holds no data: all of the data may be there although the file is not complete
        StringStreamWriter w; save_to(w, x);
        bool complete = false;
        SIM_CHECK(!t.ok || complete, "half-loaded", "an encrypted file cut to %zu of %zu bytes loads", cut, stored.size());
        sim::tag("disk_truncated");
    }
    if (x.is_module) {
        sim::disk_put(path, stored);
        std::string other = key; other[r.below(other.size())] ^= char(1 + r.below(255));
        Loaded t = load(other);
        SIM_CHECK(!t.ok, "half-loaded", "a model loads with another key");
    }
    sim::disk_remove(path);
}
SCENARIO(aes_model, "P04") { default_threads(1); leak_twice(aes_model_run, 5); }
