// Workbench scenarios: a reference is what a fresh workbench computes with the same model, settings and inputs.
#pragma once
#include "zoo.h"
#include "board/hook.h"
#include "board/profiler.h"
#include "runtime/program.h"
#include <cstdlib>

namespace bench {
using namespace ts;
using scn::Rng;
using zoo::Model;
using zoo::cpu;

inline void default_threads(int n) { setenv("TENNIS_NUMBER_THREADS", std::to_string(n).c_str(), 1); }

// ------------------------------------------------------------------ image filters
struct FilterOp { int kind; std::vector<float> f; std::vector<int> i; };
using FilterSpec = std::vector<FilterOp>;
inline FilterSpec random_filter(Rng &r, int channels) {
    FilterSpec s;
    int n = (int)r.range(1, 3);
    if (r.chance(0.6)) s.push_back({0, {}, {}});
    for (int k = 0; k < n; ++k) {
        FilterOp o{(int)r.range(1, 11), {}, {}};
        switch (o.kind) {
            case 1: o.f = {float(0.25 + r.unit())}; break;                                       // scale
            case 2: case 3: for (int c = 0; c < channels; ++c) o.f.push_back(float(0.5 + r.unit())); break;  // sub_mean, div_std
            case 4: o.i = {(int)r.range(2, 9), (int)r.range(2, 9), (int)r.below(4)}; break;      // resize
            case 5: o.i = {(int)r.range(2, 9), (int)r.below(4)}; break;                          // short side
            case 6: o.i = {(int)r.range(2, 9), (int)r.range(2, 9)}; break;                       // center crop
            case 7: for (int c = 0; c < channels; ++c) o.i.push_back((int)r.below(channels)); break;
            case 8: o.i = {(int)r.range(2, 9), (int)r.range(2, 9), (int)r.below(4)}; o.f = {float(r.unit())}; break;  // letterbox
            case 9: o.i = {(int)r.range(1, 4), (int)r.range(1, 4)}; o.f = {float(r.unit())}; break;  // divided
            case 10: o.f = {1e-5f}; break;                                                       // norm_image
            case 11: break;                                                                      // prewhiten
        }
        s.push_back(o);
    }
    return s;
}
inline ImageFilter::shared build(const FilterSpec &s) {
    auto f = std::make_shared<ImageFilter>(cpu());
    for (auto &o : s) {
        switch (o.kind) {
            case 0: f->to_float(); break;
            case 1: f->scale(o.f[0]); break;
            case 2: f->sub_mean(o.f); break;
            case 3: f->div_std(o.f); break;
            case 4: f->resize(o.i[0], o.i[1], ImageFilter::ResizeMethod(o.i[2])); break;
            case 5: f->resize(o.i[0], ImageFilter::ResizeMethod(o.i[1])); break;
            case 6: f->center_crop(o.i[0], o.i[1]); break;
            case 7: f->channel_swap(o.i); break;
            case 8: f->letterbox(o.i[0], o.i[1], o.f[0], ImageFilter::ResizeMethod(o.i[2])); break;
            case 9: f->divided(o.i[0], o.i[1], o.f[0]); break;
            case 10: f->norm_image(o.f[0]); break;
            case 11: f->prewhiten(); break;
        }
    }
    return f;
}

// everything a graph holds, starting at its outputs, independent of addresses
inline std::string graph_dump(const Module::shared &m) {
    std::map<const void *, int> ids;
    std::string o;
    std::function<void(const Node &)> walk = [&](const Node &n) {
        if (ids.count(n.ptr())) { o += "#" + std::to_string(ids[n.ptr()]); return; }
        int id = (int)ids.size(); ids[n.ptr()] = id;
        auto &b = n.bubble();
        o += "(" + b.name() + "/" + b.op();
        std::map<std::string, std::string> ps;
        for (auto &p : b.params()) ps[p.first] = zoo::bytes_of(p.second);
        for (auto &p : ps) o += " " + p.first + "=" + p.second;
        for (auto &i : n.inputs()) walk(i);
        o += ")";
    };
    for (auto &i : m->inputs()) { o += " in:"; walk(i); }
    for (auto &x : m->outputs()) { o += " out:"; walk(x); }
    return o;
}

// ------------------------------------------------------------------ settings and results
struct Conf {
    std::map<std::pair<std::string, std::string>, float> params;
    std::map<int, int> filters;          // slot -> index of a FilterSpec
    bool operator<(const Conf &o) const { return params != o.params ? params < o.params : filters < o.filters; }
};
struct Out {
    bool ok = false;
    std::string err;
    std::vector<std::string> bytes;
    bool same(const Out &o) const { return ok == o.ok && bytes == o.bytes; }
    uint64_t hash() const { uint64_t h = ok; for (auto &b : bytes) h = sim::mix(h, zoo::hash_of(b)); return h; }
};
inline std::string pack_out(const Out &o) {
    std::string s(1, o.ok ? 1 : 2);
    auto put = [&](const std::string &x) { uint64_t n = x.size(); s.append((const char *)&n, 8); s += x; };
    put(o.err); for (auto &b : o.bytes) put(b);
    return s;
}
inline Out unpack_out(const std::string &s) {
    Out o; o.ok = s[0] == 1; size_t p = 1; bool first = true;
    while (p < s.size()) { uint64_t n; memcpy(&n, &s[p], 8); std::string x = s.substr(p + 8, n); p += 8 + n; if (first) o.err = x; else o.bytes.push_back(x); first = false; }
    return o;
}
inline Out read_outputs(Workbench &b) {
    Out o; o.ok = true;
    for (int i = 0; i < b.output_count(); ++i) o.bytes.push_back(zoo::bytes_of(b.output(i)));
    if (b.m_desktop) {                  // the same outputs by name
        auto &names = b.m_desktop->output_names();
        for (int i = 0; i < b.output_count() && i < (int)names.size(); ++i)
            SIM_CHECK(zoo::bytes_of(b.output(names[i])) == o.bytes[b.m_desktop->output_slot(names[i])], "output-by-name", "output %d read by its name %s is another value", i, names[i].c_str());
    }
    return o;
}
inline std::string where_differs(const Out &a, const Out &b) {
    if (a.ok != b.ok) return std::string(a.ok ? "succeeded" : "failed: " + a.err) + ", expected " + (b.ok ? "success" : "failure: " + b.err);
    if (a.bytes.size() != b.bytes.size()) return "number of outputs differs";
    for (size_t i = 0; i < a.bytes.size(); ++i) if (a.bytes[i] != b.bytes[i]) {
        auto &x = a.bytes[i], &y = b.bytes[i];
        size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
        return "output " + std::to_string(i) + " differs at byte " + std::to_string(k) + " of " + std::to_string(x.size()) + "/" + std::to_string(y.size()) + " (" +
               std::string(x.c_str(), std::min<size_t>(x.find('\0') == std::string::npos ? x.size() : x.find('\0'), 24)) + ")";
    }
    return "equal";
}
template <class F> inline Out guarded(F f) {
    Out o;
    try { o = f(); } catch (const std::exception &e) { o.ok = false; o.err = e.what(); o.bytes.clear(); }
    return o;
}

// Let a workbench take every block from the heap instead of its pool, so that each access outside a block is seen.
template <class B> inline auto unpooled(B &b, int) -> decltype(b.m_stack = std::make_shared<Stack>(b.device().memory_device, b.m_flow_memory), void()) {
    auto d = b.device().memory_device;
    b.m_flow_memory = DynamicSyncMemoryController::Make(d, false);
    b.m_stack = std::make_shared<Stack>(d, b.m_flow_memory);
    b.runtime().bind_flow(b.m_flow_memory);
    sim::tag("unpooled");
}
template <class B> inline void unpooled(B &, long) {}

// One model with settings, filters and several input sets.
struct World {
    Model m;
    std::string options;
    std::vector<FilterSpec> filters;
    std::vector<std::vector<Tensor>> sets;           // input sets, in the order of m.inputs
    std::vector<Conf> confs;                         // confs[0] is the default
    std::map<std::pair<int, int>, Out> refs;         // (conf, set)
    std::map<std::pair<int, int>, bool> usable;
    std::vector<int> slots;                          // m.inputs order -> name lookups are used everywhere

    Workbench::shared load() const { return Workbench::Load(m.module, cpu(), options); }
    void set_inputs(Workbench &b, int set, bool copy) const {
        for (size_t i = 0; i < m.inputs.size(); ++i) b.input(m.inputs[i].name, copy ? zoo::deep(sets[set][i]) : sets[set][i]);
    }
    void apply(Workbench &b, const Conf &c) const {
        for (auto &p : c.params) b.set_operator_param(p.first.first, p.first.second, tensor::from<float>(p.second));
        for (auto &f : c.filters) b.bind_filter(m.inputs[f.first].name, build(filters[f.second]));
    }
    Out fresh(const Conf &c, int set, int threads = 1, bool strict = false) const {
        return guarded([&] {
            auto b = load();
            if (strict) unpooled(*b, 0);
            b->runtime().set_computing_thread_number(threads);
            apply(*b, c);
            set_inputs(*b, set, true);
            b->run();
            return read_outputs(*b);
        });
    }
    Out fresh(int conf, int set, int threads = 1) const { return fresh(confs[conf], set, threads); }
};
struct WorldConfig {
    zoo::Config zoo;
    int sets = 3, confs = 3;
    bool shapes = true;          // input sets with other shapes
    bool bad = true;             // input sets that are refused
    bool options = true;
    double p_image = 0.3;
    bool params = true;
};
// spatial: the first of the two dimensions that a model accepts in other sizes; -1 if none
inline Tensor vary(Rng &r, const Tensor &t, int how, int spatial) {
    Shape s = t.sizes();
    if (how == 1 && !s.empty()) s[0] = s[0] % 3 + 1;                                   // batch
    if (how == 2 && s.size() == 4 && spatial > 0) for (int k = spatial; k < spatial + 2; ++k) if (r.chance(0.8)) s[k] = std::max(1, s[k] + (int)r.range(-2, 4));
    if (how == 3 && !s.empty()) s[r.below(s.size())] += 1;
    if (how == 4) { s.clear(); s.push_back((int)r.range(1, 5)); }
    Tensor x(how == 5 ? (t.dtype() == FLOAT32 ? INT32 : FLOAT32) : t.dtype(), s);
    zoo::fill(r, x);
    return x;
}
// operators whose constants only fit the shapes the model was made with; other shapes are read out of range unchecked
inline bool rigid(const Model &m) {
    static const char *ops[] = {"gather", "gather_elements", "gatherv2", "scatter_nd", "where", "prior_box"};
    for (auto &o : m.ops) for (auto p : ops) if (o == p) return true;
    return false;
}
// Must be called while no other simulated thread is alive.
inline World make_world(Rng &r, const WorldConfig &wc) {
    World w;
    zoo::Config zc = wc.zoo;
    if (wc.p_image > 0 && r.chance(wc.p_image)) zc.image_input = true;
    w.m = zoo::make(r, zc);
    if (wc.options) { static const char *opts[] = {"", "", "", "--no-pack", "--winograd", "--filter", "--pack --filter"}; w.options = opts[r.below(7)]; }
    std::vector<Tensor> base;
    for (auto &i : w.m.inputs) base.push_back(i.base);
    w.sets.push_back(base);
    w.confs.push_back(Conf());
    for (int k = 1; k < wc.confs; ++k) {
        Conf c;
        if (wc.params && !w.m.float_params.empty() && r.chance(0.7)) {
            int n = (int)r.range(1, 2);
            for (int j = 0; j < n; ++j) {
                auto p = r.pick(w.m.float_params); float v = float(0.1 + r.unit());
                try { w.load()->set_operator_param(p.first, p.second, tensor::from<float>(v)); c.params[p] = v; }
                catch (const std::exception &) { sim::tag("param_refused"); }     // not a parameter of the compiled model, or not a valid value
            }
        }
        if (!rigid(w.m)) for (size_t j = 0; j < w.m.inputs.size(); ++j) if (w.m.inputs[j].image && r.chance(0.8)) { c.filters[(int)j] = (int)w.filters.size(); w.filters.push_back(random_filter(r, 3)); }
        w.confs.push_back(c);
    }
    bool fixed = rigid(w.m);
    // an image that reaches convolutions untransposed has its channels where they take its size
    bool transposed = std::find(w.m.ops.begin(), w.m.ops.end(), std::string(name::layer::transpose())) != w.m.ops.end();
    auto spatial = [&](size_t j) { return !w.m.inputs[j].image ? 2 : transposed ? 1 : -1; };
    for (int k = 1; k < wc.sets; ++k) {
        int how = wc.shapes && !fixed && r.chance(0.6) ? (int)r.range(1, 2) : 0;
        std::vector<Tensor> s;
        for (size_t j = 0; j < base.size(); ++j) s.push_back(w.m.inputs[j].fixed ? zoo::deep(base[j]) : vary(r, base[j], how, spatial(j)));
        w.sets.push_back(s);
    }
    if (wc.bad && !base.empty()) {
        auto s = base;
        size_t j = r.below(s.size());
        int how = fixed ? (int)r.range(5, 6) : (int)r.range(3, 6);
        if (w.m.inputs[j].fixed) how = 6;
        s[j] = how == 6 ? Tensor() : vary(r, s[j], how, -1);
        w.sets.push_back(s);
    }
    if (sim::verbose()) for (size_t s = 0; s < w.sets.size(); ++s) { std::string d; for (auto &t : w.sets[s]) d += zoo::describe(t) + " "; sim::note("set %zu: %s", s, d.c_str()); }
    if (sim::verbose()) { std::string d; for (auto &o : w.m.ops) d += o + " "; sim::note("operators %s options %s", d.c_str(), w.options.c_str()); }
    // combinations the library does not refuse with an error but does not survive either are no business of ours here
    int nc = (int)w.confs.size(), ns = (int)w.sets.size();
    auto res = sim::probe(nc * ns, [&](int i) {
        Out o = w.fresh(i / ns, i % ns);
        if (i) {
            bool odd = false;              // sizes that make no sense are not refused either
            Hook h;
            h.after_run([&](const Hook::StructAfterRun &a) { for (size_t k = 0; k < a.stack->size(); ++k) for (auto d : (*a.stack)[k].sizes()) if (d <= 0) odd = true; });
            ctx::bind<Hook> bind(h);
            if (!w.fresh(w.confs[i / ns], i % ns, 1, true).same(o) || odd) return std::string();
        }
        return pack_out(o);
    });
    for (int c = 0; c < nc; ++c) for (int s = 0; s < ns; ++s) {
        auto &p = res[c * ns + s];
        w.usable[{c, s}] = p.ok && !p.value.empty();
        if (p.ok && p.value.empty()) sim::tag("ref_unstable");
        if (w.usable[{c, s}]) w.refs[{c, s}] = unpack_out(p.value);
    }
    // inputs that do not fit are only of interest where they are refused; where they are not, they may be read out of range
    for (int s = 1; s < ns; ++s) {
        bool out = false;
        for (int c = 0; c < nc; ++c) {
            if (res[c * ns + s].ok && res[c * ns + s].value.empty()) out = true;
            if (s >= wc.sets && w.usable[{c, s}] && w.refs[{c, s}].ok) out = true;
        }
        if (out) for (int c = 0; c < nc; ++c) { w.usable[{c, s}] = false; w.refs.erase({c, s}); }
    }
    if (!w.usable[{0, 0}]) { w.fresh(0, 0); sim::violation("reference", "a fresh workbench did not survive its own model"); }
    for (auto &x : w.refs) if (x.second.ok) sim::tag("ref_ok"); else sim::tag("ref_error");
    return w;
}
}
