// Random models from the real operators. Every candidate operator is evaluated once while the model is generated, so
// that the shapes of all intermediate values are known and only operators that accept their inputs are used.
#pragma once
#include "scn.h"
#include <algorithm>
#include <map>
#include <set>
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "module/menu.h"
#include "module/module.h"
#include "module/graph.h"
#include "module/io/fstream.h"
#include "module/io/sstream.h"
#include "runtime/workbench.h"
#include "runtime/image_filter.h"
#include "global/operator_factory.h"
#include "backend/name.h"
#include "frontend/frontend.h"
#include "utils/ctxmgr.h"
#include "utils/ctxmgr_lite.h"

namespace zoo {
using namespace ts;
using scn::Rng;

inline ComputingDevice cpu() { return ComputingDevice(CPU, 0); }

// ------------------------------------------------------------------ tensors
inline Tensor ints(const std::vector<int32_t> &v) { Tensor t(INT32, {int(v.size())}); for (size_t i = 0; i < v.size(); ++i) t.data<int32_t>()[i] = v[i]; return t; }
inline Tensor ints2(int rows, const std::vector<int32_t> &v) { return ints(v).reshape({rows, int(v.size()) / rows}); }
inline Tensor scalar_i(int v) { return tensor::from<int32_t>(v); }
inline Tensor scalar_f(float v) { return tensor::from<float>(v); }
inline Tensor floats(const std::vector<float> &v) { Tensor t(FLOAT32, {int(v.size())}); for (size_t i = 0; i < v.size(); ++i) t.data<float>()[i] = v[i]; return t; }

inline void fill(Rng &r, Tensor &t) {
    int n = t.count();
    switch (t.dtype()) {
        case FLOAT32: for (int i = 0; i < n; ++i) t.data<float>()[i] = float(r.unit() * 2 - 1); break;
        case FLOAT64: for (int i = 0; i < n; ++i) t.data<double>()[i] = r.unit() * 2 - 1; break;
        case INT32: for (int i = 0; i < n; ++i) t.data<int32_t>()[i] = int32_t(r.range(-9, 9)); break;
        case INT64: for (int i = 0; i < n; ++i) t.data<int64_t>()[i] = r.range(-9, 9); break;
        case BOOLEAN: for (int i = 0; i < n; ++i) t.data<uint8_t>()[i] = uint8_t(r.below(2)); break;
        default: { size_t b = size_t(n) * t.proto().type_bytes(); for (size_t i = 0; i < b; ++i) ((uint8_t *)t.data())[i] = uint8_t(r.below(127)); }
    }
}
inline Tensor rnd(Rng &r, DTYPE d, const Shape &s) { Tensor t(d, s); fill(r, t); return t; }
inline Tensor rndf(Rng &r, const Shape &s) { return rnd(r, FLOAT32, s); }
inline Tensor posf(Rng &r, const Shape &s) { Tensor t(FLOAT32, s); for (int i = 0; i < t.count(); ++i) t.data<float>()[i] = float(0.25 + r.unit()); return t; }

// the content of a tensor: data types, shapes, fields, bytes
inline std::string bytes_of(const Tensor &t) {
    std::string o;
    size_t nf = t.fields_count();
    o += "F" + std::to_string(nf) + ":";
    for (size_t f = 0; f < nf; ++f) {
        Tensor x = t.packed() ? t.field(f) : t;
        o += std::to_string(int(x.dtype())) + to_string(x.sizes());
        int n = 1; for (auto s : x.sizes()) n *= s;
        size_t b = n > 0 ? size_t(n) * type_bytes(x.dtype()) : 0;
        if (b) o.append((const char *)x.data(), b);
        o += ";";
    }
    return o;
}
inline std::string describe(const Tensor &t) {
    std::string o;
    for (size_t f = 0; f < t.fields_count(); ++f) { Tensor x = t.packed() ? t.field(f) : t; o += std::string(type_str(x.dtype())) + to_string(x.sizes()); }
    return o;
}
inline uint64_t hash_of(const std::string &s) { return scn::fnv(s.data(), s.size()); }

// a deep copy owned by nobody else
inline Tensor deep(const Tensor &t) {
    std::vector<Tensor> fs;
    for (size_t f = 0; f < t.fields_count(); ++f) {
        Tensor x = t.packed() ? t.field(f) : t;
        Tensor y(x.dtype(), x.sizes());
        int n = x.count();
        if (n > 0) memcpy(y.data(), x.data(), size_t(n) * x.proto().type_bytes());
        fs.push_back(y);
    }
    if (fs.size() == 1) return fs[0];
    Tensor p; p.pack(fs); return p;
}

// ------------------------------------------------------------------ models
inline const Node &null_node() { static Graph g; static Node n = g.make("nil"); return n; }
struct Val {
    Node node; Tensor value; bool konst; int depth;
    Val() : node(null_node()), konst(false), depth(0) {}
    Val(const Node &n, const Tensor &t, bool k, int d) : node(n), value(t), konst(k), depth(d) {}
};
struct InputSpec { std::string name; Tensor base; bool image; bool fixed; };   // fixed: only these values are valid (indices, sizes)
struct Model {
    Module::shared module;
    std::vector<InputSpec> inputs;
    std::vector<std::string> output_names;
    std::vector<std::string> op_nodes;              // names of operator nodes
    std::vector<std::string> ops;                   // operator types used
    std::vector<std::pair<std::string, std::string>> float_params;   // (node, param) that may be changed by set_operator_param
};

struct Config {
    int min_ops = 1, max_ops = 8;
    int max_count = 4000;        // elements in any one tensor
    int side = 8;                // image side
    bool nul_names = false;      // together with odd_names: names with a zero byte
    bool odd_names = false;      // names with unusual characters
    bool batch = true;
    double p_operand = 0.12;     // integer operands that are inputs of the model
    double p_big = 0.1;          // a larger image
    const char *only = nullptr;  // only this operator kind
    bool dup_outputs = false;    // repeated outputs, outputs that are inputs or constants
    bool direct_outputs = false; // outputs that are inputs or constants
    bool image_input = false;    // input 0 is an NHWC uint8 image, converted inside the model
};

struct Gen {
    Rng &r; Config c;
    Graph g;
    Workbench eager;
    std::vector<Val> vals;
    std::vector<InputSpec> inputs;
    std::vector<std::pair<std::string, std::string>> float_params;
    std::vector<std::string> op_nodes, ops;
    std::vector<std::vector<int>> deps;
    int serial = 0;
    std::string kind;
    Gen(Rng &rr, const Config &cc) : r(rr), c(cc), eager(cpu(), 1) {}

    using P = std::pair<const char *, Tensor>;
    std::string fresh_name() {
        std::string n = "n" + std::to_string(serial++);
        if (c.odd_names) switch (r.below(10)) {
            case 0: n += std::string("/a:b"); break;
            case 1: n += " with space"; break;
            case 2: n += "\xe6\xb5\x8b\xe8\xaf\x95"; break;
            case 3: n += std::string(r.below(300), 'x'); break;
            case 4: if (c.nul_names) n += std::string("\0z", 2); break;
            case 5: { static const char *pc[] = {"%", "%s", "%d%%", "%08x", "100%n", "%5$s"}; n += pc[r.below(6)]; break; }
            default: break;
        }
        return n;
    }
    Val cst(const Tensor &t) {
        ctx::bind<Graph> b(g);
        if (t.dtype() == INT32 && r.chance(c.p_operand)) {       // indices or sizes given at run time
            std::string n = fresh_name();
            inputs.push_back({n, t, false, true});
            sim::tag("operand_input");
            return Val{bubble::param(n), t, false, 0};
        }
        return Val{bubble::data(fresh_name(), t), t, true, 0};
    }
    Val shared_cst(const Tensor &t) {         // may become the input of another operator too (never done with weights)
        Val v = cst(t);
        if (r.chance(0.1)) { sim::tag("const_used_twice"); vals.push_back(v); }
        return v;
    }
    bool op(const std::string &name, const std::vector<Val> &in, const std::vector<P> &params, bool terminal = false) {
        std::vector<Tensor> args, outs;
        for (auto &v : in) args.push_back(deep(v.value));
        std::string nn = fresh_name();
        Bubble b(name, nn);
        for (auto &p : params) b.set(p.first, p.second);
        try {
            if (name == name::layer::field()) outs = {args.at(0).field(tensor::to_int(b.get("offset")))};
            else if (name == name::layer::pack()) { Tensor pk; pk.pack(args); outs = {pk}; }
            else {
                auto o = eager.offline_create(b, true);
                eager.offline_run(o, args, outs);
            }
        } catch (const std::exception &e) {
            sim::tag(("op_fail_" + kind).c_str());
            if (sim::verbose()) sim::note("%s rejected: %s", name.c_str(), e.what());
            return false;
        }
        if (outs.size() != 1) { sim::tag(("op_fail_" + kind).c_str()); return false; }
        Tensor o = deep(outs[0]);
        for (size_t f = 0; f < o.fields_count(); ++f) { Tensor x = o.packed() ? o.field(f) : o; if (x.count() > c.max_count || x.count() <= 0) { sim::tag(("op_drop_" + kind).c_str()); return false; } }
        ctx::bind<Graph> bg(g);
        std::vector<Node> ns; int depth = 0;
        bool konst = true; for (auto &v : in) { ns.push_back(v.node); depth = std::max(depth, v.depth); if (!v.konst) konst = false; }
        Node n = bubble::op(nn, name, ns);
        for (auto &p : params) {
            n->set(p.first, p.second);
            if (p.second.dtype() == FLOAT32 && p.second.count() == 1) float_params.emplace_back(nn, p.first);
        }
        sim::tag(("op_ok_" + kind).c_str());
        op_nodes.push_back(nn); ops.push_back(name);
        if (o.packed()) {
            vals.push_back(Val{n, o, konst, depth + 1});
            if (!konst && r.chance(0.8)) {     // take one field
                int f = (int)r.below(o.fields_count());
                Val pv = vals.back();
                std::string k2 = kind; kind = "field";
                op("_field", {pv}, {P("offset", scalar_i(f))});
                kind = k2;
            }
        } else vals.push_back(Val{n, o, konst, depth + 1});
        (void)terminal;
        return true;
    }
    std::vector<int> where(std::function<bool(const Val &)> f) { std::vector<int> o; for (size_t i = 0; i < vals.size(); ++i) if (!vals[i].value.packed() && f(vals[i])) o.push_back(int(i)); return o; }
    bool pick(Val &v, std::function<bool(const Val &)> f) {
        auto w = where(f);
        if (w.empty()) return false;
        // prefer late values, so that chains grow
        size_t k = r.chance(0.6) ? w.size() - 1 - r.below(std::min<size_t>(w.size(), 3)) : r.below(w.size());
        v = vals[w[k]];
        return true;
    }
    static bool isf(const Val &v) { return v.value.dtype() == FLOAT32; }
    bool f4(Val &v) { return pick(v, [](const Val &x) { return isf(x) && x.value.dims() == 4; }); }
    bool f2(Val &v) { return pick(v, [](const Val &x) { return isf(x) && x.value.dims() == 2; }); }
    bool anyf(Val &v) { return pick(v, [](const Val &x) { return isf(x) && x.value.dims() >= 1; }); }
    static Tensor pad4(int a, int b, int cc, int d) { return ints2(4, {0, 0, 0, 0, a, b, cc, d}); }
    static Tensor q4(int h, int w) { return ints({1, 1, h, w}); }

    void start() {
        ctx::bind<Graph> bg(g);
        int side = r.chance(c.p_big) ? c.side * 2 + (int)r.below(5) : (int)r.range(3, c.side);
        int n = c.batch && r.chance(0.3) ? 2 : 1, ch = (int)r.range(1, 4);
        std::string x0 = "x0";
        if (c.image_input) {
            Tensor t = rnd(r, UINT8, {n, side, (int)r.range(3, c.side), 3});
            for (int i = 0; i < t.count(); ++i) t.data<uint8_t>()[i] = uint8_t(r.below(256));
            Node nd = r.chance(0.5) ? bubble::param(x0) : bubble::param(x0, FLOAT32);
            inputs.push_back({x0, t, true, false});
            Tensor f = tensor::cast(FLOAT32, t);
            Val v{nd, t, false, 0};
            kind = "to_float";
            if (nd->has(Bubble::RetentionParam::dtype)) v.value = f;
            vals.push_back(v);
            op("to_float", {v}, {});
            Val w = vals.back();
            kind = "transpose";
            op(name::layer::transpose(), {w}, {P("permute", ints({0, 3, 1, 2}))});
        } else {
            Tensor t = rndf(r, {n, ch, side, r.chance(0.7) ? side : (int)r.range(3, c.side)});
            Node nd = r.chance(0.4) ? bubble::param(x0) : r.chance(0.5) ? bubble::param(x0, FLOAT32) : bubble::param(x0, FLOAT32, t.sizes());
            inputs.push_back({x0, t, false, false});
            vals.push_back(Val{nd, t, false, 0});
        }
        if (r.chance(0.4)) {
            Tensor t = rndf(r, {(int)r.range(1, 6), (int)r.range(1, 8)});
            inputs.push_back({"x1", t, false, false});
            vals.push_back(Val{bubble::param("x1"), t, false, 0});
        }
        if (r.chance(0.25)) {
            Tensor t = rnd(r, INT32, {(int)r.range(1, 3), (int)r.range(1, 4)});
            inputs.push_back({"x2", t, false, false});
            vals.push_back(Val{bubble::param("x2"), t, false, 0});
        }
    }
    Model finish() {
        Model m;
        std::vector<Node> outs;
        std::vector<int> cand = where([](const Val &v) { return v.depth > 0; });
        for (size_t i = 0; i < vals.size(); ++i) if (vals[i].value.packed()) cand.push_back(int(i));
        std::sort(cand.begin(), cand.end());
        if (cand.empty()) {
            kind = "sigmoid";
            Val v = vals[0]; if (!isf(v)) { for (auto &x : vals) if (isf(x)) v = x; }
            op("sigmoid", {v}, {});
            cand.push_back(int(vals.size()) - 1);
        }
        int n = 1 + (int)r.below(3);
        outs.push_back(vals[cand.back()].node);
        for (int i = 1; i < n; ++i) {
            int k = cand[r.below(cand.size())];
            bool dup = false; for (auto &o : outs) if (o == vals[k].node) dup = true;
            if (!dup || (c.dup_outputs && r.chance(0.5))) outs.push_back(vals[k].node);
        }
        if (c.direct_outputs && r.chance(0.4)) {         // an output that is an input or a constant
            std::vector<int> d;
            for (size_t i = 0; i < vals.size(); ++i) if (vals[i].depth == 0 && !vals[i].value.packed() && vals[i].node.ptr() != null_node().ptr()) d.push_back(int(i));
            if (!d.empty()) outs.push_back(vals[d[r.below(d.size())]].node);
        }
        if (r.chance(0.5)) std::reverse(outs.begin(), outs.end());
        m.module = Module::Load(g, outs);
        for (auto &o : outs) m.output_names.push_back(o->name());
        std::vector<std::string> names;
        for (auto &i : inputs) { for (auto &mi : m.module->inputs()) if (mi->name() == i.name) { m.inputs.push_back(i); names.push_back(i.name); } }
        for (size_t i = names.size(); i > 1; --i) { size_t j = r.below(i); std::swap(names[i - 1], names[j]); std::swap(m.inputs[i - 1], m.inputs[j]); }
        m.module->sort_inputs(names);
        // only reachable operators
        std::set<std::string> reach;
        for (auto &p : Module::list_reference_nodes(m.module->outputs())) reach.insert(p.first.bubble().name());
        for (size_t i = 0; i < op_nodes.size(); ++i) if (reach.count(op_nodes[i])) { m.op_nodes.push_back(op_nodes[i]); m.ops.push_back(ops[i]); }
        for (auto &p : float_params) if (reach.count(p.first)) m.float_params.push_back(p);
        return m;
    }
};

using Maker = bool (*)(Gen &);
struct Entry { const char *kind; Maker make; int weight; };
inline const std::vector<Entry> &entries();

inline Model make(Rng &r, const Config &c) {
    Gen g(r, c);
    g.start();
    auto &es = entries();
    int want = (int)r.range(c.min_ops, c.max_ops), tries = 0;
    while ((int)g.op_nodes.size() < want && tries++ < want * 4 + 8) {
        const Entry *e = nullptr;
        if (c.only && !strcmp(c.only, "*")) e = &es[r.below(es.size())];
        else if (c.only && (g.op_nodes.empty() || r.chance(0.5))) { for (auto &x : es) if (!strcmp(x.kind, c.only)) e = &x; }
        if (!e) {
            int total = 0; for (auto &x : es) total += x.weight;
            int k = (int)r.below(total);
            for (auto &x : es) { if (k < x.weight) { e = &x; break; } k -= x.weight; }
        }
        g.kind = e->kind;
        try { e->make(g); } catch (const std::exception &ex) { sim::tag(("op_throw_" + std::string(e->kind)).c_str()); }
    }
    return g.finish();
}
}
#include "zoo_ops.h"
