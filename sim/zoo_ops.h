// The operator makers of the zoo.
#pragma once
namespace zoo {
#define MK(kind, weight) {kind, [](Gen &g) -> bool { auto &r = g.r; (void)r; using P = Gen::P; (void)sizeof(P);
#define END }, }
inline int osz(int x, int k, int s, int p0, int p1) { return (x + p0 + p1 - k) / s + 1; }
#define OPMAKER(fn) inline bool fn(Gen &g)
inline bool fits(const Val &x, int kh, int kw, int p = 0, int d = 1) { return x.value.size(2) + 2 * p >= (kh - 1) * d + 1 && x.value.size(3) + 2 * p >= (kw - 1) * d + 1; }
#define PRE auto &r = g.r; (void)r; using P = Gen::P; Val x

OPMAKER(mk_conv2d) {
    PRE; if (!g.f4(x)) return false;
    int c = x.value.size(1), o = (int)r.range(1, 5), k = 1 + 2 * (int)r.below(3), s = (int)r.range(1, 2), p = (int)r.below(k / 2 + 1), d = r.chance(0.2) ? 2 : 1;
    int kw = r.chance(0.8) ? k : (int)r.range(1, 4);
    if (!fits(x, k, kw, p, d)) return false;
    auto w = g.cst(rndf(r, {o, c, k, kw}));
    std::vector<P> ps = {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(p, p, p, (int)r.below(2))), P("stride", Gen::q4(s, s)), P("dilation", Gen::q4(d, d))};
    if (r.chance(0.2)) ps.push_back(P("padding_value", scalar_f(0.5f)));
    return g.op("conv2d", {x, w}, ps);
}
OPMAKER(mk_conv1x1) {
    PRE; if (!g.f4(x)) return false;
    auto w = g.cst(rndf(r, {(int)r.range(1, 9), x.value.size(1), 1, 1}));
    return g.op("conv2d", {x, w}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(0, 0, 0, 0)), P("stride", Gen::q4(1, 1)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_conv3x3) {
    PRE; if (!g.f4(x)) return false; if (!fits(x, 3, 3)) return false;
    int s = r.chance(0.7) ? 1 : 2;
    auto w = g.cst(rndf(r, {r.chance(0.5) ? 4 * (int)r.range(1, 3) : (int)r.range(1, 9), x.value.size(1), 3, 3}));
    int p = (int)r.below(2);
    return g.op("conv2d", {x, w}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(p, p, p, p)), P("stride", Gen::q4(s, s)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_conv2d_v2) {
    PRE; if (!g.f4(x)) return false;
    int k = 1 + 2 * (int)r.below(2), p = (int)r.below(k); if (!fits(x, k, k, p)) return false;
    auto w = g.cst(rndf(r, {(int)r.range(1, 5), x.value.size(1), k, k})), pd = g.cst(Gen::pad4(p, p, p, p));
    return g.op("conv2d_v2", {x, pd, w}, {P("format", tensor::from(name::NCHW)), P("stride", Gen::q4(1, 1)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_depthwise) {
    PRE; if (!g.f4(x)) return false;
    int k = r.chance(0.7) ? 3 : 5, s = (int)r.range(1, 2), p = (int)r.below(3); if (!fits(x, k, k, p)) return false;
    auto w = g.cst(rndf(r, {1, x.value.size(1), k, k}));
    return g.op("depthwise_conv2d", {x, w}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(p, p, p, p)), P("stride", Gen::q4(s, s)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_depthwise_v2) {
    PRE; if (!g.f4(x)) return false;
    int k = 3, p = (int)r.below(2); if (!fits(x, k, k, p)) return false;
    auto w = g.cst(rndf(r, {1, x.value.size(1), k, k})), pd = g.cst(Gen::pad4(p, p, p, p));
    return g.op("depthwise_conv2d_v2", {x, pd, w}, {P("format", tensor::from(name::NCHW)), P("stride", Gen::q4(1, 1)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_winograd) {
    PRE; if (!g.f4(x)) return false; if (!fits(x, 3, 3)) return false;
    int p = (int)r.below(2);
    auto w = g.cst(rndf(r, {(int)r.range(1, 9), x.value.size(1), 3, 3}));
    std::vector<P> ps = {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(p, p, p, p))};
    return g.op("conv2d_winograd", {x, w}, ps);
}
OPMAKER(mk_winograd_v2) {
    PRE; if (!g.f4(x)) return false; if (!fits(x, 3, 3)) return false;
    int p = (int)r.below(2);
    auto w = g.cst(rndf(r, {(int)r.range(1, 5), x.value.size(1), 3, 3})), pd = g.cst(Gen::pad4(p, p, p, p));
    return g.op("conv2d_winograd_v2", {x, pd, w}, {P("format", tensor::from(name::NCHW))});
}
OPMAKER(mk_transpose_conv2d) {
    PRE; if (!g.f4(x)) return false;
    int k = (int)r.range(2, 3), s = (int)r.range(1, 2);
    auto w = g.cst(rndf(r, {x.value.size(1), (int)r.range(1, 3), k, k}));
    return g.op("transpose_conv2d", {x, w}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(0, 0, 0, 0)), P("stride", Gen::q4(s, s)), P("dilation", Gen::q4(1, 1))});
}
OPMAKER(mk_quant_conv) {
    PRE; if (!g.f4(x)) return false; if (!fits(x, 3, 3)) return false;
    if (x.value.size(0) != 1) return false;
    int k = 3, o = (int)r.range(1, 4);
    if (!g.op("quantize", {x}, {P("quantize_scale", floats({20.f + (float)r.below(20)}))})) return false;
    Val q = g.vals.back();
    auto w = g.cst(rnd(r, INT8, {o, x.value.size(1), k, k}));
    std::vector<float> sc; for (int i = 0; i < o; ++i) sc.push_back(0.01f * float(1 + r.below(5)));
    return g.op("conv2d_quantized", {q, w}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(1, 1, 1, 1)), P("stride", Gen::q4(1, 1)), P("dilation", Gen::q4(1, 1)), P("dequantize_scales", floats(sc))});
}
OPMAKER(mk_quantize) {
    PRE; if (!g.f4(x)) return false;
    std::vector<float> sc; for (int i = 0; i < x.value.size(0); ++i) sc.push_back(10.f + float(r.below(5)));
    return g.op("quantize", {x}, {P("quantize_scale", floats(sc))});
}
OPMAKER(mk_pooling2d) {
    PRE; if (!g.f4(x)) return false;
    int k = (int)r.range(1, 3), s = (int)r.range(1, 2), p = (int)r.below(k); if (!fits(x, k, k, p)) return false;
    return g.op("pooling2d", {x}, {P("format", tensor::from(name::NCHW)), P("type", scalar_i((int)r.below(2))), P("padding", Gen::pad4(p, p, p, p)), P("ksize", Gen::q4(k, k)), P("stride", Gen::q4(s, s)), P("padding_type", scalar_i(r.chance(0.5) ? 0 : 3))});
}
OPMAKER(mk_pooling2d_v2) {
    PRE; if (!g.f4(x)) return false;
    int k = (int)r.range(1, 3), s = (int)r.range(1, 2), p = (int)r.below(2); if (!fits(x, k, k, p)) return false;
    auto a = g.cst(Gen::pad4(p, p, p, p)), b = g.cst(Gen::q4(k, k)), c = g.cst(Gen::q4(s, s));
    return g.op("pooling2d_v2", {x, a, b, c}, {P("format", tensor::from(name::NCHW)), P("type", scalar_i((int)r.below(2)))});
}
OPMAKER(mk_global_pooling) { PRE; if (!g.f4(x)) return false; return g.op("global_pooling2d", {x}, {P("format", tensor::from(name::NCHW)), P("type", scalar_i((int)r.below(2)))}); }
OPMAKER(mk_add_bias) {
    PRE; if (!g.anyf(x)) return false;
    int d = (int)r.below(x.value.dims());
    if (x.value.dims() == 4 && r.chance(0.5)) { auto b = g.cst(rndf(r, {x.value.size(1)})); return g.op("add_bias", {x, b}, {P("format", tensor::from(name::NCHW))}); }
    auto b = g.cst(rndf(r, {x.value.size(d)}));
    return g.op("add_bias", {x, b}, {P("dim", scalar_i(d))});
}
OPMAKER(mk_batch_norm) {
    PRE; if (!g.anyf(x)) return false;
    int d = (int)r.below(x.value.dims()), n = x.value.size(d);
    auto a = g.cst(rndf(r, {n})), b = g.cst(posf(r, {n}));
    return g.op("batch_norm", {x, a, b}, {P("dim", scalar_i(d)), P("epsilon", scalar_f(1e-5f))});
}
OPMAKER(mk_batch_scale) {
    PRE; if (!g.anyf(x)) return false;
    int d = (int)r.below(x.value.dims()), n = x.value.size(d);
    auto a = g.cst(rndf(r, {n})), b = g.cst(rndf(r, {n}));
    return g.op("batch_scale", {x, a, b}, {P("dim", scalar_i(d))});
}
OPMAKER(mk_fused_bn) {
    PRE; if (!g.anyf(x)) return false;
    int d = (int)r.below(x.value.dims()), n = x.value.size(d);
    auto a = g.cst(rndf(r, {n})), b = g.cst(posf(r, {n})), e = g.cst(rndf(r, {n})), f = g.cst(rndf(r, {n}));
    return g.op("fused_batch_norm", {x, a, b, e, f}, {P("dim", scalar_i(d)), P("epsilon", scalar_f(1e-5f))});
}
OPMAKER(mk_prelu) {
    PRE; if (!g.anyf(x)) return false;
    int d = (int)r.below(x.value.dims());
    auto a = g.cst(rndf(r, {x.value.size(d)}));
    return g.op("prelu", {x, a}, {P("dim", scalar_i(d))});
}
OPMAKER(mk_softmax) { PRE; if (!g.anyf(x)) return false; return g.op("softmax", {x}, {P("dim", scalar_i((int)r.below(x.value.dims()))), P("smooth", tensor::from<bool>(r.chance(0.5)))}); }
OPMAKER(mk_concat) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    int d = (int)r.below(x.value.dims()); Shape s = x.value.sizes(); s[d] = (int)r.range(1, 3);
    auto b = g.shared_cst(rnd(r, x.value.dtype(), s));
    Val y; bool have = g.pick(y, [&](const Val &v) { if (v.value.dims() != x.value.dims() || v.value.dtype() != x.value.dtype()) return false; for (int i = 0; i < (int)v.value.dims(); ++i) if (i != d && v.value.size(i) != x.value.size(i)) return false; return true; });
    std::vector<Val> in = {x}; if (have) in.push_back(y); if (!have || r.chance(0.5)) in.push_back(b);
    return g.op("concat", in, {P("dim", scalar_i(r.chance(0.3) ? d - (int)x.value.dims() : d))});
}
OPMAKER(mk_stack) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1 && v.value.dims() < 5; })) return false;
    auto b = g.shared_cst(rnd(r, x.value.dtype(), x.value.sizes()));
    return g.op("stack", {x, b}, {P("axis", scalar_i((int)r.below(x.value.dims())))});
}
OPMAKER(mk_flatten) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 2; })) return false; return r.chance(0.5) ? g.op("flatten", {x}, {P("dim", scalar_i((int)r.range(0, x.value.dims() - 1)))}) : g.op("flatten2d", {x}, {P("dim", scalar_i((int)r.range(0, x.value.dims() - 1)))}); }
OPMAKER(mk_reshape) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    std::vector<int> s;
    int n = x.value.count();
    switch (r.below(4)) {
        case 0: s = {-1}; break;
        case 1: s = {x.value.size(0), -1}; break;
        case 2: { int d = 1; for (int k = 2; k < 6; ++k) if (n % k == 0) d = k; s = {d, -1}; break; }
        default: { int d = 1; for (int k = 2; k < 5; ++k) if (n % k == 0) d = k; s = {1, d, n / d, 1}; break; }
    }
    if (r.chance(0.5)) return g.op(name::layer::reshape(), {x}, {P("shape", ints(s))});
    auto sh = g.cst(ints(s));
    return g.op(name::layer::reshape_v2(), {x, sh}, {});
}
OPMAKER(mk_transpose) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 2; })) return false;
    std::vector<int> p; for (size_t i = 0; i < x.value.dims(); ++i) p.push_back(int(i));
    for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    return g.op(name::layer::transpose(), {x}, {P("permute", ints(p))});
}
OPMAKER(mk_unsqueeze) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() < 5; })) return false; return g.op("unsqueeze", {x}, {P("axes", ints({(int)r.below(x.value.dims() + 1)}))}); }
OPMAKER(mk_squeeze) { PRE; if (!g.pick(x, [](const Val &v) { for (auto s : v.value.sizes()) if (s == 1) return v.value.dims() > 1; return false; })) return false;
    int a = 0; for (size_t i = 0; i < x.value.dims(); ++i) if (x.value.size(i) == 1) a = int(i);
    return g.op("squeeze", {x}, {P("axes", ints({a}))}); }
OPMAKER(mk_slice) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    std::vector<int> b, s, e;
    for (size_t i = 0; i < x.value.dims(); ++i) { int n = x.value.size(i), k = (int)r.below(n), w = (int)r.range(1, n - k); b.push_back(k); s.push_back(w); e.push_back(k + w); }
    switch (r.below(4)) {
        case 0: return g.op("slice", {x}, {P("begin", ints(b)), P("size", ints(s))});
        case 1: { auto p = g.cst(ints(b)), q = g.cst(ints(s)); return g.op("slice_v2", {x, p, q}, {}); }
        case 2: { auto p = g.cst(ints(b)), q = g.cst(ints(e)); return g.op("slice_v3", {x, p, q}, {}); }
        default: return g.op("strided_slice", {x}, {P("begin", ints(b)), P("end", ints(e)), P("stride", ints(std::vector<int>(b.size(), 1)))});
    }
}
OPMAKER(mk_chunk) { PRE; if (!g.pick(x, [](const Val &v) { for (auto s : v.value.sizes()) if (s >= 2) return true; return false; })) return false;
    int d = 0; for (size_t i = 0; i < x.value.dims(); ++i) if (x.value.size(i) >= 2 && (d == 0 || r.chance(0.5))) d = int(i);
    if (x.value.size(d) < 2) return false;
    return g.op("chunk", {x}, {P("chunks", scalar_i(2)), P("dim", scalar_i(d))}); }
OPMAKER(mk_split) { PRE; if (!g.pick(x, [](const Val &v) { for (auto s : v.value.sizes()) if (s >= 2) return true; return false; })) return false;
    int d = 0; for (size_t i = 0; i < x.value.dims(); ++i) if (x.value.size(i) >= 2) d = int(i);
    int n = x.value.size(d), k = (int)r.range(1, n - 1);
    auto sp = g.cst(ints({k, n - k}));
    return g.op("split", {x, sp}, {P("axis", scalar_i(d))}); }
OPMAKER(mk_pad) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1 && v.value.dims() <= 5; })) return false;
    std::vector<int> p; for (size_t i = 0; i < x.value.dims(); ++i) { p.push_back((int)r.below(2)); p.push_back((int)r.below(3)); }
    auto pd = g.cst(ints2(int(x.value.dims()), p));
    return g.op("pad", {x, pd}, {P("padding_value", scalar_f(float(r.range(-1, 1))))});
}
OPMAKER(mk_tile) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1 && v.value.count() < 300; })) return false;
    std::vector<int> p; for (size_t i = 0; i < x.value.dims(); ++i) p.push_back((int)r.range(1, 2));
    if (r.chance(0.5)) return g.op("tile", {x}, {P("repeats", ints(p))});
    auto c = g.cst(ints(p)); return g.op("tile_v2", {x, c}, {});
}
OPMAKER(mk_broadcast) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1 && v.value.count() < 300; })) return false;
    std::vector<int> p; for (size_t i = 0; i < x.value.dims(); ++i) p.push_back(x.value.size(i) == 1 ? (int)r.range(1, 3) : x.value.size(i));
    auto c = g.cst(ints(p)); return g.op("broadcast", {x, c}, {});
}
OPMAKER(mk_expand) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() < 4 && v.value.dims() >= 1; })) return false; auto dd = g.cst(scalar_i((int)x.value.dims() + 1)); return g.op("_expand", {x, dd}, {P("front", scalar_i((int)r.below(2))), P("end", scalar_i(1))}); }
OPMAKER(mk_gather) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    int a = (int)r.below(x.value.dims()), n = x.value.size(a); std::vector<int> id; int k = (int)r.range(1, 4);
    for (int i = 0; i < k; ++i) id.push_back(r.chance(0.3) ? -(int)r.range(1, n) : (int)r.below(n));
    auto c = g.cst(ints(id)); return g.op("gather", {x, c}, {P("axis", scalar_i(a))});
}
OPMAKER(mk_gatherv2) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 2; })) return false;
    std::vector<int> id; int k = (int)r.range(1, 4); for (int i = 0; i < k; ++i) { id.push_back((int)r.below(x.value.size(0))); id.push_back((int)r.below(x.value.size(1))); }
    auto c = g.cst(ints2(k, id)); return g.op("gatherv2", {x, c}, {});
}
OPMAKER(mk_gather_elements) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    int a = (int)r.below(x.value.dims()), n = x.value.size(a); Tensor t(INT32, x.value.sizes());
    for (int i = 0; i < t.count(); ++i) t.data<int32_t>()[i] = r.chance(0.3) ? -(int)r.range(1, n) : (int)r.below(n);
    auto c = g.cst(t); return g.op("gather_elements", {x, c}, {P("axis", scalar_i(a))});
}
OPMAKER(mk_scatter_nd) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 2 && v.value.dtype() == FLOAT32; })) return false;
    int k = (int)r.range(1, 3); std::vector<int> id; for (int i = 0; i < k; ++i) id.push_back((int)r.below(x.value.size(0)));
    Shape us = x.value.sizes(); us[0] = k;
    auto c = g.cst(ints2(k, id)), u = g.cst(rndf(r, us)); return g.op("scatter_nd", {x, c, u}, {});
}
OPMAKER(mk_where) {
    PRE; if (!g.anyf(x)) return false;
    auto c = g.shared_cst(rnd(r, BOOLEAN, x.value.sizes())), y = g.shared_cst(rndf(r, x.value.sizes())); return g.op("where", {c, x, y}, {});
}
OPMAKER(mk_dimshuffle) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false;
    int d = (int)r.below(x.value.dims()); std::vector<int> s; int k = (int)r.range(1, 3); for (int i = 0; i < k; ++i) s.push_back((int)r.below(x.value.size(d)));
    return g.op(name::layer::dimshuffle(), {x}, {P("dim", scalar_i(d)), P("shuffle", ints(s))}); }
OPMAKER(mk_resize2d) { PRE; if (!g.f4(x)) return false; auto s = g.cst(ints({-1, -1, (int)r.range(2, 9), (int)r.range(2, 9)})); return g.op(name::layer::resize2d(), {x, s}, {P("type", scalar_i((int)r.below(4)))}); }
OPMAKER(mk_resize_nn) { PRE; if (!g.f4(x)) return false; auto s = g.cst(ints({(int)r.range(2, 7), (int)r.range(2, 7)})); return g.op("resize_nearest_neighbor", {x, s}, {P("dim", scalar_i(2)), P("align_corners", scalar_i((int)r.below(2)))}); }
OPMAKER(mk_sample2d) { PRE; if (!g.f4(x)) return false; if (r.chance(0.5)) { auto s = g.cst(floats({1.f, 1.f, 1.5f, 2.f})); return g.op("sample2d_v2", {x, s}, {P("type", scalar_i((int)r.below(4)))}); } return g.op("sample2d", {x}, {P("scale", scalar_f(r.chance(0.5) ? 1.5f : 0.75f)), P("type", scalar_i((int)r.below(4))), P("dim", scalar_i(2))}); }
OPMAKER(mk_affine) { PRE; if (!g.f4(x)) return false; auto s = g.cst(ints({(int)r.range(2, 7), (int)r.range(2, 7)}));
    auto a = g.cst(floats({1.f, 0.1f, float(r.unit()), 0.1f, 0.9f, float(r.unit()), 0, 0, 1}).reshape({3, 3}));
    return g.op("affine_sample2d", {x, s, a}, {P("type", scalar_i((int)r.below(4))), P("dim", scalar_i(2)), P("outer_value", scalar_f(0.5f))}); }
OPMAKER(mk_reduce) { PRE; if (!g.anyf(x)) return false; int d = (int)r.below(x.value.dims());
    if (r.chance(0.5)) return g.op("reduce_sum", {x}, {P("dims", scalar_i(d)), P("keep_dims", tensor::from<bool>(r.chance(0.5)))});
    return g.op("reduce_mean", {x}, {P("dims", ints({d})), P("keep_dims", tensor::from<bool>(r.chance(0.5)))}); }
OPMAKER(mk_argmax) { PRE; if (!g.anyf(x)) return false; return g.op("argmax", {x}, {P("dim", scalar_i((int)r.below(x.value.dims())))}); }
OPMAKER(mk_max) { PRE; if (!g.anyf(x)) return false; return g.op("max", {x}, {P("dim", scalar_i((int)r.below(x.value.dims()))), P("keep_dims", scalar_i((int)r.below(2)))}); }
OPMAKER(mk_topk) { PRE; if (!g.anyf(x)) return false; int n = x.value.size(x.value.dims() - 1); return g.op("topkv2", {x}, {P("number", scalar_i((int)r.range(1, n))), P("sorted", scalar_i((int)r.below(2)))}); }
OPMAKER(mk_cast) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false; static const DTYPE ds[] = {FLOAT32, FLOAT64, INT32, INT64, UINT8, INT16, FLOAT32, FLOAT32}; DTYPE d = ds[r.below(8)];
    if (x.value.dtype() == FLOAT32 || x.value.dtype() == FLOAT64) for (int i = 0; i < x.value.count(); ++i) { double v = x.value.dtype() == FLOAT32 ? x.value.data<float>()[i] : x.value.data<double>()[i]; if (!(v > -100 && v < 100)) d = FLOAT64; }
    return g.op(name::layer::cast(), {x}, {P("dtype", scalar_i(int(d)))}); }
OPMAKER(mk_leaky) { PRE; if (!g.anyf(x)) return false; return g.op("leaky_relu", {x}, {P("scale", scalar_f(float(r.unit())))}); }
OPMAKER(mk_relu_max) { PRE; if (!g.anyf(x)) return false; return g.op("relu_max", {x}, {P("max", scalar_f(float(r.unit())))}); }
OPMAKER(mk_hard_sigmoid) { PRE; if (!g.anyf(x)) return false; return g.op("hard_sigmoid", {x}, {P("alpha", scalar_f(0.2f)), P("beta", scalar_f(float(r.unit())))}); }
OPMAKER(mk_pow) { PRE; if (!g.anyf(x)) return false; auto y = g.cst(floats({float(r.range(1, 3))})); (void)y; return g.op("pow", {x}, {P("y", scalar_f(float(r.range(1, 3))))}); }
OPMAKER(mk_l2_norm) { PRE; if (!g.anyf(x)) return false; return g.op("l2_norm", {x}, {P("dim", scalar_i((int)r.below(x.value.dims()))), P("epsilon", scalar_f(1e-6f))}); }
OPMAKER(mk_gemm) { PRE; if (!g.f2(x)) return false; int k = x.value.size(1), m = x.value.size(0), n = (int)r.range(1, 9); bool tb = r.chance(0.5);
    auto b = g.cst(rndf(r, tb ? Shape({n, k}) : Shape({k, n}))), c = g.cst(rndf(r, r.chance(0.5) ? Shape({n}) : Shape({m, n})));
    return g.op("gemm", {x, b, c}, {P("alpha", scalar_f(1.f)), P("beta", scalar_f(float(r.unit()))), P("transA", scalar_i(0)), P("transB", scalar_i(tb))}); }
OPMAKER(mk_inner_prod) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.dims() >= 2; })) return false; int k = x.value.count() / std::max(1, x.value.size(0)), n = (int)r.range(1, 9); bool tb = r.chance(0.5);
    auto b = g.cst(rndf(r, tb ? Shape({n, k}) : Shape({k, n}))); return g.op("inner_prod", {x, b}, {P("transpose", tensor::from<bool>(tb))}); }
OPMAKER(mk_matmul) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.dims() == 2; })) return false; Shape s = x.value.sizes(); int d = int(s.size()); int k = s[d - 1]; Shape t = s; t[d - 2] = k; t[d - 1] = (int)r.range(1, 5);
    auto b = g.cst(rndf(r, t)); return g.op("matmul", {x, b}, {}); }
OPMAKER(mk_lstm) {
    PRE; int I, T, B, H = (int)r.range(1, 3);
    if (!g.f2(x)) return false;
    T = x.value.size(0); I = x.value.size(1); B = 1;
    if (!g.op(name::layer::reshape(), {x}, {P("shape", ints({T, B, I}))})) return false;
    Val y = g.vals.back();
    int D = r.chance(0.5) ? 1 : 2;
    auto w = g.cst(rndf(r, {D, 4 * H, I})), rr = g.cst(rndf(r, {D, 4 * H, H})), b = g.cst(rndf(r, {D, 8 * H})), h = g.cst(rndf(r, {D, B, H})), c = g.cst(rndf(r, {D, B, H}));
    return g.op("LSTM", {y, w, rr, b, h, c}, {P("direction", tensor::from(D == 1 ? (r.chance(0.5) ? "forward" : "reverse") : "bidirectional")), P("hidden_size", scalar_i(H))});
}
OPMAKER(mk_nms) {
    PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.count() % 4 == 0 && v.value.count() >= 4 && v.value.count() <= 256; })) return false;
    int n = x.value.count() / 4; if (!g.op(name::layer::reshape(), {x}, {P("shape", ints({n, 4}))})) return false;
    Val y = g.vals.back(); auto s = g.cst(posf(r, {n}));
    return g.op("non_max_suppression_v3", {y, s}, {P("max_output_size", scalar_i((int)r.range(1, n))), P("iou_threshold", scalar_f(0.5f)), P("score_threshold", scalar_f(0.3f)), P("mode", tensor::from(r.chance(0.5) ? "xyxy" : "xywh"))});
}
OPMAKER(mk_roi_align) { PRE; if (!g.f4(x)) return false; Tensor b(FLOAT32, {2, 5}); for (int i = 0; i < 2; ++i) { float *p = b.data<float>() + i * 5; p[0] = 0; p[1] = float(r.unit()); p[2] = float(r.unit()); p[3] = 1 + float(r.unit() * 2); p[4] = 1 + float(r.unit() * 2); }
    auto c = g.cst(b); return g.op("roi_align", {x, c}, {P("pool_h", scalar_i((int)r.range(1, 3))), P("pool_w", scalar_i((int)r.range(1, 3))), P("spatial_scale", scalar_f(1.f))}); }
OPMAKER(mk_prior_box) { PRE; if (!g.f4(x)) return false; auto im = g.cst(rndf(r, {1, 3, 16, 16})); return g.op("prior_box", {x, im}, {P("min_size", floats({4.f})), P("max_size", floats({8.f})), P("aspect_ratio", floats({2.f})), P("flip", tensor::from<bool>(true)), P("clip", tensor::from<bool>(false)), P("variance", floats({0.1f, 0.1f, 0.2f, 0.2f})), P("step", scalar_f(4.f)), P("offset", scalar_f(0.5f))}); }
OPMAKER(mk_crop_to) { PRE; if (!g.f4(x)) return false; Shape s = x.value.sizes(); s[2] = (int)r.range(1, s[2]); s[3] = (int)r.range(1, s[3]); auto y = g.cst(rndf(r, s)); return g.op("crop_to", {x, y}, {P("axis", scalar_i(2)), P("offset", ints({0, 0}))}); }
OPMAKER(mk_range) { PRE; auto a = g.cst(scalar_i(0)), b = g.cst(scalar_i((int)r.range(1, 9))), c = g.cst(scalar_i(1)); return g.op("range", {a, b, c}, {}); }
OPMAKER(mk_shape_chain) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1 && v.value.count() < 500; })) return false; if (!g.op(name::layer::shape(), {x}, {})) return false; Val s = g.vals.back(); return g.op("constant_of_shape", {s}, {P("value", floats({float(r.unit())}))}); }
OPMAKER(mk_s2b) { PRE; if (!g.f4(x)) return false; int ph = x.value.size(2) % 2, pw = x.value.size(3) % 2; return g.op(name::layer::spacetobatch4d(), {x}, {P("padding", ints2(2, {0, ph, 0, pw})), P("block_shape", ints({2, 2}))}); }
OPMAKER(mk_b2s) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.dims() == 4 && v.value.size(0) % 4 == 0; })) return false; return g.op(name::layer::batchtospace4d(), {x}, {P("crop", ints2(2, {0, 0, 0, 0})), P("block_shape", ints({2, 2}))}); }
OPMAKER(mk_image) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.dims() == 4 && (v.value.size(3) == 3 || v.value.size(3) == 1); })) return false;
    static const char *n[] = {"force_gray", "force_color", "norm_image", "prewhiten"}; int k = (int)r.below(4); return k == 2 ? g.op(n[k], {x}, {P("epsilon", scalar_f(1e-5f))}) : g.op(n[k], {x}, {}); }
OPMAKER(mk_unary) { PRE; if (!g.anyf(x)) return false; static const std::vector<const char *> n = {"abs", "relu", "sigmoid", "exp", "square", "tanh", "softplus", "erf", "floor", "ceil"}; return g.op(n[r.below(n.size())], {x}, {}); }
OPMAKER(mk_sqrt) { PRE; if (!g.anyf(x)) return false; if (!g.op("square", {x}, {})) return false; Val y = g.vals.back(); auto e = g.cst(floats({0.5f})); if (!g.op("add", {y, e}, {})) return false; Val z = g.vals.back(); return g.op(r.chance(0.5) ? "sqrt" : "rsqrt", {z}, {}); }
OPMAKER(mk_binary) {
    PRE; if (!g.anyf(x)) return false;
    static const char *n[] = {"add", "sub", "mul", "div", "maximum"};
    const char *o = n[r.below(5)];
    Val y; Shape s = x.value.sizes();
    switch (r.below(5)) {
        case 0: { if (!g.pick(y, [&](const Val &v) { return v.value.dtype() == FLOAT32 && v.value.sizes() == s; })) return false; break; }
        case 1: y = g.shared_cst(posf(r, s)); break;
        case 2: y = g.shared_cst(posf(r, {1})); break;
        case 3: { for (auto &d : s) if (r.chance(0.5)) d = 1; y = g.shared_cst(posf(r, s)); break; }
        default: { Shape b(s.size(), 1); b[r.below(s.size())]; size_t d = s.size() >= 2 ? 1 : 0; b[d] = s[d]; y = g.shared_cst(posf(r, b)); }
    }
    if (r.chance(0.3)) return g.op(o, {y, x}, {});
    return g.op(o, {x, y}, {});
}
OPMAKER(mk_equal) { PRE; if (!g.anyf(x)) return false; auto y = g.shared_cst(rndf(r, x.value.sizes())); return r.chance(0.5) ? g.op("equal", {x, y}, {}) : g.op("equal", {x, x}, {}); }
OPMAKER(mk_mod) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == INT32 && v.value.dims() >= 1; })) return false; auto y = g.cst(scalar_i((int)r.range(1, 5))); return g.op("mod", {x, y}, {}); }
OPMAKER(mk_int_binary) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dtype() == INT32 && v.value.dims() >= 1; })) return false; auto y = g.cst(ints({(int)r.range(1, 5)})); static const char *n[] = {"add", "sub", "mul"}; return g.op(n[r.below(3)], {x, y}, {}); }
OPMAKER(mk_dims) { PRE; if (!g.anyf(x)) return false; return g.op("_dims", {x}, {}); }
OPMAKER(mk_pack) { PRE; if (!g.anyf(x)) return false; Val y; if (!g.anyf(y)) return false; if (x.konst || y.konst) return false; return g.op(name::layer::pack(), {x, y}, {}); }
OPMAKER(mk_copy) { PRE; if (!g.anyf(x)) return false; return g.op(name::layer::copy(), {x}, {}); }
OPMAKER(mk_to_float) { PRE; if (!g.pick(x, [](const Val &v) { return v.value.dims() >= 1; })) return false; return g.op("to_float", {x}, {}); }
OPMAKER(mk_shape_index_patch) { PRE; if (!g.f4(x)) return false; auto y = g.cst(posf(r, {x.value.size(0), 4, 1, 1})); return g.op("shape_index_patch", {x, y}, {P("origin_patch", ints({2, 2})), P("origin", ints({8, 8}))}); }
OPMAKER(mk_dcn) { PRE; if (!g.f4(x)) return false; if (!fits(x, 3, 3)) return false; int c = x.value.size(1), h = x.value.size(2), w = x.value.size(3), n = x.value.size(0); if (h < 3 || w < 3) return false;
    auto wt = g.cst(rndf(r, {2, c, 3, 3})), bb = g.cst(rndf(r, {2})), of = g.cst(rndf(r, {n, 18, h, w})), mk = g.cst(posf(r, {n, 9, h, w}));
    (void)bb;
    return g.op("dcn_v2_forward", {x, wt, bb, of, mk}, {P("format", tensor::from(name::NCHW)), P("padding", Gen::pad4(1, 1, 1, 1)), P("stride", Gen::q4(1, 1)), P("dilation", Gen::q4(1, 1)), P("deformable_groups", scalar_i(1))}); }

inline const std::vector<Entry> &entries() {
    static const std::vector<Entry> e = {
        {"conv2d", mk_conv2d, 4}, {"conv1x1", mk_conv1x1, 2}, {"conv3x3", mk_conv3x3, 3}, {"conv2d_v2", mk_conv2d_v2, 2}, {"depthwise", mk_depthwise, 2}, {"depthwise_v2", mk_depthwise_v2, 1},
        {"winograd", mk_winograd, 2}, {"winograd_v2", mk_winograd_v2, 1}, {"transpose_conv2d", mk_transpose_conv2d, 1}, {"quant_conv", mk_quant_conv, 1}, {"quantize", mk_quantize, 1},
        {"pooling2d", mk_pooling2d, 2}, {"pooling2d_v2", mk_pooling2d_v2, 1}, {"global_pooling", mk_global_pooling, 1}, {"add_bias", mk_add_bias, 2}, {"batch_norm", mk_batch_norm, 2}, {"batch_scale", mk_batch_scale, 2},
        {"fused_bn", mk_fused_bn, 1}, {"prelu", mk_prelu, 1}, {"softmax", mk_softmax, 2}, {"concat", mk_concat, 2}, {"stack", mk_stack, 1}, {"flatten", mk_flatten, 2}, {"reshape", mk_reshape, 2}, {"transpose", mk_transpose, 2},
        {"unsqueeze", mk_unsqueeze, 1}, {"squeeze", mk_squeeze, 1}, {"slice", mk_slice, 2}, {"chunk", mk_chunk, 1}, {"split", mk_split, 1}, {"pad", mk_pad, 1}, {"tile", mk_tile, 1}, {"broadcast", mk_broadcast, 1}, {"expand", mk_expand, 1},
        {"gather", mk_gather, 1}, {"gatherv2", mk_gatherv2, 1}, {"gather_elements", mk_gather_elements, 1}, {"scatter_nd", mk_scatter_nd, 1}, {"where", mk_where, 1}, {"dimshuffle", mk_dimshuffle, 1}, {"resize2d", mk_resize2d, 1}, {"resize_nn", mk_resize_nn, 1},
        {"sample2d", mk_sample2d, 1}, {"affine", mk_affine, 1}, {"reduce", mk_reduce, 2}, {"argmax", mk_argmax, 1}, {"max", mk_max, 1}, {"topk", mk_topk, 1}, {"cast", mk_cast, 1}, {"leaky", mk_leaky, 1}, {"relu_max", mk_relu_max, 1},
        {"hard_sigmoid", mk_hard_sigmoid, 1}, {"pow", mk_pow, 1}, {"l2_norm", mk_l2_norm, 1}, {"gemm", mk_gemm, 2}, {"inner_prod", mk_inner_prod, 2}, {"matmul", mk_matmul, 1}, {"lstm", mk_lstm, 1}, {"nms", mk_nms, 1}, {"roi_align", mk_roi_align, 1},
        {"prior_box", mk_prior_box, 1}, {"crop_to", mk_crop_to, 1}, {"range", mk_range, 1}, {"shape_chain", mk_shape_chain, 1}, {"s2b", mk_s2b, 1}, {"b2s", mk_b2s, 1}, {"image", mk_image, 1}, {"unary", mk_unary, 4}, {"sqrt", mk_sqrt, 1},
        {"binary", mk_binary, 5}, {"equal", mk_equal, 1}, {"mod", mk_mod, 1}, {"int_binary", mk_int_binary, 1}, {"dims", mk_dims, 1}, {"pack", mk_pack, 1}, {"copy", mk_copy, 1}, {"to_float", mk_to_float, 1}, {"shape_index_patch", mk_shape_index_patch, 1}, {"dcn", mk_dcn, 1},
    };
    return e;
}
#undef OPMAKER
#undef PRE
}
