// Objects made once per process (function-local statics, registries) exist before the first run, so that leak checks only
// see what a run allocates.
#include "bench.h"
using namespace bench;
static void warm() {
    default_threads(1);
    Rng r(20240229);
    for (auto &e : zoo::entries()) for (int k = 0; k < 3; ++k) {
        zoo::Config c; c.only = e.kind; c.max_ops = 2; c.image_input = k == 2;
        try {
            auto m = zoo::make(r, c);
            auto b = Workbench::Load(m.module, cpu(), k ? "--winograd" : "");
            for (auto &i : m.inputs) b->input(i.name, i.base);
            if (k == 2) b->bind_filter(m.inputs[0].name, build(random_filter(r, 3)));
            b->run();
        } catch (const std::exception &) {}
    }
    try { Bubble b("conv2d", "x"); Workbench w(cpu()); w.offline_create(b, true); } catch (const std::exception &) {}
}
static sim::InitReg reg(warm);
