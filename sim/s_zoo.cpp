// Self test of the model generator: how often each operator is accepted.
#include "zoo.h"
using namespace scn;
SCENARIO(zoo_self, "SELF") {
    sim::Quiet q;
    auto &r = sim::rng();
    zoo::Config c; c.max_ops = 10; c.only = "*";
    auto m = zoo::make(r, c);
    auto b = ts::Workbench::Load(m.module, zoo::cpu());
    b->runtime().set_computing_thread_number(1);
    for (size_t i = 0; i < m.inputs.size(); ++i) b->input(m.inputs[i].name, zoo::deep(m.inputs[i].base));
    b->run();
    sim::tag("ran");
    for (int i = 0; i < b->output_count(); ++i) sim::event(zoo::hash_of(zoo::bytes_of(b->output(i))));
}
