// C01: parallel MoC sweeps give the serial answer under every schedule.
#include "ompmc_explore.hpp"
#include "sweep_setup.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static cp::Problem problem(int kind)
{
    cp::Problem p;
    p.ng = 1;
    p.groups = {1};
    p.hz     = {1.5};
    p.nx = p.ny = 1;
    p.pins   = {{{1, {0, 1}}}};
    if (kind == 1) {
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{{1, {0, 1}}}, {{1, {3, 1}}}};
    } else if (kind == 2) {
        p.nx = 2;
        p.pins = {{{1, {0, 1}}, {0, {3, 1, 1}}}};
    } else if (kind == 3) {
        p.ng = 2;
    }
    cp::finish(p);
    return p;
}
static void sweeps(Ctx &c)
{
    int kind     = c.choose(4);
    int gs       = c.choose(2);
    int currents = c.choose(2);
    int bc       = c.choose(2);
    int threads  = 2 + c.choose(2);
    int base     = c.choose(3);
    int part     = c.choose(2);
    if (!c.leaf(fmt("core %d, %s update, %s currents, boundary %d, %d threads, base order %d, part %d", kind, gs ? "gs" : "jacobi", currents ? "with" : "without", bc, threads, base, part))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        auto p   = problem(kind);
        auto lib = cp::library(p.ng);
        std::string xml = p.xml;
        if (bc) {
            std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
            xml.replace(xml.find(old), old.size(), ci::bcs("vacuum", "reflect", "reflect", "reflect", "reflect", "reflect"));
        }
        auto s = std::make_shared<sw::Setup>(xml + ci::lib_tag(lib, "lib.xsl"),
                                             fmt("<sweeper type=\"moc\" n_inner=\"%d\" boundary_update=\"%s\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></sweeper>", 1, gs ? "gs" : "jacobi"), currents);
        return [s](ompmc::Outcome &o) {
            for (int k = 0; k < 2; k++) {
                s->outer();
                o.add(fmt("flux after sweep %d", k + 1), s->sweeper->flux());
                if (s->coarse) {
                    o.add("current", s->coarse->current);
                    o.add("surface flux", s->coarse->surface_flux);
                }
            }
        };
    };
    ompmc::Bounds b;
    b.threads    = threads;
    b.base       = base;
    // the small ones deeper
    bool small   = kind == 0 && threads == 2;
    b.deviations = small ? 2 : 1;
    if (c.thorough()) {
        b.deviations = small && !currents ? 3 : threads == 2 || kind == 0 ? 2 : 1;
    }
    b.part       = part;
    b.parts      = 2;
    b.max_runs   = 200000;
    b.tol        = 1e-11;
    ompmc::explore(c, make, b);
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "C01", {{"sweeps", sweeps, 300, "sweeps of small cores, each explored over all schedules within the bound on deviations from a base order"}});
}
