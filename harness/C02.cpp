// C02: parallel Sn sweeps give the serial answer under every schedule.
#include "ompmc_explore.hpp"
#include "sweep_setup.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static cp::Problem problem(int kind)
{
    cp::Problem p;
    p.ng     = kind == 3 ? 2 : 1;
    p.groups = {1};
    p.hz     = {1.5};
    p.nx     = 2;
    p.ny     = 1;
    p.pins   = {{{1, {0, 1}}, {1, {3, 1}}}};
    if (kind == 1 || kind == 3) {
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{{1, {0, 1}}, {1, {3, 1}}}, {{1, {3, 1}}, {1, {1, 1}}}};
    } else if (kind == 2) {
        p.nx   = 1;
        p.ny   = 2;
    }
    cp::finish(p);
    return p;
}
static const char *SCHEME[] = {"equation=\"dd\" axial=\"dd\"", "equation=\"dd\" axial=\"sc\"", "equation=\"cdd\" axial=\"dd\"", "equation=\"cdd\" axial=\"sc\"", "equation=\"cdd\" axial=\"fw\"", "equation=\"cdd\" axial=\"dd_ff\""};

static void sweeps(Ctx &c)
{
    int kind     = c.choose(4);
    int scheme   = c.choose(kind == 0 || kind == 1 ? 6 : 2);
    int gs       = c.choose(2);
    int currents = c.choose(2);
    int bc       = c.choose(2);
    int threads  = 2 + c.choose(2);
    int base     = c.choose(3);
    if (!c.leaf(fmt("core %d, %s, %s update, %s currents, boundary %d, %d threads, base order %d", kind, SCHEME[scheme], gs ? "gs" : "jacobi", currents ? "with" : "without", bc, threads, base))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        auto p   = problem(kind);
        auto lib = cp::library(p.ng);
        std::string xml = p.xml;
        if (bc) {
            std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
            xml.replace(xml.find(old), old.size(), ci::bcs("reflect", "reflect", "vacuum", "reflect", "reflect", kind == 2 ? "reflect" : "vacuum"));
        }
        // the parallel sweeper falls back to the update that does not depend
        // on the order of the angles
        bool jacobi = !gs || ompmc::threads() == 1;
        auto s = std::make_shared<sw::Setup>(xml + ci::lib_tag(lib, "lib.xsl"),
                                             fmt("<sweeper type=\"sn\" %s n_inner=\"1\" boundary_update=\"%s\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>", SCHEME[scheme], jacobi ? "jacobi" : "gs"), currents);
        return [s](ompmc::Outcome &o) {
            for (int k = 0; k < 2; k++) {
                s->outer();
                o.add(fmt("flux after sweep %d", k + 1), s->sweeper->flux());
                if (s->coarse) {
                    o.add("current", s->coarse->current);
                    o.add("surface flux", s->coarse->surface_flux);
                    std::vector<double> pc;
                    for (auto &x : s->coarse->partial_current) {
                        pc.push_back(x[0]);
                        pc.push_back(x[1]);
                    }
                    o.add("partial current", pc);
                }
            }
        };
    };
    ompmc::Bounds b;
    b.threads    = threads;
    b.base       = base;
    b.deviations = (threads == 2 ? 2 : 1) + (c.thorough() ? 1 : 0);
    b.part       = 0;
    b.parts      = 1;
    b.max_runs   = 200000;
    b.tol        = 1e-11;
    ompmc::explore(c, make, b);
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "C02", {{"sweeps", sweeps, 300, "sweeps of small cores, each explored over all schedules within the bound on deviations from a base order"}});
}
