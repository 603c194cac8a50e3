// C04: Monte Carlo generations are the serial ones under every schedule.
#include "ompmc_explore.hpp"
#include "core_problem.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "sweepers/mc/particle_pusher.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using mocc::mc::FissionBank;
using mocc::mc::MonteCarloEigenvalueSolver;
using mocc::mc::Particle;
using mocc::mc::ParticlePusher;

static std::string core_xml(int kind, int bc)
{
    cp::Problem p;
    p.ng     = 2;
    p.groups = {1};
    p.hz     = {1.5};
    p.nx = p.ny = 1;
    p.pins   = {{{1, {0, 1}}}};
    if (kind == 1) {
        p.nx     = 2;
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{{0, {0, 1, 1}}, {1, {3, 1}}}, {{1, {0, 1}}, {0, {3, 1, 1}}}};
    }
    cp::finish(p);
    auto lib = cp::library(2);
    lib[3].sc[0][0] = 0.02; // no negative probabilities
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    if (bc) {
        p.xml.replace(p.xml.find(old), old.size(), ci::bcs("reflect", "reflect", "reflect", "reflect", "reflect", "reflect"));
    }
    return p.xml + ci::lib_tag(lib, "lib.xsl");
}
static double tame(double x)
{
    return std::isfinite(x) ? x : -7.0;
}
// means and variances; the variances because their roots magnify rounding
template <class T> static void add_spatial(ompmc::Outcome &o, const std::string &name, const T &tally)
{
    std::vector<double> m, v;
    for (auto &x : tally.get()) {
        m.push_back(tame(x.first));
        v.push_back(tame(x.second * x.second));
    }
    o.add(name, m);
    o.add(name + " variance", v);
}
static void add_scalar(ompmc::Outcome &o, const std::string &name, const mocc::mc::TallyScalar &t)
{
    auto x = t.get();
    o.add(name, tame(x.first));
    // of a single value it is not defined
    o.add(name + " variance", tame(x.second * x.second));
}
static void add_bank(ompmc::Outcome &o, const std::string &name, const FissionBank &b)
{
    std::vector<double> v;
    for (auto &p : b) {
        v.insert(v.end(), {p.location_global.x, p.location_global.y, p.location_global.z, p.direction.ox, p.direction.oy, p.direction.oz, (double)p.group, (double)p.id, p.weight});
    }
    o.add("=" + name, v);
    o.add("=size of " + name, (double)b.size());
}
static const char *BOX[] = {"<fission_box x_min=\"0\" x_max=\"1.2\" y_min=\"0\" y_max=\"1.2\" z_min=\"0\" z_max=\"1.5\" fissile_rejection=\"f\"/>",
                            "<fission_box x_min=\"0\" x_max=\"2.4\" y_min=\"0\" y_max=\"1.2\" z_min=\"0\" z_max=\"2.3\" fissile_rejection=\"t\"/>"};

// Generations as the solver runs them, everything looked at
struct Sim {
    ci::Doc doc;
    CoreMesh mesh;
    XSMesh xs;
    ParticlePusher pusher;
    RNG_LCG rng;
    FissionBank source;
    int n;

    Sim(int kind, int bc, int n, int seed)
        : doc("<mocc>" + core_xml(kind, bc) + BOX[kind] + "</mocc>"), mesh(doc.root()), xs(mesh, MeshTreatment::TRUE), pusher(mesh, xs), rng(seed), source(doc.root().child("fission_box"), n, mesh, xs, rng), n(n)
    {
        pusher.set_seed(seed);
    }
    void run(ompmc::Outcome &o, int gens)
    {
        for (int k = 0; k < gens; k++) {
            std::string at = fmt(" after generation %d", k + 1);
            pusher.simulate(source, 1.0);
            add_scalar(o, "k by track length" + at, pusher.k_tally_tl());
            add_scalar(o, "k by collisions" + at, pusher.k_tally_col());
            add_scalar(o, "k by sites" + at, pusher.k_tally_analog());
            o.add("weight of the new sites" + at, pusher.fission_bank().total_fission());
            o.add("=source entropy" + at, source.shannon_entropy());
            source.swap(pusher.fission_bank());
            std::stable_sort(source.begin(), source.end());
            add_bank(o, "new sites" + at, source);
            if (source.size() == 0) {
                break;
            }
            source.resize(n, rng);
            int i = 0;
            for (auto &p : source) {
                p.id = i++;
            }
            add_bank(o, "next source" + at, source);
            pusher.reset_tallies();
        }
        for (int g = 0; g < 2; g++) {
            add_spatial(o, fmt("pin flux of group %d", g), pusher.flux_tallies()[g]);
            add_spatial(o, fmt("fine flux of group %d", g), pusher.fine_flux_tallies()[g]);
        }
    }
};
static void generations(Ctx &c)
{
    int kind    = c.choose(2);
    int bc      = c.choose(2);
    int n       = 2 + c.choose(c.thorough() ? 5 : 4);
    int gens    = 1 + c.choose(3);
    int seed    = c.choose(c.thorough() ? 4 : 2);
    int threads = 2 + c.choose(2);
    int base    = c.choose(3);
    if (!c.leaf(fmt("core %d, boundary %d, %d particles, %d generations, seed %d, %d threads, base order %d", kind, bc, n, gens, 2 * seed + 1, threads, base))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        auto s = std::make_shared<Sim>(kind, bc, n, 2 * seed + 1);
        return [s, gens](ompmc::Outcome &o) { s->run(o, gens); };
    };
    ompmc::Bounds b;
    b.threads    = threads;
    b.base       = base;
    b.deviations = (n <= 3 && gens <= 2 ? 3 : 2) + (c.thorough() ? 1 : 0);
    b.part       = 0;
    b.parts      = 1;
    b.max_runs   = 200000;
    b.tol        = 1e-11;
    ompmc::explore(c, make, b);
}
// The solver as a whole, by what it writes
static void solver(Ctx &c)
{
    int kind    = c.choose(2);
    int bc      = c.choose(2);
    int cycles  = 1 + c.choose(2);
    int inact   = c.choose(2);
    int threads = 2 + c.choose(2);
    int base    = c.choose(3);
    if (!c.leaf(fmt("solver, core %d, boundary %d, %d cycles, %d inactive, %d threads, base order %d", kind, bc, cycles, inact, threads, base))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        struct All {
            ci::Doc doc;
            CoreMesh mesh;
            MonteCarloEigenvalueSolver s;
            All(const std::string &t) : doc(t), mesh(doc.root()), s(doc.root().child("solver"), mesh) {}
        };
        auto s = std::make_shared<All>("<mocc>" + core_xml(kind, bc) + fmt("<solver type=\"eigenvalue_mc\" cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"6\" seed=\"11\">", cycles, inact) + BOX[kind] + "</solver></mocc>");
        return [s](ompmc::Outcome &o) {
            try {
                s->s.solve();
            } catch (...) {
                // no sites left
                o.add("=stopped", 1.0);
                return;
            }
            {
                H5Node f("out.h5", H5Access::WRITE);
                s->s.output(f);
            }
            H5Node f("out.h5", H5Access::READ);
            for (const char *k : {"k_history_tl", "k_history_col", "k_history_analog", "h_history", "k_mean_history_tl", "k_mean_history_col", "k_mean_history_analog", "pin_power", "flux/001", "flux/002", "fsr_flux/001", "fsr_flux/002", "fsr_flux_col/001", "fsr_flux_col/002"}) {
                ArrayB1 a;
                f.read_1d(k, a);
                std::vector<double> v(a.begin(), a.end());
                for (auto &x : v) {
                    x = tame(x);
                }
                o.add(k, v);
            }
            for (const char *k : {"k_stdev_history_tl", "k_stdev_history_col", "k_stdev_history_analog", "pin_power_stdev"}) {
                ArrayB1 a;
                f.read_1d(k, a);
                std::vector<double> v(a.begin(), a.end());
                for (auto &x : v) {
                    x = tame(x * x);
                }
                o.add(k, v);
            }
        };
    };
    ompmc::Bounds b;
    b.threads    = threads;
    b.base       = base;
    b.deviations = c.thorough() ? 2 : 1;
    b.part       = 0;
    b.parts      = 1;
    b.max_runs   = 200000;
    b.tol        = 1e-11;
    ompmc::explore(c, make, b);
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "C04",
                     {{"generations", generations, 300, "one to three generations of a few particles, each explored over all schedules within the bound on deviations from a base order"},
                      {"solver", solver, 300, "whole solver runs, each explored over all schedules within the bound"}});
}
