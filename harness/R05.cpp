// R05: Monte Carlo runs carry the source through the cycles that were asked for.
#include <omp.h>
#include "core_problem.hpp"
#include "mc.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "sweepers/mc/particle_pusher.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using mocc::mc::FissionBank;
using mocc::mc::MonteCarloEigenvalueSolver;
using mocc::mc::Particle;
using mocc::mc::ParticlePusher;

typedef std::vector<double> Vec;
static const int NG = 2;

struct Case {
    cp::Problem p;
    std::vector<ci::Mat> lib;
    std::string text; // without the solver
    int nx, ny, nz;
};
static Case make(int kind)
{
    Case k;
    auto &p  = k.p;
    p.ng     = NG;
    p.groups = {1};
    p.hz     = {4.0};
    switch (kind) {
    case 0:
        p.nx   = 2;
        p.ny   = 1;
        p.pins = {{cp::PinDef{0, {3, 3, 1}}, cp::PinDef{1, {3, 0}}}};
        break;
    case 1: // planes of unequal height, groups of planes
        p.nx     = 1;
        p.ny     = 2;
        p.groups = {2, 1};
        p.hz     = {0.9, 1.7, 2.2};
        p.pins   = {{cp::PinDef{0, {3, 0, 3}}, cp::PinDef{1, {0, 3}}}, {cp::PinDef{1, {3, 3}}, cp::PinDef{0, {3, 1, 0}}}};
        break;
    default: // more than one assembly
        p.nx   = 1;
        p.ny   = 2;
        p.ax   = 2;
        p.pins = {{cp::PinDef{0, {3, 3, 3}}, cp::PinDef{1, {3, 1}}, cp::PinDef{1, {0, 3}}, cp::PinDef{0, {0, 3, 1}}}};
    }
    cp::finish(p);
    if (kind != 2) { // keep the chain going
        for (size_t i; (i = p.xml.find("vacuum")) != std::string::npos;) {
            p.xml.replace(i, 6, "reflect");
        }
    }
    k.lib             = cp::library(NG);
    k.lib[3].sc[0][0] = 0.02; // no negative probabilities
    for (auto &x : k.lib[3].nf) {
        x *= 1.5;
    }
    k.text = p.xml + ci::lib_tag(k.lib, "lib.xsl");
    k.nx   = p.nx * p.ax;
    k.ny   = p.ny * p.ay;
    k.nz   = p.hz.size();
    return k;
}
static double height(const Case &k)
{
    double h = 0;
    for (double x : k.p.hz) {
        h += x;
    }
    return h;
}
static std::string box(const Case &k, int which)
{
    double f = which == 0 ? 1.0 : 0.5; // all of the core, or a corner
    return fmt("<fission_box x_min=\"0\" x_max=\"%g\" y_min=\"0\" y_max=\"%g\" z_min=\"0\" z_max=\"%g\" fissile_rejection=\"f\"/>", f * 1.2 * k.nx, f * 1.2 * k.ny, f * height(k));
}
static double entropy(const Case &k, const FissionBank &b)
{
    std::vector<double> n(k.nx * k.ny * k.nz, 0.0);
    for (auto &s : b) {
        auto &r = s.location_global;
        int x = std::min((int)(r.x / 1.2), k.nx - 1), y = std::min((int)(r.y / 1.2), k.ny - 1), z = 0;
        double top = k.p.hz[0];
        while (z + 1 < k.nz && r.z >= top) {
            top += k.p.hz[++z];
        }
        n[(z * k.ny + y) * k.nx + x] += s.weight;
    }
    double h = 0;
    for (double v : n) {
        h -= v > 0 ? v / b.size() * std::log2(v / b.size()) : 0.0;
    }
    return h;
}
static Vec get(H5Node &f, const std::string &path)
{
    ArrayB1 a;
    f.read_1d(path, a);
    return Vec(a.begin(), a.end());
}
struct Cycle {
    double k[3], h;
    std::map<std::string, Vec> tally; // of this cycle alone
};
static const char *EST[] = {"tl", "col", "analog"};
static std::vector<std::string> paths()
{
    std::vector<std::string> v;
    for (int g = 1; g <= NG; g++) {
        for (const char *t : {"flux", "fsr_flux", "fsr_flux_col"}) {
            v.push_back(fmt("%s/%03d", t, g));
        }
    }
    return v;
}
// the cycles one by one; false if the source dies out
static bool cycles(const Case &k, CoreMesh &mesh, const pugi::xml_node &solver, int n, int np, uint64_t seed, std::vector<Cycle> &out)
{
    XSMesh xs(mesh, MeshTreatment::TRUE);
    RNG_LCG rng(seed);
    FissionBank bank(solver.child("fission_box"), np, mesh, xs, rng);
    ParticlePusher pusher(mesh, xs);
    pusher.set_seed(seed);
    for (int i = 0; i < n; i++) {
        Cycle c;
        c.h = entropy(k, bank);
        pusher.simulate(bank, 1.0);
        c.k[0] = pusher.k_tally_tl().get().first;
        c.k[1] = pusher.k_tally_col().get().first;
        c.k[2] = pusher.k_tally_analog().get().first;
        {
            H5Node f("cycle.h5", H5Access::WRITE);
            pusher.output(f);
        }
        H5Node f("cycle.h5", H5Access::READ);
        for (auto &p : paths()) {
            c.tally[p] = get(f, p);
        }
        out.push_back(c);
        pusher.reset_tallies(true);
        // what comes next: in order of the parents, as many as asked for
        std::vector<Particle> sites(pusher.fission_bank().begin(), pusher.fission_bank().end());
        std::stable_sort(sites.begin(), sites.end(), [](const Particle &a, const Particle &b) { return a.id < b.id; });
        if (sites.empty()) {
            return false;
        }
        FissionBank next(mesh);
        for (auto &s : sites) {
            next.push_back(s);
        }
        next.resize(np, rng);
        unsigned id = 0;
        for (auto &s : next) {
            s.id = id++;
        }
        bank.swap(next);
    }
    return true;
}
static void check(Ctx &c, int kind, int inactive, int total, int np, uint64_t seed, int where, bool twice)
{
    auto k = make(kind);
    ci::Doc doc("<mocc>" + k.text + fmt("<solver cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"%d\" seed=\"%llu\">", total, inactive, np, (unsigned long long)seed) + box(k, where) +
                "</solver></mocc>");
    auto node = doc.root().child("solver");
    CoreMesh mesh(doc.root());
    std::vector<Cycle> ref;
    bool alive = cycles(k, mesh, node, total + 1, np, seed, ref);
    c.steps(ref.size() * np);
    bool ended = false;
    {
        MonteCarloEigenvalueSolver s(node, mesh);
        try {
            s.solve();
        } catch (const Exception &) {
            ended = true;
        }
        if (!alive || ended) {
            // the last cycle may or may not be wanted
            c.expect(ended ? !alive : (int)ref.size() > total, ended ? "gives up though there are fission sites" : "goes on without fission sites");
            return;
        }
        H5Node f("run.h5", H5Access::WRITE);
        s.output(f);
    }
    H5Node f("run.h5", H5Access::READ);
    Vec h = get(f, "h_history");
    int n = h.size();
    if (!c.expect(n == total || n == total + 1, fmt("%d cycles, %d asked for", n, total))) {
        return;
    }
    for (int e = 0; e < 3; e++) {
        Vec hist = get(f, std::string("k_history_") + EST[e]);
        if (!c.expect_int(hist.size(), n, std::string("cycles of ") + EST[e])) {
            return;
        }
        double sum = 0, sq = 0;
        Vec mean, dev;
        if (n > inactive) {
            mean = get(f, std::string("k_mean_history_") + EST[e]);
            dev  = get(f, std::string("k_stdev_history_") + EST[e]);
            if (!c.expect(mean.size() == dev.size() && (int)mean.size() == n - inactive, "active cycles")) {
                return;
            }
        }
        for (int i = 0; i < n; i++) {
            if (!c.expect_eq(hist[i], ref[i].k[e], 1e-9, fmt("%s of cycle %d", EST[e], i + 1))) {
                return;
            }
            if (i >= inactive) {
                int m = i - inactive + 1;
                sum += ref[i].k[e];
                c.expect_eq(mean[m - 1], sum / m, 1e-9, fmt("mean of %s after active cycle %d", EST[e], m));
                sq = 0;
                for (int j = inactive; j <= i; j++) {
                    sq += std::pow(ref[j].k[e] - sum / m, 2);
                }
                if (m > 1) {
                    c.expect_eq(dev[m - 1], std::sqrt(sq / m / (m - 1)) / (sum / m), 1e-5, fmt("spread of %s after active cycle %d", EST[e], m));
                }
            }
        }
    }
    for (int i = 0; i < n; i++) {
        c.expect_eq(h[i], ref[i].h, 1e-9, fmt("entropy of cycle %d", i + 1));
    }
    int na = n - inactive;
    std::map<std::string, Vec> mean;
    for (auto &p : paths()) {
        Vec v = get(f, p), dev = get(f, p + "_stdev");
        Vec &m = mean[p] = Vec(ref[0].tally[p].size(), 0.0);
        if (!c.expect(v.size() == m.size() && dev.size() == m.size(), p + ": size")) {
            return;
        }
        for (size_t j = 0; j < m.size(); j++) {
            double sq = 0;
            for (int i = inactive; i < n; i++) {
                m[j] += ref[i].tally[p][j] / na;
            }
            for (int i = inactive; i < n; i++) {
                sq += std::pow(ref[i].tally[p][j] - m[j], 2);
            }
            if (!c.expect_eq(v[j], m[j], 1e-9 * (1 + m[j]), p + fmt(", place %d", (int)j))) {
                return;
            }
            if (na > 1 && m[j] > 0) {
                c.expect_eq(dev[j], std::sqrt(sq / (na - 1)) / m[j], 1e-5, p + fmt(", spread at place %d", (int)j));
            }
        }
    }
    // pin powers: fission in the regions of the pin
    auto &p    = k.p;
    Vec powers = get(f, "pin_power"), want(k.nx * k.ny * k.nz, 0.0);
    if (!c.expect_int(powers.size(), want.size(), "pin powers")) {
        return;
    }
    int reg = 0, z = 0, fuel = 0;
    double sum = 0;
    for (size_t g = 0; g < p.groups.size(); g++) {
        for (int s = 0; s < p.groups[g]; s++, z++) {
            for (int i = 0; i < cp::n_pin(p); i++) {
                auto a      = cp::areas(p.pins[g][i].geo);
                double &pow = want[z * k.nx * k.ny + cp::pin_cell(p, i)];
                for (size_t r = 0; r < a.size(); r++, reg++) {
                    for (int e = 0; e < NG; e++) {
                        pow += mean[fmt("fsr_flux/%03d", e + 1)][reg] * a[r] / 1.44 * k.lib[cp::mat_of(p.pins[g][i], r)].f[e];
                    }
                }
                sum += pow;
                fuel += pow > 0;
            }
        }
    }
    for (size_t i = 0; i < want.size(); i++) {
        c.expect_eq(powers[i], want[i] * fuel / sum, 1e-8, fmt("power of pin %d", (int)i));
    }
    if (twice) {
        MonteCarloEigenvalueSolver s(node, mesh);
        s.solve();
        H5Node g("again.h5", H5Access::WRITE);
        s.output(g);
        for (const char *e : EST) {
            c.expect(get(g, std::string("k_history_") + e) == get(f, std::string("k_history_") + e), "another run with the same seed differs");
        }
    }
}
static void runs(Ctx &c)
{
    int kind = c.choose(3), inactive = c.choose(4), extra = c.choose(c.thorough() ? 6 : 4);
    int np        = c.pick(std::vector<int>{1, 7, 30, 90});
    uint64_t seed = c.pick(std::vector<int>{1, 3, 777, 2147483647});
    int where     = c.choose(2);
    if (!c.leaf(fmt("core %d, %d cycles, %d inactive, %d particles, seed %d, box %d", kind, inactive + extra, inactive, np, (int)seed, where))) {
        return;
    }
    check(c, kind, inactive, inactive + extra, np, seed, where, kind == 0);
    c.state(::mc::hash_str(c.desc_));
}
static void longer(Ctx &c)
{
    int kind = c.choose(3), inactive = c.pick(std::vector<int>{0, 5, 12}), total = c.pick(std::vector<int>{20, 33});
    int np = c.pick(std::vector<int>{60, 250});
    if (!c.leaf(fmt("core %d, %d cycles, %d inactive, %d particles", kind, total, inactive, np))) {
        return;
    }
    check(c, kind, inactive, total, np, 12345, 0, false);
    c.state(::mc::hash_str(c.desc_));
}
static void requests(Ctx &c)
{
    static const char *V[] = {"-1", "", "0", "2", "x"};
    static const char *A[] = {"cycles", "inactive_cycles", "particles_per_cycle"};
    int v[3] = {c.choose(5), c.choose(5), c.choose(5)};
    static const char *S[] = {"1", "2", "", "8", "15"};
    int seed = c.choose(5), empty = c.choose(2);
    std::string attr;
    bool bad = empty;
    for (int i = 0; i < 3; i++) {
        if (v[i] != 1) {
            attr += fmt(" %s=\"%s\"", A[i], V[v[i]]);
        }
        bad = bad || v[i] <= 1;
    }
    if (S[seed][0]) {
        attr += fmt(" seed=\"%s\"", S[seed]);
    }
    bad = bad || seed == 1 || seed == 3;
    if (!c.leaf(attr + (empty ? " no box" : ""))) {
        return;
    }
    auto k = make(0);
    ci::Doc doc("<mocc>" + k.text + "<solver" + attr + ">" + (empty ? "" : box(k, 0)) + "</solver></mocc>");
    CoreMesh mesh(doc.root());
    bool refused = false;
    try {
        MonteCarloEigenvalueSolver s(doc.root().child("solver"), mesh);
    } catch (const Exception &) {
        refused = true;
    }
    // text is taken for zero
    c.expect(refused == bad, refused ? "refused" : "accepted");
    c.steps(1);
    c.state(attr + fmt("%d", empty));
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "R05",
                     {{"runs", runs, 60, "three cores, 0-3 inactive and up to 4 active cycles (6 thorough), 1 to 90 particles, 4 seeds, 2 boxes; every cycle against the cycles done one by one"},
                      {"longer", longer, 120, "three cores, up to 34 cycles of up to 250 particles"},
                      {"requests", requests, 20, "all combinations of negative, missing, zero, positive and non-numeric counts with 5 seeds"}});
}
