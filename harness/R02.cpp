// R02: Monte Carlo tallies report the true mean and spread of their batches.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "sweepers/mc/tally_scalar.hpp"
#include "sweepers/mc/tally_spatial.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using mocc::mc::TallyScalar;
using mocc::mc::TallySpatial;

typedef long double big;

struct Stat {
    big mean, rel;
    bool spread; // the spread is defined
};
// of the values of all batches; relative spread of the values or of their mean
static Stat stat(const std::vector<big> &v, bool of_mean)
{
    Stat s;
    int n = v.size();
    s.mean = 0;
    for (big x : v) {
        s.mean += x;
    }
    s.mean /= n;
    big var = 0;
    for (big x : v) {
        var += (x - s.mean) * (x - s.mean);
    }
    s.spread = n > 1 && s.mean > 0;
    s.rel    = s.spread ? sqrtl(var / (n - 1) / (of_mean ? n : 1)) / s.mean : 0;
    return s;
}
static void compare(Ctx &c, std::pair<real_t, real_t> got, const Stat &want, big norm, const std::string &at)
{
    c.expect_rel(got.first, (double)(want.mean / norm), 1e-13, at + "mean");
    if (want.spread) {
        // the squares of the values lose half of the digits
        c.expect_eq(got.second, (double)want.rel, 2e-7 + 1e-10 * (double)want.rel, at + "relative spread");
    }
}

// --- all histories of a pair of spatial tallies
struct Model {
    std::vector<std::vector<big>> batches; // [region]
    std::vector<big> open;
    big weight = 0;
    int n      = 0;
    explicit Model(int nreg) : batches(nreg), open(nreg, 0)
    {
    }
};
static void look(Ctx &c, const TallySpatial &t, const Model &m, const VecF &norm, const std::string &at)
{
    if (m.n == 0) {
        return;
    }
    auto r = t.get();
    if (!c.expect_int(r.size(), norm.size(), at + "regions")) {
        return;
    }
    for (size_t i = 0; i < norm.size(); i++) {
        compare(c, r[i], stat(m.batches[i], false), norm[i], at + fmt("region %d: ", (int)i));
    }
}
static void spatial(Ctx &c)
{
    static const std::vector<VecF> norms = {{1, 1}, {0.25, 3}, {10, 0.01}};
    static const char *const names[] = {"score 0", "score 1", "score 0 more", "weight 1", "weight 0.5", "commit", "reset", "end"};
    int which  = c.choose(norms.size());
    auto norm  = norms[which];
    int depth  = c.thorough() ? 9 : 7;
    // two tallies made from one, as the solver makes them: only the first one
    // is used, the other must not notice
    std::vector<TallySpatial> t(2, TallySpatial(norm));
    Model m(2), q(2);
    t[1].score(0, 3.0);
    t[1].add_weight(2.0);
    t[1].commit_realization();
    q.batches[0].push_back(1.5);
    q.batches[1].push_back(0);
    q.n = 1;
    std::string desc = fmt("volumes %d:", which);
    std::vector<int> ops;
    for (int d = 0; d < depth; d++) {
        std::vector<int> en = {0, 1, 2, 3, 4, 6, 7};
        if (m.weight > 0) {
            en.push_back(5);
        }
        int o = en[c.choose(en.size())];
        if (o == 7) {
            break;
        }
        ops.push_back(o);
        desc += fmt(" %s,", names[o]);
        if (o == 5) {
            m.weight = 0;
        } else if (o == 3 || o == 4) {
            m.weight += 1;
        } else if (o == 6) {
            m.weight = 0;
        }
    }
    if (!c.leaf(desc)) {
        return;
    }
    m = Model(2);
    for (size_t k = 0; k < ops.size(); k++) {
        auto at = fmt("after step %d: ", (int)k + 1);
        switch (ops[k]) {
        case 0:
            t[0].score(0, 0.1);
            m.open[0] += (big)0.1;
            break;
        case 1:
            t[0].score(1, 0.3);
            m.open[1] += (big)0.3;
            break;
        case 2:
            t[0].score(0, 7.0);
            m.open[0] += 7;
            break;
        case 3:
        case 4:
            t[0].add_weight(ops[k] == 3 ? 1.0 : 0.5);
            m.weight += ops[k] == 3 ? 1 : (big)0.5;
            break;
        case 5:
            t[0].commit_realization();
            for (int i = 0; i < 2; i++) {
                m.batches[i].push_back(m.open[i] / m.weight);
                m.open[i] = 0;
            }
            m.weight = 0;
            m.n++;
            break;
        case 6:
            t[0].reset();
            m = Model(2);
            break;
        }
        look(c, t[0], m, norm, at);
        c.steps(1);
    }
    look(c, t[1], q, norm, "the other tally: ");
    auto again = t[1];
    look(c, again, q, norm, "copy of the other tally: ");
    c.state(desc);
}

// --- all histories of a scalar tally scored once per unit of weight
static void scalar(Ctx &c)
{
    static const double vals[] = {0.1, 0.7, 1.0, 2.5, 0.0};
    int depth = c.thorough() ? 8 : 6;
    std::vector<int> ops; // 0-4 score, 5 reset
    for (int d = 0; d < depth; d++) {
        int o = c.choose(7);
        if (o == 6) {
            break;
        }
        ops.push_back(o);
    }
    int first = c.choose(2); // weight before or after its score
    std::string desc = first ? "weight first:" : "score first:";
    for (int o : ops) {
        desc += o == 5 ? " reset" : fmt(" %g", vals[o]);
    }
    if (!c.leaf(desc)) {
        return;
    }
    TallyScalar t;
    std::vector<big> v;
    for (size_t k = 0; k < ops.size(); k++) {
        if (ops[k] == 5) {
            t.reset();
            v.clear();
            continue;
        }
        if (first) {
            t.add_weight(1.0);
        }
        t.score(vals[ops[k]]);
        if (!first) {
            t.add_weight(1.0);
        }
        v.push_back((big)vals[ops[k]]);
        compare(c, t.get(), stat(v, true), 1, fmt("after step %d: ", (int)k + 1));
        c.steps(1);
    }
    c.state(desc);
}

// --- the mean of a scalar tally is score over weight, whatever is scored when
static void weights(Ctx &c)
{
    int depth = c.thorough() ? 8 : 6;
    std::vector<int> ops;
    for (int d = 0; d < depth; d++) {
        int o = c.choose(6);
        if (o == 5) {
            break;
        }
        ops.push_back(o);
    }
    std::string desc = "history";
    for (int o : ops) {
        desc += fmt(" %d", o);
    }
    if (!c.leaf(desc)) {
        return;
    }
    TallyScalar t;
    big s = 0, w = 0;
    static const double sc[] = {0.3, 11.0}, we[] = {1.0, 0.125};
    for (size_t k = 0; k < ops.size(); k++) {
        if (ops[k] < 2) {
            t.score(sc[ops[k]]);
            s += (big)sc[ops[k]];
        } else if (ops[k] < 4) {
            t.add_weight(we[ops[k] - 2]);
            w += (big)we[ops[k] - 2];
        } else {
            t.reset();
            s = w = 0;
        }
        if (w > 0) {
            c.expect_rel(t.get().first, (double)(s / w), 1e-13, fmt("after step %d: mean", (int)k + 1));
        }
        c.steps(1);
    }
    c.state(desc);
}

// --- many batches, equal or not
static void many(Ctx &c)
{
    int kind = c.choose(2);
    int n    = 2 + c.choose(c.thorough() ? 199 : 63);
    int a    = 1 + c.choose(40);
    int b    = c.choose(4); // second value: equal, close, different, zero
    if (!c.leaf(fmt("%s tally, %d batches of %d/10, case %d", kind ? "spatial" : "scalar", n, a, b))) {
        return;
    }
    VecF norm = {0.7};
    TallySpatial t(norm);
    TallyScalar s;
    std::vector<big> v;
    for (int i = 0; i < n; i++) {
        double x = a / 10.0;
        if (i % 3 == 1) {
            x = b == 0 ? x : b == 1 ? x * 1.001 : b == 2 ? x * 3 : 0;
        }
        v.push_back((big)x);
        if (kind) {
            t.score(0, x * 3);
            t.add_weight(3.0);
            t.commit_realization();
        } else {
            s.score(x);
            s.add_weight(1.0);
        }
    }
    compare(c, kind ? t.get()[0] : s.get(), stat(v, !kind), kind ? (big)norm[0] : 1, "");
    c.steps(n);
    c.state((uint64_t)n * 1000 + a * 10 + b);
}

// --- what a whole run reports
static void runs(Ctx &c)
{
    int inactive = c.choose(3), active = 1 + c.choose(4), np = c.pick(std::vector<int>{30, 50, 80}), seed = 1 + 2 * c.choose(c.thorough() ? 10 : 3);
    if (!c.leaf(fmt("%d inactive and about %d active cycles of %d particles, seed %d", inactive, active, np, seed))) {
        return;
    }
    cp::Problem p;
    p.ng = 2;
    p.nx = 2;
    p.ny = 1;
    p.groups = {1};
    p.hz     = {4.0};
    p.pins   = {{cp::PinDef{0, {3, 3, 1}}, cp::PinDef{1, {3, 3}}}};
    cp::finish(p);
    // keep the chain going
    for (size_t k; (k = p.xml.find("vacuum")) != std::string::npos;) {
        p.xml.replace(k, 6, "reflect");
    }
    auto lib = cp::library(2);
    // no negative transfer in Monte Carlo
    lib[3].sc[0][0] = 0.02;
    for (auto &x : lib[3].nf) {
        x *= 1.5;
    }
    ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") +
                fmt("<solver cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"%d\" seed=\"%d\"><fission_box x_min=\"0\" x_max=\"2.4\" y_min=\"0\" y_max=\"1.2\" z_min=\"0\" "
                    "z_max=\"4\" fissile_rejection=\"f\"/></solver></mocc>",
                    inactive + active - 1, inactive, np, seed));
    CoreMesh mesh(doc.root());
    mocc::mc::MonteCarloEigenvalueSolver s(doc.root().child("solver"), mesh);
    s.solve();
    {
        H5Node f("run.h5", H5Access::WRITE);
        s.output(f);
    }
    H5Node f("run.h5", H5Access::READ);
    for (std::string e : {"tl", "col", "analog"}) {
        VecF k, mean, dev;
        f.read("k_history_" + e, k);
        f.read("k_mean_history_" + e, mean);
        f.read("k_stdev_history_" + e, dev);
        int na = (int)k.size() - inactive;
        c.expect(na >= 1 && (int)mean.size() == na && (int)dev.size() == na, e + fmt(": cycles in the histories (%d %d %d)", (int)k.size(), (int)mean.size(), (int)dev.size()));
        std::vector<big> v;
        for (int i = 0; i < na && i < (int)mean.size(); i++) {
            v.push_back((big)k[inactive + i]);
            compare(c, {mean[i], dev[i]}, stat(v, true), 1, e + fmt(": active cycle %d: ", i));
        }
    }
    VecF h;
    f.read("h_history", h);
    VecF k;
    f.read("k_history_tl", k);
    c.expect_int(h.size(), k.size(), "entropies");
    for (double x : h) {
        c.expect(x >= 0 && x <= 1 + 1e-12, fmt("entropy over two cells: %g", x));
    }
    c.steps(k.size());
    c.state(fmt("%d %d %d %d", inactive, active, np, seed));
}

int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "R02",
                   {{"spatial", spatial, 20, "every sequence of at most 7 (thorough: 9) scores, weights, commits and resets of a spatial tally of two regions, over three sets of volumes"},
                    {"scalar", scalar, 20, "every sequence of at most 6 (thorough: 8) weighted scores and resets of a scalar tally, scored before or after the weight"},
                    {"weights", weights, 20, "every sequence of at most 6 (thorough: 8) scores, weights and resets of a scalar tally"},
                    {"many", many, 20, "2 to 64 (thorough: 200) batches of each of 40 values, equal, almost equal, different and partly zero"},
                    {"runs", runs, 60, "Monte Carlo runs over cycle counts, particles and seeds: reported running means and spreads against the reported history"}});
}
