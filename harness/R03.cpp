// R03: the fission bank keeps every site, its order and its statistics.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "sweepers/mc/fission_bank.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using mocc::mc::FissionBank;
using mocc::mc::Particle;

static std::string core_text(int ng)
{
    cp::Problem p;
    p.ng = ng;
    p.nx = 3;
    p.ny = 2;
    p.groups = {1, 1};
    p.hz     = {1.0, 2.0};
    std::vector<cp::PinDef> plane(6, cp::PinDef{1, {0, 1}});
    p.pins = {plane, plane};
    cp::finish(p);
    auto lib = cp::library(ng);
    return "<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + "</mocc>";
}
static const CoreMesh &mesh()
{
    static ci::Doc doc(core_text(2));
    static CoreMesh m(doc.root());
    return m;
}

// A site: everything that a particle carries
struct Site {
    int cell; // 0..11 of a 3 x 2 x 2 core
    int spot; // place in the cell
    double weight;
    int group;
    unsigned id;
    bool operator==(const Site &o) const
    {
        return cell == o.cell && spot == o.spot && weight == o.weight && group == o.group && id == o.id;
    }
    bool operator<(const Site &o) const
    {
        return std::tie(id, cell, spot, weight, group) < std::tie(o.id, o.cell, o.spot, o.weight, o.group);
    }
};
static Point3 place(const Site &s)
{
    double fx = s.spot % 2 ? 0.9 : 0.25, fy = s.spot / 2 ? 0.9 : 0.25;
    int x = s.cell % 3, y = s.cell / 3 % 2, z = s.cell / 6;
    return Point3(1.2 * (x + fx), 1.2 * (y + fy), z ? 1.0 + 2.0 * fx : fy);
}
static Particle make(const Site &s)
{
    Particle p(place(s), Direction(0.3 + 0.1 * s.spot + s.cell, 0.7), s.group, s.id);
    p.weight = s.weight;
    return p;
}
static bool same(const Particle &p, const Site &s)
{
    Particle q = make(s);
    return p.weight == q.weight && p.group == q.group && p.id == q.id && p.location_global.x == q.location_global.x && p.location_global.y == q.location_global.y &&
           p.location_global.z == q.location_global.z && p.direction.ox == q.direction.ox && p.direction.oy == q.direction.oy && p.direction.oz == q.direction.oz;
}
static double entropy(const std::vector<Site> &v)
{
    std::map<int, double> pop;
    double w = 0, h = 0;
    for (auto &s : v) {
        pop[s.cell] += s.weight;
        w += s.weight;
    }
    for (auto &x : pop) {
        double q = x.second / w;
        h -= q > 0 ? q * std::log2(q) : 0;
    }
    return h;
}
struct Model {
    std::vector<Site> sites;
    double total = 0;
};
static bool look(Ctx &c, const FissionBank &b, const Model &m, const std::string &at)
{
    if (!c.expect_int(b.size(), m.sites.size(), at + "number of sites")) {
        return false;
    }
    for (size_t i = 0; i < m.sites.size(); i++) {
        c.expect(same(b[i], m.sites[i]), at + fmt("site %d", (int)i));
    }
    int n = 0;
    for (const auto &p : b) {
        c.expect(same(p, m.sites[n]), at + fmt("site %d while walking", n));
        n++;
    }
    c.expect_int(n, m.sites.size(), at + "sites walked");
    c.expect_eq(b.total_fission(), m.total, 1e-12 * (1 + m.total), at + "weight put into the bank");
    if (!m.sites.empty()) {
        c.expect_eq(b.shannon_entropy(), entropy(m.sites), 1e-12, at + "entropy");
    }
    return true;
}
// after a resize: the new sites must come from the old ones
static bool resized(Ctx &c, const FissionBank &b, Model &m, unsigned n, const std::string &at, std::vector<int> *count = nullptr)
{
    if (!c.expect_int(b.size(), n, at + "size after resizing")) {
        return false;
    }
    auto old = m.sites;
    std::vector<int> cnt(old.size(), 0);
    std::vector<Site> now;
    for (unsigned i = 0; i < n; i++) {
        // an exact copy of an old one; sites that are alike are filled evenly
        int best = -1;
        for (size_t k = 0; k < old.size(); k++) {
            if (same(b[i], old[k]) && (best < 0 || cnt[k] < cnt[best])) {
                best = k;
            }
        }
        if (!c.expect(best >= 0, at + fmt("site %d after resizing is a copy of an old one", (int)i))) {
            return false;
        }
        cnt[best]++;
        now.push_back(old[best]);
    }
    for (size_t k = 0; k < old.size(); k++) {
        if (n >= old.size()) {
            c.expect(cnt[k] >= 1, at + fmt("site %d is kept when the bank grows", (int)k));
        } else {
            c.expect(cnt[k] <= 1, at + fmt("site %d is not doubled when the bank shrinks", (int)k));
        }
    }
    if (n >= old.size()) {
        for (size_t k = 0; k < old.size(); k++) {
            c.expect(now[k] == old[k], at + fmt("site %d stays in place", (int)k));
        }
    }
    m.sites = now;
    if (count) {
        *count = cnt;
    }
    return true;
}

// --- all histories of two banks
static void histories(Ctx &c)
{
    static const std::vector<Site> alpha = {{0, 0, 1.0, 0, 2}, {5, 1, 1.0, 1, 0}, {11, 3, 0.5, 0, 1}};
    int depth = c.thorough() ? 7 : 5;
    // ops: 0-2 push to the first, 3 push to the second, 4 swap, 5 clear the
    // first, 6 sort the first, 7.. resize the first
    static const int sizes[] = {1, 2, 4, 0};
    std::vector<int> ops;
    std::string desc;
    for (int d = 0; d < depth; d++) {
        int o = c.choose(12);
        if (o == 11) {
            break;
        }
        ops.push_back(o);
        desc += fmt(" %d", o);
    }
    if (!c.leaf("operations" + desc)) {
        return;
    }
    FissionBank a(mesh()), b(mesh());
    Model ma, mb;
    RNG_LCG rng(12345);
    look(c, a, ma, "new bank: ");
    for (size_t k = 0; k < ops.size(); k++) {
        auto at = fmt("after step %d: ", (int)k + 1);
        int o   = ops[k];
        if (o <= 3) {
            Site s = alpha[o % 3];
            s.spot = (s.spot + k) % 4; // tell equal sites apart
            Particle p = make(s);
            (o == 3 ? b : a).push_back(p);
            Model &m = o == 3 ? mb : ma;
            m.sites.push_back(s);
            m.total += s.weight;
        } else if (o == 4) {
            a.swap(b);
            std::swap(ma, mb);
        } else if (o == 5) {
            a.clear();
            ma = Model();
        } else if (o == 6) {
            std::stable_sort(a.begin(), a.end());
            std::stable_sort(ma.sites.begin(), ma.sites.end(), [](const Site &x, const Site &y) { return x.id < y.id; });
        } else {
            unsigned n = sizes[o - 7];
            bool ok    = true;
            try {
                a.resize(n, rng);
            } catch (mocc::Exception &) {
                ok = false;
            }
            if (ma.sites.empty()) {
                c.expect(!ok || (n == 0 && a.size() == 0), at + "an empty bank cannot be filled from itself");
            } else {
                c.expect(ok, at + "resizing is accepted");
                if (!resized(c, a, ma, n, at)) {
                    return;
                }
            }
        }
        look(c, a, ma, at + "first bank: ");
        look(c, b, mb, at + "second bank: ");
        c.steps(1);
    }
    c.state(desc);
}

// --- resizing: every old and new size, many draws
static void sizes(Ctx &c)
{
    int n0 = 1 + c.choose(c.thorough() ? 13 : 9), n1 = 1 + c.choose(c.thorough() ? 25 : 17);
    // and a big one
    n0 = n0 == (c.thorough() ? 13 : 9) ? 100 : n0;
    n1 = n1 == (c.thorough() ? 25 : 17) ? 300 : n1;
    if (!c.leaf(fmt("from %d to %d sites", n0, n1))) {
        return;
    }
    std::vector<long> total(n0, 0);
    std::set<std::vector<int>> seen;
    const int draws = 400;
    for (int s = 0; s < draws; s++) {
        FissionBank b(mesh());
        Model m;
        for (int i = 0; i < n0; i++) {
            Site x = {i % 12, i % 4, 1.0 + i, i % 2, (unsigned)(100 - i)};
            Particle p = make(x);
            b.push_back(p);
            m.sites.push_back(x);
            m.total += x.weight;
        }
        RNG_LCG rng(1 + 2 * s);
        rng.jump_ahead(1000000 + s * 7919);
        std::vector<int> cnt;
        b.resize(n1, rng);
        if (!resized(c, b, m, n1, fmt("draw %d: ", s), &cnt)) {
            return;
        }
        look(c, b, m, fmt("draw %d: ", s));
        for (int k = 0; k < n0; k++) {
            total[k] += cnt[k];
        }
        seen.insert(cnt);
        c.steps(1);
    }
    // every site has its chance
    for (int k = 0; k < n0; k++) {
        double mean = (double)draws * n1 / n0, extra = (double)draws * std::abs(n1 - n0) / n0;
        if (n1 != n0 && n0 > 1) {
            double off = total[k] - mean;
            c.expect(std::abs(off) < 6 * std::sqrt(extra + 1), fmt("site %d of %d is kept or copied as often as the others (%ld, expected about %.0f)", k, n0, total[k], mean));
        }
    }
    c.state(fmt("%d %d %d", n0, n1, (int)seen.size()));
}

// --- entropy of every distribution of up to 5 sites over cells and weights
static void entropies(Ctx &c)
{
    static const double w[] = {1.0, 0.5, 3.0};
    int n = 1 + c.choose(c.thorough() ? 4 : 3);
    std::vector<Site> v;
    std::string desc;
    for (int i = 0; i < n; i++) {
        int x = c.choose(36);
        v.push_back({x % 12, i % 4, w[x / 12], 0, (unsigned)i});
        desc += fmt(" %d*%g", x % 12, w[x / 12]);
    }
    if (!c.leaf("cells and weights" + desc)) {
        return;
    }
    FissionBank b(mesh());
    Model m;
    for (auto &s : v) {
        Particle p = make(s);
        b.push_back(p);
        m.total += s.weight;
    }
    m.sites = v;
    look(c, b, m, "");
    c.steps(n);
    c.state(desc);
}

// --- sites outside the core
static void outside(Ctx &c)
{
    static const std::vector<double> xs = {-1.0, 0.5, 4.0}, ys = {-1.0, 0.5, 3.0}, zs = {-1.0, 0.5, 2.5, 4.0};
    double x = c.pick(xs), y = c.pick(ys), z = c.pick(zs);
    if (!c.leaf(fmt("site at %g %g %g", x, y, z))) {
        return;
    }
    bool in = x > 0 && x < 3.6 && y > 0 && y < 2.4 && z > 0 && z < 3;
    FissionBank b(mesh());
    Particle p(Point3(x, y, z), Direction(0.3, 0.7), 0, 0);
    b.push_back(p);
    bool ok = true;
    double h = 0;
    try {
        h = b.shannon_entropy();
    } catch (mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == in, in ? "a site in the core is located" : "a site outside the core is reported");
    if (ok) {
        c.expect_eq(h, 0.0, 1e-14, "entropy of one site");
    }
    c.steps(1);
    c.state(fmt("%g %g %g", x, y, z));
}

// --- the first bank
static void boxes(Ctx &c)
{
    static const std::vector<std::pair<double, double>> X = {{0, 3.6}, {1.3, 1.4}, {2.4, 3.6}, {1.0, 1.0}, {2.0, 1.0}}, Z = {{0, 3}, {0.9, 1.1}, {2.0, 1.0}};
    auto x = c.pick(X);
    auto y = c.pick(std::vector<std::pair<double, double>>{{0, 2.4}, {1.19, 1.21}, {2.0, 0.5}});
    auto z = c.pick(Z);
    int n  = c.pick(std::vector<int>{0, 1, 2, 40});
    int miss = c.choose(7); // leave out one bound
    int rej  = c.choose(2), seed = c.choose(3);
    if (!c.leaf(fmt("%d sites in x %g..%g, y %g..%g, z %g..%g, bound %d missing, rejection %d, seed %d", n, x.first, x.second, y.first, y.second, z.first, z.second, miss, rej, seed))) {
        return;
    }
    const char *const nm[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    double v[] = {x.first, x.second, y.first, y.second, z.first, z.second};
    std::string t = "<fission_box";
    for (int i = 0; i < 6; i++) {
        if (i + 1 != miss) {
            t += fmt(" %s=\"%.17g\"", nm[i], v[i]);
        }
    }
    ci::Doc doc(t + (rej ? " fissile_rejection=\"t\"/>" : " fissile_rejection=\"f\"/>"));
    bool want = miss == 0 && x.first < x.second && y.first < y.second && z.first < z.second;
    static XSMesh xs(mesh(), MeshTreatment::TRUE);
    RNG_LCG rng(1 + 2 * seed), twin(1 + 2 * seed);
    bool ok = true;
    try {
        FissionBank b(doc.root(), n, mesh(), xs, rng);
        c.expect_int(b.size(), n, "sites made");
        std::set<std::string> seen;
        for (int i = 0; i < b.size(); i++) {
            auto &p = b[i];
            auto &q = p.location_global;
            c.expect((q.x >= x.first && q.x <= x.second && q.y >= y.first && q.y <= y.second && q.z >= z.first && q.z <= z.second), fmt("site %d lies in the box", i));
            c.expect(p.group >= 0 && p.group < 2, fmt("group of site %d", i));
            c.expect_int(p.id, i, fmt("identity of site %d", i));
            c.expect_eq(p.weight, 1.0, 0, fmt("weight of site %d", i));
            double len = p.direction.ox * p.direction.ox + p.direction.oy * p.direction.oy + p.direction.oz * p.direction.oz;
            c.expect_eq(len, 1.0, 1e-12, fmt("direction of site %d", i));
            seen.insert(fmt("%.15g %.15g %.15g", q.x, q.y, q.z));
        }
        c.expect_int(seen.size(), b.size(), "different places");
        if (n == 40) {
            // the box is filled: both halves of every side, both groups, all octants
            int half[8] = {0}, oct[8] = {0};
            for (int i = 0; i < n; i++) {
                auto &p = b[i];
                half[0] += p.location_global.x < (x.first + x.second) / 2;
                half[1] += p.location_global.y < (y.first + y.second) / 2;
                half[2] += p.location_global.z < (z.first + z.second) / 2;
                half[3] += p.group;
                oct[(p.direction.ox > 0) + 2 * (p.direction.oy > 0) + 4 * (p.direction.oz > 0)]++;
            }
            for (int k = 0; k < 4; k++) {
                c.expect(half[k] > 4 && half[k] < 36, fmt("spread of the sites (%d: %d of 40)", k, half[k]));
            }
            int filled = 0;
            for (int k : oct) {
                filled += k > 0;
            }
            c.expect(filled >= 7, fmt("directions fall into %d octants", filled));
        }
        FissionBank b2(doc.root(), n, mesh(), xs, twin);
        for (int i = 0; i < n; i++) {
            c.expect(b2[i].location_global.x == b[i].location_global.x && b2[i].group == b[i].group && b2[i].direction.oz == b[i].direction.oz, "the same seed gives the same sites");
        }
    } catch (mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == want, want ? "a proper box is accepted" : "a bad box is rejected");
    c.steps(1);
    c.state(t);
}

int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "R03",
                   {{"histories", histories, 20, "every sequence of at most 5 (thorough: 7) pushes, swaps, clears, sorts and resizes of two banks"},
                    {"sizes", sizes, 60, "every resize from 1-8 to 1-16 (thorough: 12, 24) sites and from and to 100 and 300, each with 400 different random streams"},
                    {"entropies", entropies, 20, "every bank of at most 3 (thorough: 4) sites over 12 cells and 3 weights"},
                    {"outside", outside, 20, "sites inside and outside the core in every direction"},
                    {"boxes", boxes, 20, "first banks over boxes (valid, empty, reversed, incomplete), sizes and seeds"}});
}
