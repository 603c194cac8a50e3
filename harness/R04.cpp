// R04: particle histories follow the geometry and the sampled events.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "sweepers/mc/particle_pusher.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using mocc::mc::FissionBank;
using mocc::mc::Particle;
using mocc::mc::ParticlePusher;

typedef long double big;
static const big PI_L = 3.14159265358979323846264338327950288L;

// --- the random stream, by definition
struct Stream {
    uint64_t s;
    explicit Stream(uint64_t seed, uint64_t skip)
    {
        // x -> a x + b composed with itself
        uint64_t a = 1, b = 0, xa = 2806196910506780709ull, xb = 1;
        while (skip) {
            if (skip & 1) {
                b = b * xa + xb;
                a = a * xa;
            }
            xb = xb * xa + xb;
            xa = xa * xa;
            skip >>= 1;
        }
        s = (a * seed + b) & ((1ull << 63) - 1);
    }
    double draw()
    {
        s = (s * 2806196910506780709ull + 1) & ((1ull << 63) - 1);
        return std::min(s * (1.0 / (1ull << 63)), 1.0 - 1.1102230246251565e-16);
    }
};

// --- the core, by definition
struct World {
    cp::Problem p;
    std::vector<ci::Mat> lib;
    std::vector<double> x, y, z;
    bool refl[6]; // west, east, south, north, bottom, top
    std::vector<int> base;        // first region of [plane][pin in region order]
    std::vector<double> vol;      // of every region
    std::vector<int> pin_at;      // [y][x] -> pin in region order
    int nreg = 0, nx, ny, nz;
    std::string text;
};
static cp::PinDef pin(int kind)
{
    switch (kind) {
    case 0:
        return {1, {0, 1}};
    case 1:
        return {0, {0, 1, 1}};
    case 2:
        return {0, {3, 2, 1}};
    case 3:
        return {1, {3, 1}};
    default:
        return {1, {4, 4}}; // void
    }
}
static World make(int kind, int bc)
{
    World w;
    auto &p = w.p;
    p.ng = 2;
    p.groups = {1};
    p.hz     = {1.5};
    switch (kind) {
    case 0:
        p.nx = p.ny = 1;
        p.pins = {{pin(0)}};
        break;
    case 1:
        p.nx = p.ny = 1;
        p.pins = {{pin(1)}};
        break;
    case 2:
        p.nx = 2;
        p.ny = 1;
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{pin(1), pin(3)}, {pin(0), pin(2)}};
        break;
    case 3:
        p.nx = 2;
        p.ny = 2;
        p.groups = {2, 1};
        p.hz     = {0.5, 0.5, 1.1};
        p.pins   = {{pin(1), pin(0), pin(3), pin(2)}, {pin(2), pin(1), pin(1), pin(3)}};
        break;
    case 4: // many groups, materials and pins
        p.ng = 7;
        p.nx = 3;
        p.ny = 2;
        p.groups = {1, 2, 1};
        p.hz     = {0.5, 0.5, 1.1, 0.8};
        for (int g = 0; g < 3; g++) {
            p.pins.push_back({});
            for (int i = 0; i < 6; i++) {
                int a = (3 * i + 5 * g) % 8, b = (a + 3) % 8;
                p.pins.back().push_back((i + g) % 2 ? cp::PinDef{0, {a, b, 1}} : cp::PinDef{1, {a, 1}});
            }
        }
        break;
    case 5: // void, with structure
        p.nx = 2;
        p.ny = 1;
        p.ax = 1;
        p.ay = 2;
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{pin(4), pin(4), pin(4), pin(4)}, {pin(4), pin(4), pin(4), pin(4)}};
        for (auto &g : p.pins) {
            g[1] = g[2] = cp::PinDef{0, {4, 4, 4}};
        }
        break;
    }
    cp::finish(p);
    w.lib = kind == 4 ? cp::many(p.ng) : cp::library(p.ng);
    for (auto &m : w.lib) {
        m.sc[0][0] = m.sc[0][0] < 0 ? 0.02 : m.sc[0][0]; // no negative probabilities
    }
    ci::Mat v = w.lib[1];
    v.name    = "void";
    for (int g = 0; g < p.ng; g++) {
        v.abs[g] = 1e-12;
        for (int t = 0; t < p.ng; t++) {
            v.sc[t][g] = t == g ? 1e-12 : 0.0;
        }
    }
    w.lib.push_back(v);
    std::string want[6];
    for (int i = 0; i < 6; i++) {
        w.refl[i] = bc >> i & 1;
        want[i]   = w.refl[i] ? "reflect" : "vacuum";
    }
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    p.xml.replace(p.xml.find(old), old.size(), ci::bcs(want[0], want[1], want[2], want[3], want[4], want[5]));
    w.text = "<mocc>" + p.xml + ci::lib_tag(w.lib, "lib.xsl") + "</mocc>";
    w.nx = p.nx * p.ax;
    w.ny = p.ny * p.ay;
    w.nz = p.hz.size();
    for (int i = 0; i <= w.nx; i++) {
        w.x.push_back(1.2 * i);
    }
    for (int i = 0; i <= w.ny; i++) {
        w.y.push_back(1.2 * i);
    }
    w.z = {0};
    int np = cp::n_pin(p);
    w.pin_at.resize(np);
    for (int i = 0; i < np; i++) {
        w.pin_at[cp::pin_cell(p, i)] = i;
    }
    int iz = 0;
    for (size_t g = 0; g < p.groups.size(); g++) {
        for (int k = 0; k < p.groups[g]; k++, iz++) {
            w.z.push_back(w.z.back() + p.hz[iz]);
            for (int i = 0; i < np; i++) {
                w.base.push_back(w.nreg);
                for (double a : cp::areas(p.pins[g][i].geo)) {
                    w.vol.push_back(a * p.hz[iz]);
                    w.nreg++;
                }
            }
        }
    }
    return w;
}
static const cp::PinDef &pin_of(const World &w, int iz, int ip)
{
    size_t g = 0;
    while (iz >= w.p.groups[g]) {
        iz -= w.p.groups[g++];
    }
    return w.p.pins[g][ip];
}
struct Scores {
    std::vector<std::vector<big>> tl, col; // [group][region]
    std::vector<std::vector<big>> pin;     // [group][cell]
    std::vector<big> power;                // per cell
    big k_tl = 0, k_col = 0, weight = 0;
    struct Site {
        big x, y, z, ox, oy, oz;
        int group;
        unsigned id;
    };
    std::vector<Site> sites;
    int events = 0;
    explicit Scores(const World &w)
        : tl(w.p.ng, std::vector<big>(w.nreg, 0)), col(tl), pin(w.p.ng, std::vector<big>(w.nx * w.ny * w.nz, 0)), power(w.nx * w.ny * w.nz, 0)
    {
    }
};
struct Start {
    big r[3], o[3];
    int group;
    unsigned id;
    big weight;
};
enum Verdict { CLEAR, CLOSE_CALL };

// Follow one particle. CLOSE_CALL if the outcome hangs on round-off.
static Verdict follow(const World &w, const Start &st, uint64_t seed, uint64_t stream, bool second_first, Scores &sc)
{
    Stream rng(seed, stream * 10000ull);
    big r[3] = {st.r[0], st.r[1], st.r[2]}, o[3] = {st.o[0], st.o[1], st.o[2]};
    int cell[3];
    const std::vector<double> *edges[3] = {&w.x, &w.y, &w.z};
    for (int d = 0; d < 3; d++) {
        auto &e = *edges[d];
        cell[d] = std::upper_bound(e.begin(), e.end(), (double)r[d]) - e.begin() - 1;
        // on a face: the cell ahead
        for (size_t k = 0; k < e.size(); k++) {
            if (std::abs((double)r[d] - e[k]) < 1e-9) {
                cell[d] = o[d] > 0 ? k : k - 1;
            }
        }
        if (cell[d] < 0 || cell[d] + 1 >= (int)e.size()) {
            return CLOSE_CALL;
        }
    }
    int group = st.group;
    sc.weight += st.weight;
    auto isotropic = [&](big *to) {
        double a = rng.draw(), b = rng.draw();
        if (second_first) {
            std::swap(a, b);
        }
        big th = acosl((big)(b * 2.0 - 1.0)), al = (big)a * 2 * PI_L;
        to[0] = sinl(th) * cosl(al);
        to[1] = sinl(th) * sinl(al);
        to[2] = cosl(th);
    };
    auto sample = [&](const std::vector<double> &cdf, bool &close) {
        double v = rng.draw();
        for (size_t i = 0; i < cdf.size(); i++) {
            close = close || std::abs(cdf[i] - v) < 1e-12;
        }
        for (size_t i = 0; i < cdf.size(); i++) {
            if (v < cdf[i]) {
                return (int)i;
            }
        }
        return (int)cdf.size() - 1;
    };
    for (int event = 0;; event++) {
        if (event > 100000) {
            return CLOSE_CALL;
        }
        sc.events++;
        int ip  = w.pin_at[cell[1] * w.nx + cell[0]];
        auto &d = pin_of(w, cell[2], ip);
        big cx = 1.2L * cell[0] + 0.6L, cy = 1.2L * cell[1] + 0.6L;
        big lx = r[0] - cx, ly = r[1] - cy;
        // distances to everything ahead
        std::vector<big> in;
        if (d.geo == 0) {
            big a = o[0] * o[0] + o[1] * o[1], b = lx * o[0] + ly * o[1];
            for (big rad : {0.3L, 0.4L}) {
                big q = b * b - a * (lx * lx + ly * ly - rad * rad);
                if (std::abs((double)(q / (a + 1e-30L))) < 1e-6) {
                    return CLOSE_CALL; // grazing
                }
                if (q > 0) {
                    in.push_back((-b - sqrtl(q)) / a);
                    in.push_back((-b + sqrtl(q)) / a);
                }
            }
            if (o[0] != 0) {
                in.push_back(-lx / o[0]);
            }
            if (o[1] != 0) {
                in.push_back(-ly / o[1]);
            }
        } else if (o[0] != 0) {
            in.push_back(-lx / o[0]);
        }
        std::vector<std::pair<big, int>> cand; // face 0..5 or -1
        for (big t : in) {
            if (t > 1e-9L) {
                cand.push_back({t, -1});
            } else if (t > -1e-9L && event == 0) {
                return CLOSE_CALL; // starts on a surface
            }
        }
        for (int k = 0; k < 3; k++) {
            if (o[k] > 0) {
                cand.push_back({((big)(*edges[k])[cell[k] + 1] - r[k]) / o[k], 2 * k + 1});
            } else if (o[k] < 0) {
                cand.push_back({((big)(*edges[k])[cell[k]] - r[k]) / o[k], 2 * k});
            }
        }
        std::sort(cand.begin(), cand.end());
        big dist = cand[0].first;
        if (dist < 1e-8L || (cand.size() > 1 && cand[1].first - dist < 1e-5L)) {
            return CLOSE_CALL;
        }
        // region
        big mx = lx + 0.5L * dist * o[0], my = ly + 0.5L * dist * o[1];
        int reg;
        if (d.geo == 0) {
            big rad = sqrtl(mx * mx + my * my);
            int ring = rad < 0.3L ? 0 : rad < 0.4L ? 1 : 2, sector = my > 0 ? (mx > 0 ? 0 : 1) : (mx > 0 ? 3 : 2);
            reg = 4 * ring + sector;
        } else {
            reg = mx > 0;
        }
        auto &m  = w.lib[cp::mat_of(d, reg)];
        reg += w.base[cell[2] * w.nx * w.ny + ip];
        int icell = (cell[2] * w.ny + cell[1]) * w.nx + cell[0];
        big tr = m.tr(group), dc = -logl((big)rng.draw()) / tr;
        if (std::abs((double)(dc - dist)) < 1e-5) {
            return CLOSE_CALL;
        }
        big len = std::min(dc, dist);
        sc.tl[group][reg] += len * st.weight;
        sc.pin[group][icell] += len * st.weight;
        sc.power[icell] += len * st.weight * m.f[group];
        sc.k_tl += len * st.weight * m.nf[group];
        for (int k = 0; k < 3; k++) {
            r[k] += len * o[k];
        }
        if (dc < dist) {
            bool close = false;
            sc.k_col += st.weight * m.nf[group] / tr;
            sc.col[group][reg] += st.weight / tr;
            double s = (double)(m.out(group) / tr), f = (double)(m.f[group] / tr);
            int what = sample({s, s + f, 1.0}, close);
            if (what == 0) {
                std::vector<double> cdf;
                double sum = 0;
                for (int g = 0; g < w.p.ng; g++) {
                    cdf.push_back(sum += m.sc[g][group] / m.out(group));
                }
                group = sample(cdf, close);
                isotropic(o);
            } else if (what == 1) {
                big nu   = (big)m.nf[group] / m.f[group] * st.weight;
                double u = rng.draw();
                close    = close || std::abs((double)(nu + u - roundl(nu + u))) < 1e-12;
                int n    = (int)(nu + u);
                for (int i = 0; i < n; i++) {
                    std::vector<double> cdf;
                    double sum = 0;
                    for (double v : m.chi) {
                        cdf.push_back(sum += v);
                    }
                    Scores::Site x;
                    x.group = sample(cdf, close);
                    big q[3];
                    isotropic(q);
                    x.x = r[0], x.y = r[1], x.z = r[2], x.ox = q[0], x.oy = q[1], x.oz = q[2];
                    x.id = st.id;
                    sc.sites.push_back(x);
                }
            }
            if (close) {
                return CLOSE_CALL;
            }
            if (what != 0) {
                return CLEAR;
            }
            continue;
        }
        int face = cand[0].second;
        if (face < 0) {
            continue;
        }
        int k = face / 2;
        if (fabsl(o[k]) < 1e-3L) {
            return CLOSE_CALL; // all but parallel: any error grows too much
        }
        cell[k] += face % 2 ? 1 : -1;
        if (cell[k] >= 0 && cell[k] + 1 < (int)edges[k]->size()) {
            r[k] = (*edges[k])[cell[k] + (face % 2 ? 0 : 1)];
            continue;
        }
        if (!w.refl[face]) {
            return CLEAR;
        }
        cell[k] -= face % 2 ? 1 : -1;
        r[k] = (*edges[k])[cell[k] + face % 2];
        o[k] = -o[k];
    }
}
// does what the code reports agree with the scores?
static bool agrees(const World &w, const ParticlePusher &pu, FissionBank &bank, const Scores &sc, std::string &why, bool k_too = true, big batches = 1)
{
    auto near = [](big a, big b) { return fabsl(a - b) < 1e-5L * (1 + fabsl(b)); };
    for (int g = 0; g < w.p.ng; g++) {
        auto f = pu.fine_flux_tallies()[g].get(), q = pu.flux_tallies()[g].get();
        if ((int)f.size() != w.nreg || q.size() != sc.pin[g].size()) {
            why = "number of regions";
            return false;
        }
        for (int i = 0; i < w.nreg; i++) {
            big got = (big)f[i].first * w.vol[i] * sc.weight * batches;
            if (!near(got, sc.tl[g][i])) {
                why = fmt("track length in region %d, group %d: %.12g, expected %.12g", i, g, (double)got, (double)sc.tl[g][i]);
                return false;
            }
        }
        for (size_t i = 0; i < q.size(); i++) {
            big v   = (big)1.2 * 1.2 * w.p.hz[i / (w.nx * w.ny)];
            big got = (big)q[i].first * v * sc.weight * batches;
            if (!near(got, sc.pin[g][i])) {
                why = fmt("track length in pin %d, group %d: %.12g, expected %.12g", (int)i, g, (double)got, (double)sc.pin[g][i]);
                return false;
            }
        }
    }
    if (k_too) {
        big a = (big)pu.k_tally_tl().get().first * sc.weight, b = (big)pu.k_tally_col().get().first * sc.weight;
        if (!near(a, sc.k_tl) || !near(b, sc.k_col)) {
            why = fmt("production by track length %.12g, by collisions %.12g, expected %.12g and %.12g", (double)a, (double)b, (double)sc.k_tl, (double)sc.k_col);
            return false;
        }
    }
    if (bank.size() != (int)sc.sites.size()) {
        why = fmt("%d fission sites, expected %d", bank.size(), (int)sc.sites.size());
        return false;
    }
    for (int i = 0; i < bank.size(); i++) {
        auto &p = bank[i];
        auto &s = sc.sites[i];
        if (!near(p.location_global.x, s.x) || !near(p.location_global.y, s.y) || !near(p.location_global.z, s.z) || !near(p.direction.ox, s.ox) || !near(p.direction.oy, s.oy) ||
            !near(p.direction.oz, s.oz) || p.group != s.group || p.id != s.id || p.weight != 1.0) {
            why = fmt("fission site %d", i);
            return false;
        }
    }
    return true;
}
static Particle particle(const Start &s, const Direction &dir)
{
    Particle p(Point3(s.r[0], s.r[1], s.r[2]), dir, s.group, s.id);
    p.weight = s.weight;
    return p;
}
static Start start(double x, double y, double z, const Direction &d, int g, unsigned id, double wt)
{
    return {{x, y, z}, {d.ox, d.oy, d.oz}, g, id, wt};
}
static std::vector<Direction> directions(int polar, int azi)
{
    std::vector<Direction> v;
    for (int i = 0; i < polar; i++) {
        for (int j = 0; j < azi; j++) {
            v.push_back(Direction(2 * PI_L * (j + 0.137) / azi, PI_L * (i + 0.41) / polar));
        }
    }
    return v;
}
struct Core2 {
    ci::Doc doc;
    CoreMesh mesh;
    XSMesh xs;
    explicit Core2(const World &w) : doc(w.text), mesh(doc.root()), xs(mesh, MeshTreatment::TRUE)
    {
    }
};

// --- single histories
static void histories(Ctx &c)
{
    int kind = c.choose(5), bc = c.choose(kind < 2 || c.thorough() ? 64 : 16);
    if (kind >= 2 && !c.thorough()) {
        bc = bc * 37 % 64; // spread over all combinations
    }
    int group = c.choose(kind == 4 ? 7 : 2), seed = c.choose(2);
    static const std::vector<unsigned> ids = {0, 7, 600000, 4000000000u};
    unsigned id = c.pick(ids);
    double wt   = c.choose(2) ? 2.5 : 1.0;
    if (!c.leaf(fmt("core %d, boundaries %d, group %d, seed %d, particle %u, weight %g", kind, bc, group, seed, id, wt))) {
        return;
    }
    auto w = make(kind, bc);
    Core2 core(w);
    auto dirs = directions(3, c.thorough() ? 8 : 4);
    int clear = 0, n = 0;
    for (double fx : {0.07, 0.41, 0.66, 0.93}) {
        for (double fy : {0.12, 0.57}) {
            for (double fz : {0.22, 0.81}) {
                for (auto &d : dirs) {
                    n++;
                    auto st = start(fx * w.x.back(), fy * w.y.back(), fz * w.z.back(), d, group, id, wt);
                    Scores a(w), b(w);
                    uint64_t sd = seed ? 11112854149ull : 1;
                    Verdict va = follow(w, st, sd, id, true, a), vb = follow(w, st, sd, id, false, b);
                    ParticlePusher pu(core.mesh, core.xs);
                    pu.set_seed(sd);
                    pu.simulate(particle(st, d), true);
                    if (va != CLEAR || vb != CLEAR) {
                        continue;
                    }
                    clear++;
                    std::string why, why2;
                    bool ok = agrees(w, pu, pu.fission_bank(), a, why) || agrees(w, pu, pu.fission_bank(), b, why2);
                    if (!c.expect(ok, fmt("start %g %g %g, direction %g %g %g: ", (double)st.r[0], (double)st.r[1], (double)st.r[2], d.ox, d.oy, d.oz) + why + " or " + why2)) {
                        return;
                    }
                    c.steps(a.events);
                }
            }
        }
    }
    c.expect(clear * 10 >= n * 9, fmt("%d of %d histories are free of close calls", clear, n));
    c.state(fmt("%d %d %d %d %u %g", kind, bc, group, seed, id, wt));
}

// --- flights through a void: straight lines, mirrored at the walls, also
// through edges, corners and along faces
static void flights(Ctx &c)
{
    // one or two sides are open; always one that the particle reaches
    static const std::vector<int> open = {0, 1, 2, 3, 4, 5};
    int a = c.pick(open), b = c.pick(open);
    int bc = 63 & ~(1 << a) & ~(1 << b);
    int start_kind = c.choose(6), dk = c.choose(3);
    if (!c.leaf(fmt("open sides %d and %d, starts %d, directions %d", a, b, start_kind, dk))) {
        return;
    }
    auto w = make(5, bc);
    Core2 core(w);
    // starts: interior points on and off lines, faces and corners
    std::vector<std::array<double, 3>> pts;
    switch (start_kind) {
    case 0:
        pts = {{{0.5, 0.5, 0.3}}, {{1.9, 0.4, 1.5}}, {{0.3, 2.0, 2.2}}};
        break;
    case 1: // pin centres and sector lines
        pts = {{{0.6, 0.6, 0.35}}, {{1.8, 0.6, 0.35}}, {{1.8, 0.9, 1.0}}, {{0.6, 1.8, 1.5}}};
        break;
    case 2: // pin faces
        pts = {{{1.2, 0.5, 0.3}}, {{0.5, 1.2, 0.3}}, {{0.5, 0.5, 0.7}}};
        break;
    case 3: // edges and corners inside
        pts = {{{1.2, 1.2, 0.3}}, {{1.2, 0.6, 0.7}}, {{1.2, 1.2, 0.7}}};
        break;
    case 4: // just inside the walls
        pts = {{{1e-6, 0.6, 0.3}}, {{2.4 - 1e-6, 1.7, 1.0}}, {{1.0, 1e-6, 1e-6}}};
        break;
    case 5: // on ring surfaces
        pts = {{{1.8 + 0.3, 0.6, 0.3}}, {{1.8, 0.6 - 0.4, 0.3}}, {{0.6 + 0.4 * std::sqrt(0.5), 1.8 + 0.4 * std::sqrt(0.5), 0.3}}};
        break;
    }
    std::vector<std::array<double, 3>> dirs;
    if (dk == 0) { // all lattice directions
        for (int i = -1; i <= 1; i++) {
            for (int j = -1; j <= 1; j++) {
                for (int k = -1; k <= 1; k++) {
                    if (i || j || k) {
                        dirs.push_back({{(double)i, (double)j, (double)k}});
                    }
                }
            }
        }
    } else {
        for (int i = -2; i <= 2; i++) {
            for (int j = -2; j <= 2; j++) {
                for (int k = -2; k <= 2; k++) {
                    if (i && j && k && (dk == 1 ? std::abs(i) != std::abs(j) : std::abs(i) == std::abs(j))) {
                        dirs.push_back({{i * (dk == 1 ? 1.037 : 1.0), j * 0.9 + (dk == 1 ? 0.011 : 0), k * 0.71}});
                    }
                }
            }
        }
    }
    for (auto &pt : pts) {
        for (auto &dv : dirs) {
            double len = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);
            if (dv[0] == 0 && dv[1] == 0) {
                continue; // the azimuth of the poles is not defined
            }
            if (dv[2] == 0 && pt[2] == 0.7) {
                continue; // within the interface of two planes
            }
            double o[3] = {dv[0] / len, dv[1] / len, dv[2] / len};
            // does it reach an open side, and how far is that?
            double ext[3] = {w.x.back(), w.y.back(), w.z.back()}, far = 1e30;
            int via = -1;
            for (int side : {a, b}) {
                int k = side / 2;
                if (o[k] == 0) {
                    continue;
                }
                // unfolded distance until this side is hit
                double t = side % 2 ? (o[k] > 0 ? ext[k] - pt[k] : pt[k] + ext[k]) : (o[k] < 0 ? pt[k] : 2 * ext[k] - pt[k]);
                // if the opposite side is open too it leaves there first
                t /= std::abs(o[k]);
                if (t < far) {
                    far = t;
                    via = side;
                }
            }
            if (via < 0) {
                continue;
            }
            Direction dir(o[0], o[1], o[2]);
            ParticlePusher pu(core.mesh, core.xs);
            Particle p(Point3(pt[0], pt[1], pt[2]), dir, 1, 3);
            pu.simulate(p, true);
            auto f = pu.fine_flux_tallies()[1].get(), q = pu.flux_tallies()[1].get(), other = pu.fine_flux_tallies()[0].get();
            std::string at = fmt("from %g %g %g along %g %g %g: ", pt[0], pt[1], pt[2], dv[0], dv[1], dv[2]);
            big sum = 0, sum_pin = 0, sum0 = 0;
            for (int i = 0; i < w.nreg; i++) {
                sum += (big)f[i].first * w.vol[i];
                sum0 += (big)other[i].first;
            }
            // the true path, cell by cell
            std::vector<big> want(q.size(), 0);
            std::vector<big> fine(w.nreg, 0);
            // unfold: crossings with all planes of the unfolded lattice
            std::vector<double> ts = {0, far};
            for (int k = 0; k < 3; k++) {
                if (o[k] == 0) {
                    continue;
                }
                auto &e = k == 0 ? w.x : k == 1 ? w.y : w.z;
                for (int m = -40; m <= 40; m++) {
                    for (double v : e) {
                        // images of the plane under mirroring
                        for (double img : {2 * m * ext[k] + v, 2 * m * ext[k] - v}) {
                            double t = (img - pt[k]) / o[k];
                            if (t > 0 && t < far) {
                                ts.push_back(t);
                            }
                        }
                    }
                }
            }
            std::sort(ts.begin(), ts.end());
            bool grazing = false;
            auto fold = [&](double v, double e) {
                v = std::fmod(v, 2 * e);
                v = v < 0 ? v + 2 * e : v;
                return v > e ? 2 * e - v : v;
            };
            for (size_t i = 0; i + 1 < ts.size(); i++) {
                double dt = ts[i + 1] - ts[i];
                if (dt < 1e-9) {
                    continue;
                }
                int ix[3];
                for (int k = 0; k < 3; k++) {
                    double v = fold(pt[k] + o[k] * (ts[i] + dt / 2), ext[k]);
                    auto &e  = k == 0 ? w.x : k == 1 ? w.y : w.z;
                    ix[k]    = std::upper_bound(e.begin(), e.end(), v) - e.begin() - 1;
                    for (double x : e) {
                        grazing = grazing || std::abs(v - x) < 1e-9;
                    }
                }
                if (grazing) {
                    break;
                }
                want[(ix[2] * w.ny + ix[1]) * w.nx + ix[0]] += dt;
            }
            for (size_t i = 0; i < q.size(); i++) {
                sum_pin += (big)q[i].first * 1.44L * w.p.hz[i / (w.nx * w.ny)];
            }
            c.expect_eq((double)sum, far, 1e-7 * (1 + far), at + "length of the whole path");
            c.expect_eq((double)sum_pin, far, 1e-7 * (1 + far), at + "length of the whole path over pins");
            c.expect(sum0 == 0, at + "nothing is scored in the other group");
            if (!grazing) {
                for (size_t i = 0; i < q.size(); i++) {
                    c.expect_eq(q[i].first * 1.44 * w.p.hz[i / (w.nx * w.ny)], (double)want[i], 1e-7, at + fmt("path length in cell %d", (int)i));
                }
            }
            c.expect_int(pu.fission_bank().size(), 0, at + "no fission");
            c.steps(1);
        }
    }
    c.state(fmt("%d %d %d %d", a, b, start_kind, dk));
}

// --- batches: every particle has its own stream, batches follow each other
static void batches(Ctx &c)
{
    int kind = c.choose(5), bc = c.choose(4), n = c.pick(std::vector<int>{1, 2, 3, 9}), rounds = c.pick(std::vector<int>{1, 2, 3, 7}), reset = c.choose(3);
    static const int B[] = {0, 63, 21, 42};
    if (!c.leaf(fmt("core %d, boundaries %d, %d particles, %d batches, reset %d", kind, B[bc], n, rounds, reset))) {
        return;
    }
    auto w = make(kind, B[bc]);
    Core2 core(w);
    auto dirs = directions(3, 4);
    ParticlePusher pu(core.mesh, core.xs);
    pu.set_seed(987654321);
    uint64_t offset = 0;
    std::vector<Scores> total(2, Scores(w));
    bool close = false;
    int done   = 0;
    for (int k = 0; k < rounds; k++) {
        FissionBank bank(core.mesh);
        std::vector<Start> sts;
        for (int i = 0; i < n + k; i++) {
            auto &d = dirs[(5 * i + 3 * k) % dirs.size()];
            auto st = start(std::fmod(0.11 + 0.17 * i, 0.93) * w.x.back(), (0.87 - 0.19 * (k % 4)) * w.y.back(), 0.31 * w.z.back(), d, i % w.p.ng, i, 1.0);
            sts.push_back(st);
            Particle p = particle(st, d);
            bank.push_back(p);
        }
        pu.simulate(bank, 1.0);
        std::vector<Scores> now(2, Scores(w));
        for (int v = 0; v < 2; v++) {
            for (auto &st : sts) {
                close = follow(w, st, 987654321, st.id + offset, v == 0, now[v]) == CLOSE_CALL || close;
            }
        }
        offset += sts.size();
        if (close) {
            break;
        }
        // the bank holds this generation only
        std::string why[2];
        bool ok = false;
        for (int v = 0; v < 2; v++) {
            // spatial tallies average batches of score per weight
            Scores &t = total[v];
            if (reset == 2 && k > 0) {
                t = Scores(w);
            }
            for (int g = 0; g < w.p.ng; g++) {
                for (size_t i = 0; i < t.tl[g].size(); i++) {
                    t.tl[g][i] += now[v].tl[g][i] / now[v].weight;
                }
                for (size_t i = 0; i < t.pin[g].size(); i++) {
                    t.pin[g][i] += now[v].pin[g][i] / now[v].weight;
                }
            }
            t.sites  = now[v].sites;
            t.weight = 1;
            // k estimates of this batch, if they were reset
            bool k_ok = true;
            if (reset) {
                k_ok = fabsl((big)pu.k_tally_tl().get().first - now[v].k_tl / now[v].weight) < 1e-7L && fabsl((big)pu.k_tally_col().get().first - now[v].k_col / now[v].weight) < 1e-7L &&
                       fabsl((big)pu.k_tally_analog().get().first - (big)now[v].sites.size() / sts.size()) < 1e-9L;
                why[v] = "k estimates of the batch";
            }
            ok = ok || (k_ok && agrees(w, pu, pu.fission_bank(), t, why[v], false, reset == 2 ? 1 : k + 1));
        }
        if (!c.expect(ok, fmt("after batch %d: ", k + 1) + why[0] + " or " + why[1])) {
            return;
        }
        done++;
        if (reset) {
            pu.reset_tallies(reset == 2);
        }
        c.steps(sts.size());
    }
    c.note(fmt("%d batches followed", done));
    c.state(fmt("%d %d %d %d %d", kind, bc, n, rounds, reset));
}

// --- what is written at the end
static void output(Ctx &c)
{
    int kind = c.choose(5), bc = c.choose(64);
    if (!c.leaf(fmt("core %d, boundaries %d", kind, bc))) {
        return;
    }
    auto w = make(kind, bc);
    Core2 core(w);
    auto dirs = directions(3, 4);
    ParticlePusher pu(core.mesh, core.xs);
    std::vector<Scores> sc(2, Scores(w));
    int n = 0;
    std::vector<std::vector<big>> tl(w.p.ng, std::vector<big>(w.nreg, 0)), col = tl;
    for (size_t i = 0; i < dirs.size(); i++) {
        auto st = start(0.37 * w.x.back(), 0.61 * w.y.back(), 0.57 * w.z.back(), dirs[i], i % w.p.ng, i, 1.0);
        bool close = false;
        std::vector<Scores> t = sc;
        for (int v = 0; v < 2; v++) {
            close = follow(w, st, 1, st.id, v == 0, t[v]) == CLOSE_CALL || close;
        }
        if (close) {
            continue;
        }
        sc = t;
        pu.simulate(particle(st, dirs[i]), true);
        n++;
    }
    {
        H5Node f("out.h5", H5Access::WRITE);
        pu.output(f);
    }
    H5Node f("out.h5", H5Access::READ);
    std::string why[2];
    bool ok = false;
    for (int v = 0; v < 2 && !ok; v++) {
        ok = true;
        auto cmp = [&](const std::string &path, const std::vector<big> &want, const std::function<big(int)> &scale) {
            ArrayB1 a;
            f.read_1d(path, a);
            if ((int)a.size() != (int)want.size()) {
                ok     = false;
                why[v] = path + fmt(" has %d values", (int)a.size());
                return;
            }
            for (size_t i = 0; i < want.size(); i++) {
                if (!(fabsl((big)a((int)i) * scale(i) - want[i]) <= 1e-6L) && ok) {
                    ok     = false;
                    why[v] = path + fmt(", value %d: %.12g, expected %.12g", (int)i, (double)((big)a((int)i) * scale(i)), (double)want[i]);
                }
            }
        };
        for (int g = 0; g < w.p.ng; g++) {
            std::string gs = fmt("%03d", g + 1);
            cmp("flux/" + gs, sc[v].pin[g], [&](int i) { return 1.44L * w.p.hz[i / (w.nx * w.ny)] * n; });
            cmp("fsr_flux/" + gs, sc[v].tl[g], [&](int i) { return (big)w.vol[i] * n; });
            cmp("fsr_flux_col/" + gs, sc[v].col[g], [&](int i) { return (big)w.vol[i] * n; });
        }
        // powers per volume, normalised to an average of one over the fuelled pins
        big sum = 0;
        int nf  = 0;
        std::vector<big> pw;
        for (size_t i = 0; i < sc[v].power.size(); i++) {
            pw.push_back(sc[v].power[i] / (1.44L * w.p.hz[i / (w.nx * w.ny)]));
            sum += pw.back();
            nf += pw.back() > 0;
        }
        if (nf > 0) {
            for (auto &x : pw) {
                x *= nf / sum;
            }
            cmp("pin_power", pw, [](int) { return 1.0L; });
        }
    }
    c.expect(ok, why[0] + " or " + why[1]);
    auto dims = f.dimensions("flux/001");
    c.expect(dims == (std::vector<hsize_t>{(hsize_t)w.nz, (hsize_t)w.ny, (hsize_t)w.nx}), "shape of the stored flux");
    int ng = 0;
    f.read("ng", ng);
    c.expect_int(ng, w.p.ng, "stored number of groups");
    c.steps(n);
    c.state(fmt("%d %d", kind, bc));
}

int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "R04",
                   {{"histories", histories, 60, "single histories in five cores over boundary conditions, 16 starts, 12 (thorough: 24) directions, groups, seeds, particle numbers and weights, replayed from the documented random stream"},
                    {"flights", flights, 60, "flights through an empty structured core from faces, edges, corners and lines along lattice and skew directions, over pairs of open sides"},
                    {"batches", batches, 60, "up to seven batches of up to 15 particles, with the tallies kept, partly or fully reset in between"},
                    {"output", output, 60, "tallies as written at the end, over five cores and all boundary conditions"}});
}
