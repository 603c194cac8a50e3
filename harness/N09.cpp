// N09: problems that are images of each other have results that are images of
// each other.
#include <omp.h>
#include <functional>
#include "core_problem.hpp"
#include "eigen_run.hpp"
#include "shape.hpp"
#include "solvers/fixed_source_solver.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using er::Vec;

// ---- cores ------------------------------------------------------------
using sh::Fuel;
using sh::Shape;
static Fuel mirror_x(Fuel p)
{
    for (int y = 0; y < p.sy; y++) {
        std::reverse(p.mats.begin() + y * p.sx, p.mats.begin() + (y + 1) * p.sx);
    }
    return p;
}
static Fuel transpose(const Fuel &p)
{
    Fuel t = p;
    if (p.sx) {
        t.sx = p.sy;
        t.sy = p.sx;
        for (int y = 0; y < p.sy; y++) {
            for (int x = 0; x < p.sx; x++) {
                t.mats[x * t.sx + y] = p.mats[y * p.sx + x];
            }
        }
    }
    return t;
}
// The image of a core, and for each of its cells the cell it is the image of,
// both in a plane and among planes and groups of planes.
struct Image {
    Shape s;
    std::vector<int> cell, plane, group;
};
static int swap_bits(int bits, int axis)
{
    int lo = bits >> 2 * axis & 1, hi = bits >> (2 * axis + 1) & 1;
    bits &= ~(3 << 2 * axis);
    return bits | lo << (2 * axis + 1) | hi << 2 * axis;
}
static Image same(const Shape &s)
{
    Image r{s, {}, {}, {}};
    for (int i = 0; i < s.nx * s.ny; i++) {
        r.cell.push_back(i);
    }
    for (int z = 0; z < s.nz(); z++) {
        r.plane.push_back(z);
    }
    for (size_t g = 0; g < s.groups.size(); g++) {
        r.group.push_back(g);
    }
    return r;
}
static Image mirrored_x(const Image &a)
{
    Image r = a;
    for (int y = 0; y < a.s.ny; y++) {
        for (int x = 0; x < a.s.nx; x++) {
            int to = y * a.s.nx + x, from = y * a.s.nx + a.s.nx - 1 - x;
            r.cell[to] = a.cell[from];
            for (size_t g = 0; g < a.s.groups.size(); g++) {
                r.s.pin[g][to] = mirror_x(a.s.pin[g][from]);
            }
        }
    }
    r.s.bc = swap_bits(a.s.bc, 0);
    return r;
}
static Image transposed(const Image &a)
{
    Image r = a;
    std::swap(r.s.nx, r.s.ny);
    for (int y = 0; y < a.s.ny; y++) {
        for (int x = 0; x < a.s.nx; x++) {
            int to = x * a.s.ny + y, from = y * a.s.nx + x;
            r.cell[to] = a.cell[from];
            for (size_t g = 0; g < a.s.groups.size(); g++) {
                r.s.pin[g][to] = transpose(a.s.pin[g][from]);
            }
        }
    }
    r.s.bc = (a.s.bc & 48) | (a.s.bc & 3) << 2 | (a.s.bc & 12) >> 2;
    return r;
}
static Image upside_down(const Image &a)
{
    Image r = a;
    std::reverse(r.s.groups.begin(), r.s.groups.end());
    std::reverse(r.s.hz.begin(), r.s.hz.end());
    std::reverse(r.s.pin.begin(), r.s.pin.end());
    std::reverse(r.plane.begin(), r.plane.end());
    std::reverse(r.group.begin(), r.group.end());
    r.s.bc = swap_bits(a.s.bc, 2);
    return r;
}
static Image turned(const Shape &s, int t)
{
    Image r = same(s);
    if (t & 1) {
        r = mirrored_x(r);
    }
    if (t & 2) {
        r = transposed(mirrored_x(transposed(r)));
    }
    if (t & 4) {
        r = transposed(r);
    }
    if (t & 8) {
        r = upside_down(r);
    }
    return r;
}
// a core and its mirror image beyond its west or bottom face
static Image unfolded_x(const Image &a)
{
    Image m = mirrored_x(a), r = a;
    r.s.nx *= 2;
    r.cell.clear();
    for (auto &p : r.s.pin) {
        p.clear();
    }
    for (int y = 0; y < a.s.ny; y++) {
        for (const Image *h : {(const Image *)&m, &a}) {
            for (int x = 0; x < a.s.nx; x++) {
                r.cell.push_back(h->cell[y * a.s.nx + x]);
                for (size_t g = 0; g < a.s.groups.size(); g++) {
                    r.s.pin[g].push_back(h->s.pin[g][y * a.s.nx + x]);
                }
            }
        }
    }
    r.s.bc = (a.s.bc & ~1) | (a.s.bc >> 1 & 1);
    return r;
}
static Image unfolded_z(const Image &a)
{
    Image r = upside_down(a);
    auto add = [](auto &x, auto &y) { x.insert(x.end(), y.begin(), y.end()); };
    add(r.s.groups, a.s.groups);
    add(r.s.hz, a.s.hz);
    add(r.s.pin, a.s.pin);
    add(r.plane, a.plane);
    add(r.group, a.group);
    r.s.bc = (a.s.bc & ~16) | (a.s.bc >> 5 & 1) << 4;
    return r;
}
static const size_t LIMIT = 2000; // iterations to convergence
// ---- methods ----------------------------------------------------------
static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"2\"/>", "<ang_quad type=\"cy\" n_azimuthal=\"2\" n_polar=\"2\"/>"};
static const char *const METHOD[] = {"Sn", "Sn, step characteristics", "MoC", "2D3D", "MoC with CMFD", "2D3D with splitting"};
static bool flat(int method)
{
    return method == 2 || method == 4;
}
static std::string rays(double unit, bool pin)
{
    return fmt("<rays spacing=\"%.17g\" modularity=\"%s\"/>", 0.25 * unit, pin ? "pin" : "core");
}
static std::string sweeper(int method, int quad, double unit, bool pin, bool jacobi)
{
    std::string q = QUAD[quad], b = jacobi ? " boundary_update=\"jacobi\">" : ">";
    switch (method) {
    case 0:
        return "<sweeper type=\"sn\" equation=\"dd\" axial=\"dd\" n_inner=\"3\"" + b + q + "</sweeper>";
    case 1:
        return "<sweeper type=\"sn\" equation=\"dd\" axial=\"sc\" n_inner=\"2\"" + b + q + "</sweeper>";
    case 2:
    case 4:
        return fmt("<sweeper type=\"moc\" n_inner=\"%d\"", method == 2 ? 3 : 12) + b + q + rays(unit, pin) + "</sweeper>";
    default:
        return "<sweeper type=\"2d3d\">" + q + fmt("<moc_sweeper n_inner=\"12\" tl_splitting=\"%s\"", method == 5 ? "t" : "f") + b + q + rays(unit, pin) + "</moc_sweeper><sn_sweeper equation=\"cdd\" axial=\"dd\" n_inner=\"12\"" + b + q + "</sn_sweeper></sweeper>";
    }
}
// some iterations, or as many as it takes
static std::string solver(int method, int quad, int iterations, bool jacobi, double unit = 1, bool pin = false)
{
    std::string limits = iterations ? fmt("k_tol=\"1e-20\" psi_tol=\"1e-20\" max_iter=\"%d\"", iterations) : fmt("k_tol=\"1e-10\" psi_tol=\"1e-9\" max_iter=\"%d\"", (int)LIMIT);
    return "<solver type=\"eigenvalue\" " + limits + fmt(" cmfd=\"%s\">", method > 2 ? "t" : "f") + sweeper(method, quad, unit, pin, jacobi) + "<source scattering=\"P0\"/><cmfd k_tol=\"1e-14\" psi_tol=\"1e-14\" residual_reduction=\"1e-12\" max_iter=\"400\"/></solver>";
}
static bool coupled(int method)
{
    return method == 3 || method == 5;
}
static er::Results go(Ctx &c, const Shape &s, const std::vector<ci::Mat> &lib, int method, const std::string &solver)
{
    c.steps(1);
    auto core = s.xml() + ci::lib_tag(lib, "lib.xsl");
    return er::apart(c, [&](er::Results &r) {
        ci::Doc doc("<mocc>" + core + solver + "</mocc>");
        CoreMesh mesh(doc.root());
        EigenSolver e(doc.root().child("solver"), mesh);
        e.solve();
        {
            H5Node out("run.h5", H5Access::WRITE);
            e.output(out);
        }
        H5Node in("run.h5", H5Access::READ);
        Vec k;
        in.read("convergence/k", k);
        r["k"]   = k;
        r["pin"] = er::dump(e.sweeper()->get_pin_flux());
        for (const char *n : coupled(method) ? std::vector<const char *>{"Sn/pin_powers", "MoC/pin_powers"} : std::vector<const char *>{"pin_powers"}) {
            ArrayB1 p;
            in.read_1d(n, p);
            r[n] = Vec(p.begin(), p.end());
        }
        auto f = er::dump(e.sweeper()->flux());
        r["clipped"] = {std::count(f.begin(), f.end(), 0.0) ? 1.0 : 0.0};
    });
}
// Runs that do not converge, or where negative fluxes were set to zero, have
// no result of their own.
static bool steady(er::Results &r)
{
    if (r.count("died")) {
        return false;
    }
    // acceleration may lead anywhere from a flux that is far off
    auto &k = r["k"], &f = r["pin"];
    return *std::min_element(k.begin(), k.end()) > 0.01 && *std::max_element(k.begin(), k.end()) < 5 && *std::min_element(f.begin(), f.end()) > 0;
}
static bool usable(er::Results &r)
{
    return !r.count("died") && r["k"].size() < LIMIT && !r["clipped"][0];
}
// The fluxes (or powers) of an image, compared with those of the core itself.
static bool fits(Ctx &c, const Vec &got, const Vec &want, double tol, const Image &m, const Shape &s, int ng, const std::string &what)
{
    int np = s.nx * s.ny, nq = m.cell.size(), nz = want.size() / np / ng;
    bool by_plane = nz == s.nz();
    auto &z = by_plane ? m.plane : m.group;
    if (!c.expect(np * nz * ng == (int)want.size() && (by_plane || nz == (int)s.groups.size()), what + ": odd number of values") || !c.expect_int(got.size(), nq * (int)z.size() * ng, what + ": number of values")) {
        return false;
    }
    Vec w;
    double sum = 0, total = 0, big = 0;
    for (size_t k = 0; k < z.size(); k++) {
        for (int i = 0; i < nq; i++) {
            for (int g = 0; g < ng; g++) {
                w.push_back(want[(z[k] * np + m.cell[i]) * ng + g]);
            }
        }
    }
    for (size_t i = 0; i < w.size(); i++) {
        sum += w[i];
        total += got[i];
    }
    for (size_t i = 0; i < w.size(); i++) {
        big = std::max(big, std::abs(w[i] / sum));
    }
    for (size_t i = 0; i < w.size(); i++) {
        if (!(std::abs(got[i] / total - w[i] / sum) <= 10 * tol * big)) {
            c.fail(what + fmt(" %d: got %.12g, expected %.12g", (int)i, got[i] / total, w[i] / sum));
            return false;
        }
    }
    return true;
}
static bool corresponds(Ctx &c, er::Results &got, er::Results &want, bool step_by_step, double tol, const Image &m, const Shape &s, int ng, const std::string &at)
{
    if (got.count("died")) {
        return false;
    }
    if (step_by_step) {
        if (!c.expect_int(got["k"].size(), want["k"].size(), at + "number of iterations")) {
            return false;
        }
        for (size_t i = 0; i < want["k"].size(); i++) {
            if (!c.expect_eq(got["k"][i], want["k"][i], tol, at + fmt("eigenvalue of iteration %d", (int)i + 1))) {
                return false;
            }
        }
    } else if (!c.expect(got["k"].size() < LIMIT, at + "does not converge, as the other does") || !c.expect_eq(got["k"].back(), want["k"].back(), tol, at + "eigenvalue")) {
        return false;
    }
    for (auto &x : want) {
        if (x.first.find("pin") != std::string::npos && !fits(c, got[x.first], x.second, tol, m, s, x.first == "pin" ? ng : 1, at + x.first)) {
            return false;
        }
    }
    return true;
}
// ---- bounds -----------------------------------------------------------
static const std::vector<Fuel> PIN = {{0, 0, {0, 1, 1}}, {2, 1, {0, 1}}, {1, 2, {1, 3}}, {2, 2, {1, 0, 1, 1}}, {1, 1, {1}}, {3, 2, {0, 0, 1, 2, 1, 1}}, {0, 0, {3, 2, 1}}};
static const int NX[] = {1, 2, 2, 3, 1, 3}, NY[] = {1, 1, 2, 1, 2, 2};
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2, 1}, {1, 2, 1}};
static const double HZ[] = {0.6, 1.3, 0.9, 2.0};
static const int BC[] = {0, 0x2a, 0x15, 0x26, 0x3f, 0x20, 0x01, 0x08};

static Shape shape(Ctx &c, bool planes, std::string &name, int first = 0)
{
    Shape s;
    int k = first + c.choose(c.thorough() ? 6 - first : 4 - first), gr = planes ? c.choose(c.thorough() ? 4 : 3) : c.choose(2) * 3;
    s.nx = NX[k];
    s.ny = NY[k];
    s.groups = planes || !gr ? GROUPS[gr] : std::vector<int>{2};
    int np = s.nx * s.ny, fill = c.choose(np == 1 ? (int)PIN.size() - 2 : c.thorough() ? 7 : 5);
    int z = 0;
    for (size_t g = 0; g < s.groups.size(); g++) {
        std::vector<Fuel> v;
        for (int i = 0; i < np; i++) {
            v.push_back(PIN[(fill + i * (2 + fill % 2) + g * 3 * (i == 0 || fill > 2)) % PIN.size()]);
        }
        if (!g && (v[0].mats == std::vector<int>{1})) {
            v[0] = PIN[0]; // something has to be fissile
        }
        s.pin.push_back(v);
        for (int p = 0; p < s.groups[g]; p++) {
            s.hz.push_back(HZ[z++]);
        }
    }
    s.bc = BC[c.choose(c.thorough() ? 8 : 4)];
    if (!planes) {
        s.bc &= 15;
    }
    name = fmt("%dx%d, planes %d, filling %d, boundary %x", s.nx, s.ny, gr, fill, s.bc);
    return s;
}
static void turns(Ctx &c)
{
    int method = c.choose(6), set = c.choose(2);
    std::string name;
    Shape s = shape(c, !flat(method), name);
    if (!c.leaf(fmt("%s, set %d, ", METHOD[method], set) + name)) {
        return;
    }
    int ng = set ? 2 : 1, quad = set + (method > 1 ? 1 : 0);
    auto lib = cp::library(ng);
    auto want = go(c, s, lib, method, solver(method, quad, coupled(method) ? 3 : 5, true));
    if (!steady(want)) {
        return;
    }
    for (int t = 1; t < 16; t++) {
        if (method > 2 && (t & 4) && s.nx * s.ny > 1) {
            continue; // rays through corners count on either face
        }
        auto m   = turned(s, t);
        auto got = go(c, m.s, lib, method, solver(method, quad, coupled(method) ? 3 : 5, true));
        if (!corresponds(c, got, want, true, 1e-7, m, s, ng, fmt("%s%s%s%s: ", t & 1 ? "east-west mirrored " : "", t & 2 ? "north-south mirrored " : "", t & 4 ? "turned " : "", t & 8 ? "upside down" : ""))) {
            return;
        }
    }
}
static void unfoldings(Ctx &c)
{
    int method = c.pick(std::vector<int>{0, 1, 2, 4}), set = c.choose(2);
    std::string name;
    Shape s = shape(c, !flat(method), name);
    if ((s.bc & 21) == 21 || (!c.thorough() && (s.bc + (int)s.hz.size() + s.pin[0][0].sx + set) % 2)) {
        return; // no face to unfold at, or for the thorough tier
    }
    if (!c.leaf(fmt("%s, set %d, ", METHOD[method], set) + name)) {
        return;
    }
    int ng = set ? 2 : 1, quad = set + (method > 1 ? 1 : 0);
    auto lib = cp::library(ng);
    auto want = go(c, s, lib, method, solver(method, quad, 0, false, 1, true));
    if (!usable(want)) {
        return;
    }
    for (int t = 1; t < 8; t++) {
        if (((t & 1) && (s.bc & 1)) || ((t & 2) && (s.bc & 4)) || ((t & 4) && (s.bc & 16))) {
            continue; // not a reflecting face
        }
        Image m = same(s);
        if (t & 1) {
            m = unfolded_x(m);
        }
        if (t & 2) {
            m = transposed(unfolded_x(transposed(m)));
        }
        if (t & 4) {
            m = unfolded_z(m);
        }
        auto got = go(c, m.s, lib, method, solver(method, quad, 0, false, 1, true));
        if (!corresponds(c, got, want, false, method == 4 ? 1e-6 : 1e-7, m, s, ng, fmt("unfolded%s%s%s: ", t & 1 ? " at the west" : "", t & 2 ? " at the south" : "", t & 4 ? " at the bottom" : ""))) {
            return;
        }
    }
}
static void scales(Ctx &c)
{
    int method = c.choose(6), set = c.choose(2);
    std::string name;
    Shape s = shape(c, !flat(method), name, 1);
    if (!c.leaf(fmt("%s, set %d, ", METHOD[method], set) + name)) {
        return;
    }
    int ng = set ? 2 : 1, quad = set + (method > 1 ? 1 : 0);
    auto want = go(c, s, cp::library(ng), method, solver(method, quad, coupled(method) ? 2 : 3, false));
    if (!steady(want)) {
        return;
    }
    for (double u : {0.5, 2.0, 4.0}) {
        Image m  = same(s);
        m.s.unit = u;
        auto lib = cp::library(ng);
        for (auto &x : lib) {
            for (auto *v : {&x.abs, &x.nf, &x.f}) {
                for (double &e : *v) {
                    e /= u;
                }
            }
            for (auto &v : x.sc) {
                for (double &e : v) {
                    e /= u;
                }
            }
        }
        auto got = go(c, m.s, lib, method, solver(method, quad, coupled(method) ? 2 : 3, false, u));
        if (!corresponds(c, got, want, true, coupled(method) ? 1e-5 : 1e-7, m, s, ng, fmt("lengths times %g: ", u))) {
            return;
        }
    }
}
// each group in parts that are alike: every part has its share of the flux
static std::vector<ci::Mat> in_parts(const std::vector<ci::Mat> &lib, const std::vector<std::vector<double>> &share)
{
    std::vector<ci::Mat> r;
    for (auto &m : lib) {
        ci::Mat x;
        x.name = m.name;
        for (size_t g = 0; g < share.size(); g++) {
            for (double a : share[g]) {
                x.abs.push_back(m.abs[g]);
                x.nf.push_back(m.nf[g]);
                x.f.push_back(m.f[g]);
                x.chi.push_back(m.chi[g] * a);
                x.sc.push_back({});
                for (size_t f = 0; f < share.size(); f++) {
                    x.sc.back().insert(x.sc.back().end(), share[f].size(), m.sc[g][f] * a);
                }
            }
        }
        r.push_back(x);
    }
    return r;
}
static void parts(Ctx &c)
{
    static const std::vector<std::vector<std::vector<double>>> SHARE1 = {{{0.25, 0.75}}, {{0.5, 0.2, 0.3}}}, SHARE2 = {{{1}, {0.25, 0.75}}, {{0.5, 0.5}, {1}}, {{0.1, 0.9}, {0.2, 0.5, 0.3}}};
    int method = c.pick(std::vector<int>{0, 1, 2, 4}), set = c.choose(2);
    std::string name;
    Shape s = shape(c, !flat(method), name, 1);
    if (!c.leaf(fmt("%s, set %d, ", METHOD[method], set) + name)) {
        return;
    }
    int ng = set ? 2 : 1, quad = set + (method > 1 ? 1 : 0);
    auto lib = cp::library(ng);
    auto want = go(c, s, lib, method, solver(method, quad, 0, false));
    if (!usable(want)) {
        return;
    }
    for (auto &share : set ? SHARE2 : SHARE1) {
        auto got = go(c, s, in_parts(lib, share), method, solver(method, quad, 0, false));
        if (got.count("died")) {
            return;
        }
        int n = 0, np = want["pin"].size() / ng;
        std::string at = "groups in parts";
        for (auto &v : share) {
            n += v.size();
            at += fmt(" %d", (int)v.size());
        }
        at += ": ";
        if (!c.expect_int(got["pin"].size(), np * n, at + "number of fluxes")) {
            return;
        }
        Vec sum;
        for (int i = 0; i < np; i++) {
            int k = i * n;
            for (int g = 0; g < ng; g++) {
                double f = 0;
                for (size_t q = 0; q < share[g].size(); q++) {
                    f += got["pin"][k + q];
                }
                for (double a : share[g]) {
                    if (!c.expect_eq(got["pin"][k++], a * f, 1e-7, at + fmt("share of the flux of pin %d in group %d", i, g))) {
                        return;
                    }
                }
                sum.push_back(f);
            }
        }
        got["pin"] = sum;
        if (!corresponds(c, got, want, false, method == 4 ? 1e-6 : 1e-7, same(s), s, ng, at)) {
            return;
        }
    }
}
// ---- external sources -------------------------------------------------
static void sums(Ctx &c)
{
    int method = c.choose(3), set = c.choose(2);
    std::string name;
    Shape s = shape(c, !flat(method), name);
    if (!c.leaf(fmt("%s, set %d, ", METHOD[method], set) + name)) {
        return;
    }
    int ng = set ? 2 : 1, quad = set + (method > 1 ? 1 : 0);
    auto lib = cp::library(ng);
    lib[3].sc[0][0] = 0.02;
    auto core = s.xml() + ci::lib_tag(lib, "lib.xsl");
    // regions with a source of their own
    int n = 0;
    for (size_t g = 0; g < s.groups.size(); g++) {
        for (auto &p : s.pin[g]) {
            n += method < 2 ? s.groups[g] : p.sx ? (int)p.mats.size() : 12;
        }
    }
    auto run = [&](const Vec &q) {
        c.steps(1);
        return er::apart(c, [&](er::Results &r) {
            {
                unlink("src.h5");
                H5Node f("src.h5", H5Access::WRITE);
                f.write("source", q, VecI{ng, n});
            }
            ci::Doc doc("<mocc>" + core + "<solver type=\"fixed_source\" max_iter=\"20000\" flux_tol=\"1e-12\"><source scattering=\"P0\" file=\"src.h5\"/>" + sweeper(method, quad, 1, false, false) + "</solver></mocc>");
            CoreMesh mesh(doc.root());
            FixedSourceSolver f(doc.root().child("solver"), mesh);
            f.solve();
            r["flux"] = er::dump(f.sweeper()->flux());
        });
    };
    Vec all(n * ng), total;
    for (int i = 0; i < n * ng; i++) {
        all[i] = 1 + i % 3;
    }
    auto whole = run(all);
    if (whole.count("died")) {
        return;
    }
    total.assign(whole["flux"].size(), 0.0);
    std::vector<Vec> part;
    int np = std::min(n * ng, 6); // sources in turn in this many sets of regions
    for (int k = 0; k < np; k++) {
        Vec q(n * ng, 0.0);
        for (int i = k; i < n * ng; i += np) {
            q[i] = all[i];
        }
        auto r = run(q);
        if (r.count("died")) {
            return;
        }
        if (std::count(r["flux"].begin(), r["flux"].end(), 0.0)) {
            return; // negative fluxes were set to zero
        }
        for (size_t i = 0; i < total.size(); i++) {
            total[i] += r["flux"][i];
        }
    }
    c.state("usable " + name);
    double big = *std::max_element(total.begin(), total.end());
    for (size_t i = 0; i < total.size(); i++) {
        if (!c.expect_eq(whole["flux"][i], total[i], 1e-8 * big, fmt("flux %d of all the sources", (int)i))) {
            return;
        }
    }
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N09",
                     {{"turns", turns, 60, "cores mirrored in x, y and z, and turned: all 15 images, by six methods"},
                      {"unfoldings", unfoldings, 60, "cores unfolded at each set of reflecting faces, by four methods"},
                      {"scales", scales, 60, "lengths times a power of two, cross sections divided by it, by six methods"},
                      {"parts", parts, 60, "energy groups in equal parts, by four methods"},
                      {"sums", sums, 60, "external sources one after another and together, by three methods"}});
}
