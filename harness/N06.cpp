// N06: the coupled 2D3D solution of axially uniform problems is the plain MoC
// solution.
#include <omp.h>
#include "eigen_run.hpp"
#include "box.hpp"
#include "core/globals.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using er::Vec;

static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"2\"/>"};
static const std::vector<cp::PinDef> PIN = {{0, {0, 1, 1}}, {1, {0, 1}}, {1, {1, 1}}, {0, {3, 2, 1}}};
static const int NX[] = {1, 2, 1, 2, 1}, NY[] = {1, 1, 2, 2, 1}, AX[] = {1, 1, 1, 1, 2}, AY[] = {1, 1, 1, 1, 1};
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {2, 1}, {1, 2}};
static const std::vector<double> HZ = {0.5, 0.9, 1.6};
// ways to couple; the first is the default
static const char *const COUPLING[] = {"", "sn_project=\"t\" expose_sn=\"t\"", "moc_project=\"t\"", "cycle=\"v\"", "relax=\"0.5\"", "moc_modulo=\"2\"", "inactive_moc=\"2\"", "tl=\"f\"", "sn_project=\"t\" moc_project=\"t\" cycle=\"saw\""};
static const char *const AXIAL[] = {"dd", "sc", "dd_ff", "fw"};

static cp::Problem problem(int ng, int shape, int groups, const std::vector<int> &pins, int bits)
{
    cp::Problem p;
    p.ng = ng;
    p.nx = NX[shape];
    p.ny = NY[shape];
    p.ax = AX[shape];
    p.ay = AY[shape];
    p.groups = GROUPS[groups];
    int nz = 0;
    for (size_t m = 0; m < p.groups.size(); m++) {
        nz += p.groups[m];
        std::vector<cp::PinDef> v;
        for (int i = 0; i < cp::n_pin(p); i++) {
            v.push_back(PIN[pins[i]]);
        }
        p.pins.push_back(v);
    }
    p.hz.assign(HZ.begin(), HZ.begin() + nz);
    cp::finish(p);
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    auto b = [&](int i) { return bits >> i & 1 ? "vacuum" : "reflect"; };
    p.xml.replace(p.xml.find(old), old.size(), ci::bcs(b(0), b(1), b(2), b(3), "reflect", "reflect"));
    return p;
}
static std::string solver(const std::string &sweeper)
{
    return "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-8\" max_iter=\"600\" cmfd=\"t\">" + sweeper + "<source scattering=\"P0\"/><cmfd k_tol=\"1e-10\" psi_tol=\"1e-9\" residual_reduction=\"1e-4\" max_iter=\"50\"/></solver>";
}
static Vec read(const H5Node &h, const std::string &name)
{
    ArrayB1 a;
    h.read_1d(name, a);
    return Vec(a.begin(), a.end());
}
static er::Results run(Ctx &c, const std::string &core, const std::string &slv, bool coupled, int ng)
{
    return er::apart(c, [&](er::Results &r) {
        ci::Doc doc("<mocc>" + core + slv + "</mocc>");
        CoreMesh mesh(doc.root());
        EigenSolver s(doc.root().child("solver"), mesh);
        s.solve();
        {
            H5Node out("run.h5", H5Access::WRITE);
            s.output(out);
        }
        H5Node in("run.h5", H5Access::READ);
        r["k"] = read(in, "convergence/k");
        r["raw"] = er::dump(s.sweeper()->flux());
        r["moc"] = er::scaled(r["raw"]);
        r["pin"] = er::scaled(er::dump(s.sweeper()->get_pin_flux()));
        if (coupled) {
            for (int g = 0; g < ng; g++) {
                r[fmt("tl%d", g)] = read(in, fmt("transverse_leakage/%03d", g));
                r[fmt("sn%d", g)] = read(in, fmt("Sn/flux/%03d", g + 1));
                r[fmt("mocfile%d", g)] = read(in, fmt("MoC/flux/%03d", g + 1));
                r[fmt("resid%d", g)] = read(in, fmt("SnResid/%03d", g));
            }
        }
    });
}
static bool close(Ctx &c, const Vec &got, const Vec &want, double tol, const std::string &what)
{
    if (!c.expect_int(got.size(), want.size(), what + ": number of values")) {
        return false;
    }
    double scale = 0;
    for (double x : want) {
        scale = std::max(scale, std::abs(x));
    }
    for (size_t i = 0; i < want.size(); i++) {
        if (!(std::abs(got[i] - want[i]) <= tol * scale)) {
            c.fail(what + fmt(" %d: got %.12g, expected %.12g", (int)i, got[i], want[i]));
            return false;
        }
    }
    return true;
}
static void judge(Ctx &c, int ng, int shape, int gr, const std::vector<int> &pins, int bc, int quad, double spacing, int inner, int coupling, int axial)
{
    auto p1 = problem(ng, shape, 0, pins, bc);
    auto p  = problem(ng, shape, gr, pins, bc);
    std::string lib = ci::lib_tag(cp::library(ng), "lib.xsl");
    std::string moc_in = QUAD[quad] + fmt("<rays spacing=\"%g\"/>", spacing);
    auto a = run(c, p1.xml + lib, solver(fmt("<sweeper type=\"moc\" n_inner=\"%d\" boundary_update=\"gs\">", 10) + moc_in + "</sweeper>"), false, ng);
    auto b = run(c, p.xml + lib,
                 solver(fmt("<sweeper type=\"2d3d\" %s>", COUPLING[coupling]) + QUAD[quad] + fmt("<moc_sweeper type=\"moc_2d3d\" n_inner=\"%d\" boundary_update=\"gs\">", inner) + moc_in + "</moc_sweeper>" +
                        fmt("<sn_sweeper type=\"sn\" equation=\"cdd\" axial=\"%s\" n_inner=\"%d\" boundary_update=\"gs\">", AXIAL[axial], inner) + QUAD[quad] + "</sn_sweeper></sweeper>"),
                 true, ng);
    if (a.count("died") || b.count("died")) {
        return;
    }
    c.expect_eq(b["k"].back(), a["k"].back(), 1e-6, "k");
    // the fluxes of every plane are those of the single plane
    int nm = p.groups.size(), nz = p.hz.size();
    int nr = a["moc"].size(), np = a["pin"].size();
    for (int m = 0; m < nm; m++) {
        Vec v(b["moc"].begin() + m * nr, b["moc"].begin() + (m + 1) * nr);
        for (double &x : v) {
            x *= nm;
        }
        close(c, v, a["moc"], 1e-5, fmt("fine flux of plane group %d,", m));
    }
    for (int z = 0; z < nz; z++) {
        Vec v(b["pin"].begin() + z * np, b["pin"].begin() + (z + 1) * np);
        for (double &x : v) {
            x *= nz;
        }
        close(c, v, a["pin"], 1e-5, fmt("pin flux of plane %d,", z));
    }
    for (int g = 0; g < ng; g++) {
        auto sn = b[fmt("sn%d", g)], mo = b[fmt("mocfile%d", g)];
        close(c, sn, mo, 1e-5, fmt("coarse flux in group %d,", g));
        c.expect_eq(b[fmt("resid%d", g)].back(), 0.0, 1e-4, fmt("recorded difference of coarse and fine fluxes in group %d", g));
        for (double x : b[fmt("tl%d", g)]) {
            c.expect_eq(x, 0.0, 1e-6, fmt("axial leakage in group %d", g));
        }
    }
}
static void cores(Ctx &c)
{
    int shape = c.choose(c.thorough() ? 5 : 4);
    int np    = NX[shape] * NY[shape] * AX[shape] * AY[shape];
    std::vector<int> pins;
    std::string name;
    for (int i = 0; i < np; i++) {
        pins.push_back(i == 0 ? c.choose(2) : c.choose(np == 2 ? 4 : 2) + (np == 2 ? 0 : 1 + i % 2));
        name += fmt(" %d", pins.back());
    }
    int bc = c.pick(c.thorough() ? std::vector<int>{0, 1, 4, 5, 6, 9, 10, 15} : std::vector<int>{0, 5, 10});
    int gr = c.choose(5), set = c.choose(2);
    if (!c.leaf(fmt("shape %d, pins%s, boundary %d, planes %d, set %d", shape, name.c_str(), bc, gr, set))) {
        return;
    }
    // without leakage the planes only settle when the fluxes are projected
    judge(c, set ? 2 : 1, shape, gr, pins, bc, set, set ? 0.05 : 0.1, bc ? 6 : 15, bc ? 0 : 1, 0);
}
// radially uniform and reflected: what is left is the axial problem of Sn
static void axial_runs(Ctx &c)
{
    int nz = 1 + c.choose(3), ng = 1 + c.choose(2), axial = c.choose(2), shape = c.thorough() ? c.choose(2) : nz % 2, quad = c.choose(c.thorough() ? 3 : 2);
    int ends = c.choose(4); // bottom, top
    std::vector<int> mats, groups;
    std::string name;
    for (int left = nz; left > 0; left -= groups.back()) {
        groups.push_back(1 + c.choose(left));
        mats.push_back(c.pick(std::vector<int>{0, 1, 3}));
        name += fmt(" %dx%d", groups.back(), mats.back());
    }
    if (std::count(mats.begin(), mats.end(), 0) + std::count(mats.begin(), mats.end(), 3) == 0) {
        return;
    }
    // plain coupling settles for the easier ones
    bool easy  = ends && !std::count(mats.begin(), mats.end(), 1) && (int)mats.size() == nz;
    int coup   = easy ? c.pick(nz == 1 ? std::vector<int>{0, 1, 4} : std::vector<int>{0, 1}) : 1;
    bool split = (c.thorough() || coup != 1) && c.choose(2);
    if (!c.leaf(fmt("materials%s, %d groups, axial %s, shape %d, quadrature %d, ends %d, coupling %s%s", name.c_str(), ng, AXIAL[axial], shape, quad, ends, COUPLING[coup], split ? ", splitting" : ""))) {
        return;
    }
    cp::Problem p;
    p.ng = ng;
    p.nx = NX[shape];
    p.ny = NY[shape];
    p.ax = p.ay = 1;
    p.groups = groups;
    for (int m : mats) {
        p.pins.push_back(std::vector<cp::PinDef>(cp::n_pin(p), cp::PinDef{1, {m, m}}));
    }
    p.hz = {1.7, 1.2, 2.1};
    p.hz.resize(nz);
    cp::finish(p);
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    p.xml.replace(p.xml.find(old), old.size(), ci::bcs("reflect", "reflect", "reflect", "reflect", ends & 1 ? "vacuum" : "reflect", ends & 2 ? "vacuum" : "reflect"));
    std::string core = p.xml + ci::lib_tag(cp::library(ng), "lib.xsl");
    std::string sn   = QUAD[quad];
    auto a = run(c, core, solver(fmt("<sweeper type=\"sn\" equation=\"dd\" axial=\"%s\" n_inner=\"15\" boundary_update=\"gs\">", AXIAL[axial]) + QUAD[quad] + "</sweeper>"), false, ng);
    auto b = run(c, core,
                 solver(fmt("<sweeper type=\"2d3d\" %s>", COUPLING[coup]) + QUAD[quad] + fmt("<moc_sweeper type=\"moc_2d3d\" n_inner=\"15\" tl_splitting=\"%s\" boundary_update=\"gs\">", split ? "t" : "f") + QUAD[quad] + "<rays spacing=\"0.3\"/></moc_sweeper>" +
                        fmt("<sn_sweeper type=\"sn\" equation=\"cdd\" axial=\"%s\" n_inner=\"15\" boundary_update=\"gs\">", AXIAL[axial]) + QUAD[quad] + "</sn_sweeper></sweeper>"),
                 true, ng);
    if (a.count("died") || b.count("died")) {
        return;
    }
    c.expect_eq(b["k"].back(), a["k"].back(), 5e-6, "k");
    close(c, b["pin"], a["pin"], 1e-5, "pin flux");
    // the leakage balances the planes
    auto lib = cp::library(ng);
    auto &raw = b["raw"];
    int nm = groups.size(), nr = raw.size() / ng / nm;
    for (int m = 0; m < nm; m++) {
        auto &x = lib[mats[m]];
        double fis = 0;
        for (int g = 0; g < ng; g++) {
            fis += x.nf[g] * raw[m * nr * ng + g] / b["k"].back();
        }
        for (int g = 0; g < ng; g++) {
            double q = x.tr(g) * raw[m * nr * ng + g] - x.chi[g] * fis;
            for (int f = 0; f < ng; f++) {
                q -= x.sc[g][f] * raw[m * nr * ng + f];
            }
            auto &tl = b[fmt("tl%d", g)];
            for (size_t i = 0; i < tl.size() / nm; i++) {
                c.expect_eq(tl[m * (tl.size() / nm) + i], q, 1e-5, fmt("axial leakage of plane group %d in group %d", m, g));
            }
        }
    }
    // averages over the plane groups, which is what the fine fluxes are
    int np = cp::n_pin(p);
    for (int g = 0; g < ng; g++) {
        Vec v[2];
        for (int w = 0; w < 2; w++) {
            auto &f = b[fmt(w ? "mocfile%d" : "sn%d", g)];
            for (size_t m = 0, z = 0; m < groups.size(); z += groups[m++]) {
                for (int i = 0; i < np; i++) {
                    double s = 0, h = 0;
                    for (size_t k = z; k < z + groups[m]; k++) {
                        s += f[k * np + i] * p.hz[k];
                        h += p.hz[k];
                    }
                    v[w].push_back(s / h);
                }
            }
        }
        close(c, er::scaled(v[0]), er::scaled(v[1]), 1e-5, fmt("coarse flux in group %d,", g));
    }
}
static void options(Ctx &c)
{
    int coupling = c.choose(9), axial = c.choose(4), gr = c.pick(std::vector<int>{0, 3}), quad = c.choose(3), inner = c.pick(std::vector<int>{6, 10}), bc = c.pick(std::vector<int>{0, 5, 10});
    if (!c.leaf(fmt("coupling %s, axial %s, planes %d, quadrature %d, %d inner, boundary %d", COUPLING[coupling], AXIAL[axial], gr, quad, inner, bc))) {
        return;
    }
    judge(c, 2, 1, gr, {1, 3}, bc, quad, 0.05, inner, coupling, axial);
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    mocc::global::case_name = "n06";
    return ::mc::run(argc, argv, "N06",
                     {{"cores", cores, 60, "all cores of up to 4 pins over pin patterns, radial boundaries, plane groupings, groups"}, {"axial", axial_runs, 60, "radially uniform cores of up to 3 planes over materials, ends, axial schemes, quadratures"}, {"options", options, 60, "coupling options x axial schemes x groupings x quadratures x inner iterations x boundaries"}});
}
