// N10: what converged runs report balances neutrons in every cell.
#include <omp.h>
#include "core_problem.hpp"
#include "eigen_run.hpp"
#include "shape.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using er::Vec;
using sh::Fuel;
using sh::Shape;

static const double PI_ = 3.14159265358979323846;
static const char *const SURF[] = {"west", "east", "south", "north", "bottom", "top"};
static const std::vector<const char *> SURF_ALL(SURF, SURF + 6), SURF_NONE;
static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"1\"/>", "<ang_quad type=\"cy\" n_azimuthal=\"2\" n_polar=\"3\"/>", "<ang_quad type=\"ls\" order=\"6\"/>"};
static const char *const METHOD[] = {"Sn", "Sn, step characteristics", "MoC", "MoC, pin-modular rays"};
static bool moc(int method)
{
    return method == 2 || method == 3;
}
static std::string sweeper(int method, int quad, bool jacobi)
{
    std::string q = QUAD[quad], b = fmt(" n_inner=\"15\" boundary_update=\"%s\">", jacobi ? "jacobi" : "gs"), r = fmt("<rays spacing=\"0.2\" modularity=\"%s\"/>", method == 3 ? "pin" : "core");
    switch (method) {
    case 0:
        return "<sweeper type=\"sn\" equation=\"dd\" axial=\"dd\"" + b + q + "</sweeper>";
    case 1:
        return "<sweeper type=\"sn\" equation=\"dd\" axial=\"sc\"" + b + q + "</sweeper>";
    default:
        return "<sweeper type=\"moc\"" + b + q + r + "</sweeper>";
    }
}
// ---- cores ------------------------------------------------------------
static const std::vector<Fuel> PIN = {{0, 0, {0, 1, 1}}, {2, 1, {0, 1}}, {1, 2, {1, 3}}, {2, 2, {1, 0, 1, 1}}, {1, 1, {1}}, {3, 2, {0, 0, 1, 2, 1, 1}}, {0, 0, {3, 2, 1}}};
static const int NX[] = {1, 2, 2, 3, 5, 1, 4}, NY[] = {1, 1, 2, 3, 2, 6, 4};
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2, 1}, {1, 2, 1}, {1, 1, 1, 1, 1, 1}, {3, 3}};
static const double HZ[] = {0.6, 1.3, 0.9, 2.0, 0.7, 1.1};
static const int BC[] = {0, 0x2a, 0x15, 0x26, 0x3f, 0x20, 0x01, 0x08};
static Shape shape(int k, int gr, int fill, int bc, int method)
{
    Shape s;
    bool flat = moc(method);
    s.nx = NX[k];
    s.ny = NY[k];
    s.groups = flat ? std::vector<int>{gr % 3 + 1} : GROUPS[gr];
    int np = s.nx * s.ny, z = 0;
    for (size_t g = 0; g < s.groups.size(); g++) {
        std::vector<Fuel> v;
        for (int i = 0; i < np; i++) {
            v.push_back(PIN[(fill + i * (2 + fill % 2) + g * 3 * (i == 0 || fill > 2)) % PIN.size()]);
        }
        if (v[0].mats == std::vector<int>(v[0].mats.size(), 1)) {
            v[0] = {1, 1, {0}}; // something has to be fissile
        }
        s.pin.push_back(v);
        for (int p = 0; p < s.groups[g]; p++) {
            s.hz.push_back(HZ[z++]);
        }
    }
    s.bc = BC[bc] & (flat ? 15 : 63);
    return s;
}
// regions of a pin: their materials and areas
static std::vector<std::pair<int, double>> regions(const Fuel &p)
{
    std::vector<std::pair<int, double>> r;
    if (p.sx) {
        for (int m : p.mats) {
            r.push_back({m, 1.44 / p.mats.size()});
        }
        return r;
    }
    double a[] = {PI_ * 0.09, PI_ * 0.07, 1.44 - PI_ * 0.16};
    for (int i = 0; i < 12; i++) {
        r.push_back({p.mats[i / 4], a[i / 4] / 4});
    }
    return r;
}
// A run: eigenvalues, fluxes by region and the currents in the file.
static er::Results go(Ctx &c, const std::string &core, const std::string &solver, int ng, bool currents, bool may_fail)
{
    return er::apart(c, [&](er::Results &r) {
        ci::Doc doc("<mocc>" + core + solver + "</mocc>");
        CoreMesh mesh(doc.root());
        EigenSolver s(doc.root().child("solver"), mesh);
        s.solve();
        {
            H5Node out("run.h5", H5Access::WRITE);
            s.output(out);
        }
        H5Node in("run.h5", H5Access::READ);
        in.read("convergence/k", r["k"]);
        r["flux"] = er::dump(s.sweeper()->flux());
        r["pin"]  = er::dump(s.sweeper()->get_pin_flux(MeshTreatment::PIN));
        for (int g = 0; g < ng; g++) {
            ArrayB1 f;
            in.read_1d(fmt("flux/%03d", g + 1), f);
            r[fmt("file%d", g)] = Vec(f.begin(), f.end());
            for (const char *n : currents ? SURF_ALL : SURF_NONE) {
                ArrayB1 a;
                in.read_1d(fmt("current/%d/%s", g + 1, n), a);
                r[fmt("%d%s", g, n)] = Vec(a.begin(), a.end());
            }
        }
    }, may_fail);
}
static void balance(Ctx &c, int method, const Shape &s, int ng, int quad, bool jacobi, bool closed = false)
{
    int limit = closed ? 3000 : 300;
    auto lib  = cp::library(ng);
    auto core = s.xml() + ci::lib_tag(lib, "lib.xsl");
    auto r    = go(c, core, fmt("<solver type=\"eigenvalue\" k_tol=\"1e-10\" psi_tol=\"1e-9\" max_iter=\"%d\" cmfd=\"%s\">", limit, closed ? "f" : "t") + sweeper(method, quad, jacobi) + "<source scattering=\"P0\"/><cmfd dump_current=\"t\" k_tol=\"1e-11\" psi_tol=\"1e-10\" residual_reduction=\"1e-5\" max_iter=\"60\"/></solver>", ng, !closed, !moc(method) && !closed);
    if (r.count("died")) {
        // diamond differences may lead to negative fluxes, and acceleration astray
        c.expect(!r.count("signal"), "the run dies");
        return;
    }
    auto &flux = r["flux"];
    bool converged = (int)r["k"].size() < limit;
    if (moc(method) || closed) {
        c.expect(converged, "not converged");
    }
    if (!converged || (!moc(method) && *std::min_element(flux.begin(), flux.end()) <= 0)) {
        return; // negative fluxes were set to zero
    }
    double k = r["k"].back();
    int np = s.nx * s.ny, nz = s.nz();
    // what happens in each cell: removal, production and transfers, per group
    struct Cell {
        Vec out, in, leak;
        double nf = 0, vol = 0;
    };
    std::vector<Cell> cell(np * nz, {Vec(ng, 0.0), Vec(ng, 0.0), Vec(ng, 0.0)});
    int at = 0, z0 = 0;
    for (size_t g = 0; g < s.groups.size(); g++) {
        double h = 0;
        for (int z = z0; z < z0 + s.groups[g]; z++) {
            h += s.hz[z];
        }
        for (int i = 0; i < np; i++) {
            auto reg = regions(s.pin[g][i]);
            for (int z = z0; z < z0 + s.groups[g]; z++) {
                // one lump of the group of planes for MoC, a cell for Sn
                if (moc(method) && z > z0) {
                    break;
                }
                auto &x   = cell[z * np + i];
                double dz = moc(method) ? h : s.hz[z];
                for (auto &q : reg) {
                    auto &m  = lib[q.first];
                    double v = q.second * dz, nf = 0;
                    const double *f = moc(method) ? &flux[at++ * ng] : nullptr;
                    auto phi        = [&](int e) { return f ? f[e] : r[fmt("file%d", e)][z * np + i]; };
                    for (int e = 0; e < ng; e++) {
                        nf += m.nf[e] * phi(e);
                    }
                    for (int e = 0; e < ng; e++) {
                        x.out[e] += v * m.tr(e) * phi(e);
                        x.in[e] += v * m.chi[e] * nf / k;
                        for (int o = 0; o < ng; o++) {
                            x.in[e] += v * m.sc[e][o] * phi(o);
                        }
                    }
                    x.nf += v * nf;
                }
            }
        }
        z0 += s.groups[g];
    }
    // leakage, lumped like the cells
    z0 = 0;
    for (size_t g = 0; g < s.groups.size() && !closed; g++) {
        for (int z = z0; z < z0 + s.groups[g]; z++) {
            for (int i = 0; i < np; i++) {
                auto &x = cell[(moc(method) ? z0 : z) * np + i];
                for (int e = 0; e < ng; e++) {
                    for (int f = 0; f < 6; f++) {
                        if (f > 3 && moc(method)) {
                            continue;
                        }
                        double area = f < 4 ? 1.2 * s.hz[z] : 1.44;
                        x.leak[e] += (f % 2 ? 1 : -1) * area * r[fmt("%d%s", e, SURF[f])][z * np + i];
                    }
                }
            }
        }
        z0 += s.groups[g];
    }
    // fluxes in the file have a scale of their own
    double scale = 1, want = 0;
    if (!moc(method)) {
        double a = 0, b = 0;
        for (double f : r["pin"]) {
            a += f;
        }
        for (int e = 0; e < ng; e++) {
            for (double f : r[fmt("file%d", e)]) {
                b += f;
            }
        }
        scale = a / b;
    }
    for (auto &x : cell) {
        for (int e = 0; e < ng; e++) {
            want = std::max(want, std::abs(x.in[e] * scale));
        }
    }
    Vec lost(ng, 0.0);
    double made = 0;
    for (size_t i = 0; i < cell.size(); i++) {
        auto &x = cell[i];
        for (int e = 0; e < ng; e++) {
            double d = x.leak[e] + scale * (x.out[e] - x.in[e]);
            if (!closed && !c.expect(std::abs(d) < 1e-6 * want, fmt("cell %d, group %d: %.10g leak, %.10g are removed and %.10g come in", (int)i, e, x.leak[e], scale * x.out[e], scale * x.in[e]))) {
                return;
            }
            lost[e] += d;
        }
        made += scale * x.nf;
    }
    c.expect(made > 0, "no fission");
    for (int e = 0; e < ng; e++) {
        c.expect_eq(lost[e] / made, 0.0, 1e-6, fmt("losses of the core in group %d", e));
    }
    c.state(fmt("k %.6f", k));
}
static void runs(Ctx &c)
{
    int method = c.choose(4), k = c.choose(c.thorough() ? 7 : 5), gr = c.choose(moc(method) ? 3 : c.thorough() ? 6 : 4), fill = c.choose(c.thorough() ? 7 : 4), bc = c.choose(c.thorough() ? 8 : 4), set = c.choose(2);
    auto s = shape(k, gr, fill, bc, method);
    if (!c.leaf(fmt("%s, %dx%d, planes %d, filling %d, boundary %x, set %d", METHOD[method], s.nx, s.ny, gr, fill, s.bc, set))) {
        return;
    }
    balance(c, method, s, set ? 2 : 1, set + (moc(method) ? 1 : 0), (fill + bc) % 2);
}
static void large(Ctx &c)
{
    int method = c.choose(4), k = 3 + c.choose(4), ng = c.pick(std::vector<int>{3, 7}), fill = c.choose(c.thorough() ? 7 : 3), bc = c.choose(c.thorough() ? 7 : 3) + 1;
    int gr = moc(method) ? 2 : 4 + k % 2;
    auto s = shape(k, gr, fill, bc, method);
    if (!c.leaf(fmt("%s, %dx%d, filling %d, boundary %x, %d groups", METHOD[method], s.nx, s.ny, fill, s.bc, ng))) {
        return;
    }
    balance(c, method, s, ng, (k + ng) % 4, fill % 2);
}
static void closed(Ctx &c)
{
    int method = c.choose(4), k = c.choose(c.thorough() ? 7 : 5), gr = c.choose(moc(method) ? 2 : 4), fill = c.choose(c.thorough() ? 7 : 3), ng = c.pick(std::vector<int>{1, 2, 4}), quad = c.choose(2);
    auto s = shape(k, gr, fill, 0, method);
    if (!c.leaf(fmt("%s, %dx%d, planes %d, filling %d, %d groups, quadrature %d", METHOD[method], s.nx, s.ny, gr, fill, ng, quad))) {
        return;
    }
    balance(c, method, s, ng, 1 + quad, (fill + k) % 2, true);
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N10",
                     {{"runs", runs, 60, "cores up to 5x2 pins and 4 planes, 4 fillings and boundaries, by Sn and MoC"},
                      {"large", large, 60, "cores up to 4x4 pins and 6 planes with 3 and 7 groups, by Sn and MoC"},
                      {"closed", closed, 60, "reflected cores of up to 5x2 pins without acceleration, 1, 2 and 4 groups, 2 quadratures"}});
}
