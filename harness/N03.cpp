// N03: Sn sweeps conserve neutrons, and their fluxes and currents are those
// of the differencing scheme.
#include <omp.h>
#include "isolated.hpp"
#include "box.hpp"
#include "core/angular_quadrature.hpp"
#include "core/boundary_condition.hpp"
#include "core/coarse_data.hpp"
#include "core/core_mesh.hpp"
#include "core/source.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "sweepers/transport_sweeper_factory.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static const double PI_ = 3.14159265358979323846;

enum Axial { DD, SC, FW, FF, PMB };
struct Scheme {
    const char *tag;
    bool corrected;
    Axial axial;
};
static const Scheme SCHEMES[] = {{"equation=\"dd\" axial=\"dd\"", false, DD}, {"equation=\"dd\" axial=\"sc\"", false, SC}, {"equation=\"cdd\" axial=\"dd\"", true, DD}, {"equation=\"cdd\" axial=\"sc\"", true, SC}, {"equation=\"cdd\" axial=\"fw\"", true, FW}, {"equation=\"cdd\" axial=\"dd_ff\"", true, FF}, {"equation=\"cdd\" axial=\"pmb\"", true, PMB}, {"", false, DD}};
static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"6\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"2\"/>"};

struct Case {
    box::Box b;
    int scheme, quad;
    bool gs, currents, factors;
    int inner, outers, start;
};
// factors of the corrected scheme, if not neutral
static double factor(int kind, int cell, int ang, int g)
{
    double x = 0.01 * ((cell * 7 + ang * 3 + g * 5 + kind * 11) % 13);
    return kind == 2 ? 0.95 + x : 0.44 + x;
}
static void check(Ctx &c, const Case &k)
{
    auto &b   = k.b;
    auto &sch = SCHEMES[k.scheme];
    auto lib  = cp::library(b.ng);
    int ng = b.ng, nx = b.nx, ny = b.ny, nz = b.nz(), n = b.n(), np = nx * ny;
    ci::Doc doc("<mocc>" + b.xml() + ci::lib_tag(lib, "lib.xsl") + fmt("<sweeper type=\"sn\" %s n_inner=\"%d\" boundary_update=\"%s\">", sch.tag, k.inner, k.gs ? "gs" : "jacobi") + QUAD[k.quad] + "</sweeper><source scattering=\"P0\"/></mocc>");
    CoreMesh mesh(doc.root());
    UP_Sweeper_t swp;
    std::shared_ptr<CorrectionData> corr;
    if (sch.corrected && k.factors) {
        auto pair = cmdo::SnSweeperFactory_CDD(doc.root().child("sweeper"), mesh);
        swp       = std::move(pair.first);
        corr      = pair.second;
    } else {
        swp = TransportSweeperFactory(doc.root(), mesh);
    }
    auto src = swp->create_source(doc.root().child("source"));
    swp->assign_source(src.get());
    CoarseData coarse(mesh, ng);
    if (k.currents) {
        swp->set_coarse_data(&coarse);
    }
    swp->initialize();
    AngularQuadrature quad(doc.root().child("sweeper").child("ang_quad"));
    bool flat = nz == 1 && !((b.bc | b.incoming) >> 4 & 3);
    int na    = quad.ndir() / (flat ? 2 : 1), half = quad.ndir() / 2;
    if (corr) {
        for (int g = 0; g < ng; g++) {
            for (int a = 0; a < half; a++) {
                for (int i = 0; i < np * (int)b.groups.size(); i++) {
                    corr->alpha(i, a, g, Normal::X_NORM) = factor(0, i, a, g);
                    corr->alpha(i, a, g, Normal::Y_NORM) = factor(1, i, a, g);
                    corr->beta(i, a, g)                  = factor(2, i, a, g);
                }
            }
        }
    }
    if (!c.expect_int(swp->n_reg(), n, "cells")) {
        return;
    }
    std::vector<std::vector<double>> flux(n, std::vector<double>(ng, 1.0));
    auto &got = const_cast<ArrayB2 &>(swp->flux());
    for (int i = 0; k.start && i < n; i++) {
        for (int g = 0; g < ng; g++) {
            flux[i][g] = got(i, g) = 0.3 * ((i * 3 + g * 2) % 7) + (i == 0 ? 9.0 : 0.0);
        }
    }
    BC_Size_t size = {{ny * nz, nx * nz, nx * ny}};
    BoundaryCondition in(ng, quad, mesh.boundary(), size), out(1, quad, mesh.boundary(), size);
    in.initialize_scalar(1.0 / (4 * PI_));
    out.initialize_scalar(0.0);
    for (int o = 0; o < k.outers; o++) {
        double keff = o ? 0.8 : 1.1;
        std::vector<double> fs(n, 0.0);
        ArrayB1 fsa(n);
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                fs[i] += lib[b.at(i)].nf[g] * flux[i][g] / keff;
            }
        }
        swp->calc_fission_source(keff, fsa);
        swp->store_old_flux();
        for (int g = 0; g < ng; g++) {
            std::string at = fmt("sweep %d, group %d: ", o + 1, g);
            src->initialize_group(g);
            src->fission(fsa, g);
            src->in_scatter(g);
            swp->sweep(g);
            // the same by hand
            std::vector<double> q(n), phi(n);
            std::vector<double> J(mesh.n_surf()), S(mesh.n_surf());
            for (int inner = 0; inner < k.inner; inner++) {
                std::fill(J.begin(), J.end(), 0.0);
                std::fill(S.begin(), S.end(), 0.0);
                for (int i = 0; i < n; i++) {
                    auto &m = lib[b.at(i)];
                    q[i]    = m.chi[g] * fs[i];
                    for (int f = 0; f < ng; f++) {
                        q[i] += m.sc[g][f] * (f == g && inner ? phi[i] : flux[i][f]);
                    }
                }
                std::fill(phi.begin(), phi.end(), 0.0);
                for (int a = 0; a < na; a++) {
                    auto ang = quad[a];
                    double w = ang.weight * PI_ / (flat ? 1 : 2);
                    std::vector<double> fx(ny * nz), fy(nx * nz), fz(nx * ny);
                    auto load = [&](std::vector<double> &v, Normal nm) {
                        auto f = in.get_face(g, a, nm);
                        for (size_t i = 0; i < v.size(); i++) {
                            v[i] = f.second[i];
                        }
                    };
                    load(fx, Normal::X_NORM);
                    load(fy, Normal::Y_NORM);
                    load(fz, Normal::Z_NORM);
                    auto score = [&](int cell, Surface s, double psi, double om) {
                        int f = mesh.coarse_surf(cell, s);
                        J[f] += w * om * psi;
                        S[f] += w * psi;
                    };
                    double ux = std::abs(ang.ox) / b.pitch, uy = std::abs(ang.oy) / b.pitch;
                    for (int zz = 0; zz < nz; zz++) {
                        int z     = ang.oz > 0 ? zz : nz - 1 - zz;
                        double uz = flat ? 0.0 : std::abs(ang.oz) / b.hz[z];
                        for (int yy = 0; yy < ny; yy++) {
                            int y = ang.oy > 0 ? yy : ny - 1 - yy;
                            for (int xx = 0; xx < nx; xx++) {
                                int x = ang.ox > 0 ? xx : nx - 1 - xx;
                                int i = z * np + y * nx + x;
                                double &px = fx[ny * z + y], &py = fy[nx * z + x], &pz = fz[nx * y + x];
                                if (xx == 0) {
                                    score(i, ang.ox > 0 ? Surface::WEST : Surface::EAST, px, ang.ox);
                                }
                                if (yy == 0) {
                                    score(i, ang.oy > 0 ? Surface::SOUTH : Surface::NORTH, py, ang.oy);
                                }
                                if (zz == 0 && !flat) {
                                    score(i, ang.oz > 0 ? Surface::BOTTOM : Surface::TOP, pz, ang.oz);
                                }
                                double t = lib[b.at(i)].tr(g), s = q[i] / (4 * PI_);
                                int ci = b.group_of(z) * np + i % np;
                                double gx = 0.5, gy = 0.5;
                                if (corr && (sch.axial != PMB || flat)) {
                                    double be = factor(2, ci, a % half, g);
                                    gx        = factor(0, ci, a % half, g) * be;
                                    gy        = factor(1, ci, a % half, g) * be;
                                }
                                // downwind: psi/gx - px and so on; axially
                                // A psi + B pz + C
                                double A = 0, B = 0, C = 0;
                                if (!flat) {
                                    switch (sch.axial) {
                                    case DD:
                                    case FF:
                                        A = 2;
                                        B = -1;
                                        break;
                                    case FW:
                                        A = 1;
                                        break;
                                    case SC: {
                                        double tau = t / uz, rho = 1 / tau - 1 / std::expm1(tau);
                                        A = 1 / (1 - rho);
                                        B = -rho / (1 - rho);
                                        break;
                                    }
                                    case PMB:
                                        A = 2 * uz / (2 * uz + t);
                                        C = s / (2 * uz + t);
                                        break;
                                    }
                                }
                                auto cell = [&]() { return (s + 2 * ux * px + 2 * uy * py + uz * (pz - B * pz - C)) / (ux / gx + uy / gy + uz * A + t); };
                                double psi = cell();
                                if (sch.axial == FF && !flat && A * psi + B * pz + C < 0) {
                                    A = B = C = 0;
                                    psi       = cell();
                                }
                                phi[i] += w * psi;
                                px = psi / gx - px;
                                py = psi / gy - py;
                                score(i, ang.ox > 0 ? Surface::EAST : Surface::WEST, px, ang.ox);
                                score(i, ang.oy > 0 ? Surface::NORTH : Surface::SOUTH, py, ang.oy);
                                if (!flat) {
                                    pz = A * psi + B * pz + C;
                                    score(i, ang.oz > 0 ? Surface::TOP : Surface::BOTTOM, pz, ang.oz);
                                }
                            }
                        }
                    }
                    auto store = [&](std::vector<double> &v, Normal nm) {
                        auto f = out.get_face(0, a, nm);
                        for (size_t i = 0; i < v.size(); i++) {
                            f.second[i] = v[i];
                        }
                    };
                    store(fx, Normal::X_NORM);
                    store(fy, Normal::Y_NORM);
                    store(fz, Normal::Z_NORM);
                    if (k.gs) {
                        in.update(g, a, out);
                    }
                }
                if (!k.gs) {
                    in.update(g, out);
                }
            }
            bool clipped = false;
            double scale = 1.0;
            for (int i = 0; i < n; i++) {
                clipped    = clipped || phi[i] < 0;
                flux[i][g] = std::max(0.0, phi[i]);
                scale      = std::max(scale, std::abs(phi[i]));
            }
            // the step scheme of the corrected sweeper takes exponentials from a table
            double tol = 1e-10 * scale;
            for (int i = 0; i < n; i++) {
                if (!c.expect_eq(got(i, g), flux[i][g], tol, at + fmt("flux of cell %d", i))) {
                    return;
                }
            }
            if (!k.currents) {
                continue;
            }
            for (int f = 0; f < (int)mesh.n_surf(); f++) {
                if (flat && mesh.surface_normal(f) == Normal::Z_NORM) {
                    continue;
                }
                if (!c.expect_eq(coarse.current(f, g), J[f], tol, at + fmt("current through face %d", f)) || !c.expect_eq(coarse.surface_flux(f, g), S[f], tol, at + fmt("flux on face %d", f))) {
                    return;
                }
            }
            c.expect(coarse.has_radial_data(), at + "radial currents not marked as present");
            c.expect(coarse.has_axial_data() == !flat, at + "axial currents wrongly marked");
            for (int i = 0; i < n && !clipped; i++) {
                auto cur    = [&](Surface s) { return coarse.current(mesh.coarse_surf(i, s), g); };
                double h    = b.hz[i / np];
                double leak = b.pitch * h * (cur(Surface::EAST) - cur(Surface::WEST) + cur(Surface::NORTH) - cur(Surface::SOUTH));
                if (!flat) {
                    leak += b.pitch * b.pitch * (cur(Surface::TOP) - cur(Surface::BOTTOM));
                }
                c.expect_eq(leak + lib[b.at(i)].tr(g) * got(i, g) * b.vol(i), q[i] * b.vol(i), 1e-10 * scale, at + fmt("balance of cell %d", i));
            }
            // what follows starts from the same numbers
            for (int i = 0; i < n; i++) {
                flux[i][g] = got(i, g);
            }
        }
    }
}
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {1, 1, 1}, {2, 1}, {1, 2}, {3}, {2, 2}, {1, 3, 1, 2}, {1, 1, 1, 1, 1, 1, 1, 1, 1}};
static box::Box make(int ng, int nx, int ny, int groups, int pat, double pitch)
{
    static const double HZ[] = {0.5, 1.4, 0.8, 2.9, 1.1, 0.7, 1.9, 0.6, 1.2};
    box::Box b;
    b.ng     = ng;
    b.nx     = nx;
    b.ny     = ny;
    b.pitch  = pitch;
    b.groups = GROUPS[groups];
    int z    = 0;
    for (size_t g = 0; g < b.groups.size(); g++) {
        b.mat.push_back({});
        for (int i = 0; i < nx * ny; i++) {
            b.mat.back().push_back(((pat >> (i % 5)) + i + 3 * (int)g) & 3);
        }
        for (int p = 0; p < b.groups[g]; p++) {
            b.hz.push_back(HZ[z++] * pitch);
        }
    }
    return b;
}
// all meshes
static void meshes(Ctx &c)
{
    int nx = 1 + c.choose(3), ny = 1 + c.choose(3), gr = c.choose(8);
    int scheme = c.choose(8);
    int pat    = c.choose(c.thorough() ? 32 : 4);
    int ng     = 1 + c.choose(2);
    int bc     = c.pick(std::vector<int>{0x0a, 0x25});
    double pitch = c.pick(std::vector<double>{0.9, 3.5});
    if (!c.leaf(fmt("%d by %d, planes %d, %s, pattern %d, %d groups, boundary %d, pitch %g", nx, ny, gr, SCHEMES[scheme].tag, pat, ng, bc, pitch))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(ng, nx, ny, gr, pat, pitch), scheme, 0, true, true, true, 1, 2, 0};
        k.b.bc = bc;
        check(c, k);
    });
}
// all boundaries, ways to iterate, quadratures
static void options(Ctx &c)
{
    int shape    = c.choose(4);
    int bc       = c.choose(64);
    int scheme   = c.choose(c.thorough() ? 8 : 7);
    int gs       = c.choose(2);
    int quad     = c.choose(3);
    int inner    = 1 + c.choose(2);
    int variant  = c.choose(c.thorough() ? 8 : 2); // currents, factors, flux to start from
    if (!c.thorough()) {
        variant = variant ? 7 : (bc & 1 ? 4 : 1);
    }
    if (!c.leaf(fmt("shape %d, boundary %d, %s, %s, quadrature %d, %d inner, variant %d", shape, bc, SCHEMES[scheme].tag, gs ? "gs" : "jacobi", quad, inner, variant))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        static const int NX[] = {2, 1, 2, 3}, NY[] = {1, 2, 2, 1}, G[] = {0, 0, 1, 4};
        Case k{make(2, NX[shape], NY[shape], G[shape], 9, 1.7), scheme, quad, (bool)gs, (bool)(variant & 1), (bool)(variant & 2), inner, 2, variant >> 2 & 1};
        k.b.bc = bc;
        check(c, k);
    });
}
// neutrons that come in from outside
static void incoming(Ctx &c)
{
    static const int NX[] = {2, 1, 2, 3}, NY[] = {1, 2, 2, 1}, G[] = {0, 0, 1, 4};
    int shape = c.choose(4), in = 0, vac = 0;
    for (int i = 0; i < 6; i++) {
        if (i == 4 && G[shape] == 0) {
            break;
        }
        int kind = c.choose(3);
        in |= (kind == 2) << i;
        vac |= (kind == 1) << i;
    }
    int scheme = c.pick(std::vector<int>{0, 1, 2});
    int gs     = c.choose(2);
    if (!in || !c.leaf(fmt("shape %d, prescribed %d, vacuum %d, %s, %s", shape, in, vac, SCHEMES[scheme].tag, gs ? "gs" : "jacobi"))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(2, NX[shape], NY[shape], G[shape], 9, 1.7), scheme, 0, (bool)gs, true, true, 1, 2, 0};
        k.b.bc       = vac;
        k.b.incoming = in;
        check(c, k);
    });
}
// more cells, planes and groups than the others
static void large(Ctx &c)
{
    static const int NX[] = {5, 1, 4, 7}, NY[] = {4, 6, 5, 2};
    int shape  = c.choose(4), gr = c.pick(std::vector<int>{0, 8});
    int scheme = c.choose(8);
    int ng     = c.pick(std::vector<int>{3, 7});
    int quad   = 1 + c.choose(2);
    int bc     = c.pick(std::vector<int>{0x0a, 0x25});
    int gs     = c.choose(2);
    if (!c.leaf(fmt("%d by %d, planes %d, %s, %d groups, quadrature %d, boundary %d, %s", NX[shape], NY[shape], gr, SCHEMES[scheme].tag, ng, quad, bc, gs ? "gs" : "jacobi"))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(ng, NX[shape], NY[shape], gr, 9, 1.3), scheme, quad, (bool)gs, true, true, 2, 2, 0};
        k.b.bc = bc;
        check(c, k);
    });
}
// many iterations and many planes
static void lengthy(Ctx &c)
{
    int shape  = c.choose(3), gr = c.pick(std::vector<int>{0, 4, 9});
    int scheme = c.choose(8);
    int inner  = c.pick(std::vector<int>{1, 3, 5, 9});
    int outers = c.pick(std::vector<int>{1, 3, 8});
    int gs     = c.choose(2);
    if (!c.leaf(fmt("shape %d, planes %d, %s, %d inner, %d sweeps, %s", shape, gr, SCHEMES[scheme].tag, inner, outers, gs ? "gs" : "jacobi"))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(2, 1 + (shape != 1), 1 + (shape != 0), gr, 9, 1.3), scheme, 0, (bool)gs, true, true, inner, outers, 0};
        k.b.bc = 0x2a;
        check(c, k);
    });
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N03",
                     {{"meshes", meshes, 120, "all meshes up to 3x3 with 8 groupings of planes, all schemes, material patterns, two sweeps each, against the scheme by definition"},
                      {"large", large, 300, "4 meshes of up to 20 cells in up to 7 planes, 3 and 7 groups, all schemes"},
                      {"incoming", incoming, 120, "all boundaries with at least one prescribed face, three schemes, both update modes"},
                      {"lengthy", lengthy, 120, "up to 9 inner iterations and 8 sweeps, up to 9 planes of their own, all schemes"},
                      {"options", options, 120, "all 64 boundaries, all schemes, update modes, quadratures, inner iterations, with and without currents and correction factors"}});
}
