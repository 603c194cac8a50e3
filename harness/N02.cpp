// N02: MoC sweeps conserve neutrons, and their fluxes and currents are those
// of the sweep by definition.
#include "isolated.hpp"
#include "ref_moc.hpp"
#include "sweep_setup.hpp"
#include "core/angular_quadrature.hpp"
#include "sweepers/moc/moc_sweeper.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static const double FOUR_PI = 4 * ref::PI_;

struct Case {
    cp::Problem p;
    std::string sweeper;
    bool gs, currents;
    int inner, outers;
    int start; // flux to start from: one everywhere, or uneven with negative values, or uneven
    // leakage of each plane group and pin: bits say where neutrons leave
    bool leak = false, split = false;
    int out   = 0;
    double slack = 1; // the tabulated exponential is less accurate for thin regions
};
static void check(Ctx &c, const Case &k)
{
    auto &p  = k.p;
    auto lib = cp::library(p.ng);
    int ng   = p.ng;
    ref::Layout lay(p);
    sw::Setup s(p.xml + ci::lib_tag(lib, "lib.xsl"), k.sweeper, k.currents);
    auto node = s.doc.root().child("sweeper");
    AngularQuadrature user(node.child("ang_quad"));
    ref::Moc r(lay, s.mesh, node, user, ng);
    if (!c.expect_int(s.sweeper->n_reg(), lay.n_reg, "regions")) {
        return;
    }
    // sentinels on the faces a sweep has no business with
    auto axial = [&](int f) { return s.mesh.surface_normal(f) == Normal::Z_NORM; };
    if (s.coarse) {
        for (int f = 0; f < (int)s.mesh.n_surf(); f++) {
            for (int g = 0; g < ng; g++) {
                s.coarse->current(f, g)      = 3.0 + f + 100 * g;
                s.coarse->surface_flux(f, g) = 5.0 + f + 100 * g;
            }
        }
    }
    for (int i = 0; k.start && i < lay.n_reg; i++) {
        for (int g = 0; g < ng; g++) {
            r.flux[i][g] = const_cast<ArrayB2 &>(s.sweeper->flux())(i, g) = 0.4 * ((i * 3 + g * 2) % 7 - (k.start == 1 ? 2 : -1));
        }
    }
    for (int o = 0; o < k.outers; o++) {
        std::string at = fmt("sweep %d: ", o + 1);
        double keff    = o ? 0.8 : 1.1;
        // the source, from the fluxes so far
        std::vector<double> fs(lay.n_reg, 0.0);
        for (int i = 0; i < lay.n_reg; i++) {
            for (int g = 0; g < ng; g++) {
                fs[i] += lib[lay.mat[i]].nf[g] * r.flux[i][g] / keff;
            }
        }
        std::vector<int> plane(lay.n_reg, 0);
        for (int i = 0; i < lay.n_reg; i++) {
            while (plane[i] + 1 < lay.nm && lay.first_reg[plane[i] + 1] <= i) {
                plane[i]++;
            }
        }
        auto tl = [&](int i, int g) {
            int n    = plane[i] * lay.n_pin + lay.cell[i];
            double v = 0.04 + 0.01 * ((n * 3 + g * 5) % 4);
            return (k.out >> ((n + g) % 4)) & 1 ? -v * 40 : v;
        };
        s.outer(keff, [&](int g) {
            if (k.leak) {
                ArrayB1 v(lay.n_reg);
                for (int i = 0; i < lay.n_reg; i++) {
                    v(i) = tl(i, g);
                }
                dynamic_cast<::mocc::moc::MoCSweeper &>(*s.sweeper).apply_transverse_leakage(g, v);
            }
        });
        double scale = 0;
        for (int g = 0; g < ng; g++) {
            std::vector<double> t(lay.n_reg), q(lay.n_reg), ext(lay.n_reg);
            for (int i = 0; i < lay.n_reg; i++) {
                auto &m = lib[lay.mat[i]];
                t[i]    = m.tr(g);
                ext[i]  = m.chi[g] * fs[i];
                for (int f = 0; f < ng; f++) {
                    ext[i] += f == g ? 0.0 : m.sc[g][f] * r.flux[i][f];
                }
                if (k.leak) {
                    ext[i] += tl(i, g);
                    if (k.split && ext[i] < 0) {
                        // removed in proportion to the flux instead
                        t[i] += -ext[i] / r.flux[i][g];
                        ext[i] = 0;
                    }
                }
            }
            for (int in = 0; in < k.inner; in++) {
                for (int i = 0; i < lay.n_reg; i++) {
                    q[i] = ext[i] + lib[lay.mat[i]].sc[g][g] * r.flux[i][g];
                }
                r.sweep(g, q, t, k.gs);
            }
            for (int i = 0; i < lay.n_reg; i++) {
                scale = std::max(scale, std::max(std::abs(r.flux[i][g]), std::abs(q[i] / t[i])));
            }
            for (int i = 0; i < lay.n_reg; i++) {
                if (!c.expect_eq(s.sweeper->flux()(i, g), r.flux[i][g], 2e-5 * k.slack * std::max(1.0, scale), at + fmt("flux of region %d, group %d", i, g))) {
                    return;
                }
            }
            if (!s.coarse) {
                continue;
            }
            for (int z = 0; z < lay.nz; z++) {
                int m = lay.group_of[z];
                for (int cl = 0; cl < lay.n_pin; cl++) {
                    int x = cl % lay.nx, y = cl / lay.nx, i = z * lay.n_pin + cl;
                    int fw = s.mesh.coarse_surf(i, Surface::WEST), fe = s.mesh.coarse_surf(i, Surface::EAST), fso = s.mesh.coarse_surf(i, Surface::SOUTH), fn = s.mesh.coarse_surf(i, Surface::NORTH);
                    auto one = [&](int f, double J, double S, double doubt, const char *name) {
                        return doubt || (c.expect_eq(s.coarse->current(f, g), J, 2e-5 * k.slack * std::max(1.0, scale), at + fmt("current through the %s face of cell %d, group %d", name, i, g)) &&
                                         c.expect_eq(s.coarse->surface_flux(f, g), S, 2e-5 * k.slack * std::max(1.0, scale), at + fmt("flux on the %s face of cell %d, group %d", name, i, g)));
                    };
                    bool ok = one(fw, r.J[m].fx(x, y), r.S[m].fx(x, y), r.doubt[m].fx(x, y), "west") &&
                              one(fe, r.J[m].fx(x + 1, y), r.S[m].fx(x + 1, y), r.doubt[m].fx(x + 1, y), "east") &&
                              one(fso, r.J[m].fy(x, y), r.S[m].fy(x, y), r.doubt[m].fy(x, y), "south") &&
                              one(fn, r.J[m].fy(x, y + 1), r.S[m].fy(x, y + 1), r.doubt[m].fy(x, y + 1), "north");
                    if (!ok) {
                        return;
                    }
                    // the balance of the cell, with what the sweep reports;
                    // the source is that of the last inner iteration
                    auto cur    = [&](int f) { return s.coarse->current(f, g); };
                    double leak = 1.2 * (cur(fe) - cur(fw) + cur(fn) - cur(fso));
                    double bal  = leak, size = std::abs(leak);
                    int end     = m + 1 < lay.nm ? lay.first_reg[m + 1] : lay.n_reg;
                    for (int rg = lay.first_reg[m]; rg < end; rg++) {
                        if (lay.cell[rg] == cl) {
                            // only the source of the last group is still at hand
                            double src = g == ng - 1 ? s.source->get_transport(0)[rg] * FOUR_PI * t[rg] : q[rg];
                            bal += (s.sweeper->flux()(rg, g) * t[rg] - src) * lay.area[rg];
                            size += std::abs(src) * lay.area[rg];
                        }
                    }
                    if (!c.expect_eq(bal, 0.0, (g == ng - 1 && !k.leak ? 1e-10 : 2e-5 * k.slack) * std::max(1.0, size), at + fmt("balance of cell %d, group %d", i, g))) {
                        return;
                    }
                }
            }
        }
        if (s.coarse) {
            for (int f = 0; f < (int)s.mesh.n_surf(); f++) {
                for (int g = 0; g < ng && axial(f); g++) {
                    if (!c.expect_eq(s.coarse->current(f, g), 3.0 + f + 100 * g, 0.0, at + fmt("current on axial face %d, group %d", f, g)) || !c.expect_eq(s.coarse->surface_flux(f, g), 5.0 + f + 100 * g, 0.0, at + fmt("flux on axial face %d, group %d", f, g))) {
                        return;
                    }
                }
            }
            c.expect(s.coarse->has_radial_data(), "radial currents not marked as present");
        }
        // what follows starts from the same numbers
        for (int i = 0; i < lay.n_reg; i++) {
            for (int g = 0; g < ng; g++) {
                r.flux[i][g] = s.sweeper->flux()(i, g);
            }
        }
    }
}
static void set_bc(cp::Problem &p, const std::vector<int> &kind)
{
    static const char *const NAME[] = {"reflect", "vacuum", "prescribed"};
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    p.xml.replace(p.xml.find(old), old.size(), ci::bcs(NAME[kind[0]], NAME[kind[1]], NAME[kind[2]], NAME[kind[3]], "reflect", "reflect"));
}
static void set_bc(cp::Problem &p, int bits)
{
    set_bc(p, std::vector<int>{bits & 1, bits >> 1 & 1, bits >> 2 & 1, bits >> 3 & 1});
}
static const std::vector<cp::PinDef> PIN = {{1, {0, 1}}, {0, {0, 1, 1}}, {1, {1, 1}}, {0, {3, 2, 1}}};
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {2, 1}, {1, 2}, {3}, {1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {1, 1, 2, 1, 3}, {3, 1, 1, 4}, {1, 1, 1, 1, 1, 1, 1, 1, 1}};
static const std::vector<double> HZ = {0.5, 0.9, 1.6, 0.7, 1.1, 1.3, 0.6, 2.1, 0.8};
static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"2\"/>"};

static std::string sweeper(int quad, double spacing, bool gs, int inner, bool split = false)
{
    return fmt("<sweeper type=\"moc\" n_inner=\"%d\" boundary_update=\"%s\"%s>", inner, gs ? "gs" : "jacobi", split ? " tl_splitting=\"t\"" : "") + QUAD[quad] + fmt("<rays spacing=\"%g\"/></sweeper>", spacing);
}
static cp::Problem problem(int ng, int shape, int groups, int pat)
{
    static const int NX[] = {1, 2, 1, 2, 3, 1, 5, 4, 2, 1}, NY[] = {1, 1, 2, 2, 1, 1, 1, 3, 2, 6}, AX[] = {1, 1, 1, 1, 1, 2, 1, 1, 3, 1}, AY[] = {1, 1, 1, 1, 1, 2, 1, 1, 2, 1};
    cp::Problem p;
    p.ng = ng;
    p.nx = NX[shape];
    p.ny = NY[shape];
    p.ax = AX[shape];
    p.ay = AY[shape];
    p.groups = GROUPS[groups];
    int nz = 0;
    for (size_t m = 0; m < p.groups.size(); m++) {
        nz += p.groups[m];
        std::vector<cp::PinDef> v;
        for (int i = 0; i < cp::n_pin(p); i++) {
            v.push_back(PIN[(pat >> (2 * ((i + m) % 4))) & 3]);
        }
        p.pins.push_back(v);
    }
    p.hz.assign(HZ.begin(), HZ.begin() + nz);
    cp::finish(p);
    return p;
}
// all shapes and patterns of pins
static void cores(Ctx &c)
{
    int shape  = c.choose(6);
    int groups = c.choose(9);
    int np     = shape == 0 ? 1 : shape < 3 ? 2 : shape == 4 ? 3 : 4;
    int pat    = 0;
    int alpha  = np <= 3 || c.thorough() ? 4 : 3;
    for (int i = 0; i < std::min(np + (groups % 2), 4); i++) {
        pat |= c.choose(alpha) << (2 * i);
    }
    int ng = 1 + c.choose(2);
    if (!c.leaf(fmt("shape %d, planes %d, pins %d, %d groups", shape, groups, pat, ng))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(ng, shape, groups, pat), sweeper(0, 0.35, true, 1), true, true, 1, 2, 0};
        check(c, k);
    });
}
// all boundaries, ways to iterate, quadratures and spacings
static void options(Ctx &c)
{
    int shape    = c.choose(3) + 1;
    int groups   = c.pick(std::vector<int>{0, 4, 7});
    int start    = c.choose(2);
    int bc       = c.choose(16);
    int gs       = c.choose(2);
    int inner    = 1 + c.choose(2);
    int currents = c.choose(2);
    int quad     = c.choose(3);
    double sp    = c.pick(c.thorough() ? std::vector<double>{0.5, 0.2, 0.07} : std::vector<double>{0.4, 0.15});
    if (!c.leaf(fmt("shape %d, planes %d, start %d, boundary %d, %s, %d inner, %s currents, quadrature %d, spacing %g", shape, groups, start, bc, gs ? "gs" : "jacobi", inner, currents ? "with" : "without", quad, sp))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(2, shape, groups, 0x1b), sweeper(quad, sp, gs, inner), (bool)gs, (bool)currents, inner, 3, start};
        set_bc(k.p, bc);
        check(c, k);
    });
}
// sweeps with leakage between the planes
static void leakage(Ctx &c)
{
    int shape  = c.choose(4);
    int groups = c.pick(std::vector<int>{0, 3, 6});
    int split  = c.choose(2);
    int out    = c.choose(16);
    int gs     = c.choose(2);
    int inner  = 1 + c.choose(2);
    int ng     = 1 + c.choose(2);
    if (!c.leaf(fmt("shape %d, planes %d, %s, leakage %d, %s, %d inner, %d groups", shape, groups, split ? "splitting" : "no splitting", out, gs ? "gs" : "jacobi", inner, ng))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(ng, shape, groups, 0x1b), sweeper(0, 0.2, gs, inner, split), (bool)gs, true, inner, 2, 2, true, (bool)split, out};
        check(c, k);
    });
}
// neutrons that come in from outside
static void incoming(Ctx &c)
{
    int shape  = c.choose(3) + 1;
    int groups = c.pick(std::vector<int>{0, 4});
    int gs     = c.choose(2);
    std::vector<int> kind;
    bool any = false;
    for (int i = 0; i < 4; i++) {
        kind.push_back(c.choose(3));
        any = any || kind.back() == 2;
    }
    int quad = 2 * c.choose(2);
    if (!any || !c.leaf(fmt("shape %d, planes %d, %s, boundary %d%d%d%d, quadrature %d", shape, groups, gs ? "gs" : "jacobi", kind[0], kind[1], kind[2], kind[3], quad))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(2, shape, groups, 0x1b), sweeper(quad, 0.2, gs, 2), (bool)gs, true, 2, 3, 0};
        set_bc(k.p, kind);
        check(c, k);
    });
}
// more pins, planes and groups than the others
static void large(Ctx &c)
{
    int shape  = 6 + c.choose(4);
    int groups = c.pick(std::vector<int>{0, 9, 10});
    int ng     = c.pick(std::vector<int>{3, 7});
    int quad   = 1 + c.choose(2);
    int gs     = c.choose(2);
    int bc     = c.pick(std::vector<int>{0x5, 0xa});
    if (!c.leaf(fmt("shape %d, planes %d, %d groups, quadrature %d, %s, boundary %d", shape, groups, ng, quad, gs ? "gs" : "jacobi", bc))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(ng, shape, groups, 0x1b), sweeper(quad, 0.3, gs, 2), (bool)gs, true, 2, 2, 0};
        set_bc(k.p, bc);
        check(c, k);
    });
}
// finely divided pins
static void fine(Ctx &c)
{
    int shape  = c.choose(4);
    int groups = c.pick(std::vector<int>{0, 3});
    int np     = shape == 0 ? 1 : shape < 3 ? 2 : 4;
    std::vector<int> kind;
    for (int i = 0; i < np; i++) {
        kind.push_back(c.choose(np > 2 ? 2 : 3));
    }
    int quad = c.choose(2);
    if (!c.leaf(fmt("shape %d, planes %d, pins ", shape, groups) + ::mc::detail::join(kind) + fmt(", quadrature %d", quad))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(2, shape, groups, 0x1b), sweeper(quad, 0.3, true, 1), true, true, 1, 2, 0};
        k.slack = 20;
        for (size_t m = 0; m < k.p.pins.size(); m++) {
            for (int i = 0; i < np; i++) {
                auto &d = k.p.pins[m][i];
                int f   = kind[(i + m) % np];
                if (f == 0) {
                    d.geo = 2;
                    d.mats.clear();
                    for (int r = 0; r < 300; r++) {
                        d.mats.push_back(r % 7 % 4);
                    }
                } else if (f == 1) {
                    d = {3, {0, 2, 1}};
                }
            }
        }
        cp::finish(k.p);
        check(c, k);
    });
}
// many iterations and many planes
static void lengthy(Ctx &c)
{
    int shape  = 1 + c.choose(3);
    int groups = c.pick(std::vector<int>{0, 3, 11});
    int inner  = c.pick(std::vector<int>{1, 3, 5, 9});
    int outers = c.pick(std::vector<int>{1, 3, 8});
    int start  = c.choose(2);
    int gs     = c.choose(2);
    if (!c.leaf(fmt("shape %d, planes %d, %d inner, %d sweeps, start %d, %s", shape, groups, inner, outers, start, gs ? "gs" : "jacobi"))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{problem(2, shape, groups, 0x1b), sweeper(0, 0.3, gs, inner), (bool)gs, true, inner, outers, start};
        set_bc(k.p, 0x6);
        check(c, k);
    });
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "N02",
                     {{"cores", cores, 120, "core shapes, groupings of planes and patterns of pins, two sweeps each, against a sweep by definition"},
                      {"large", large, 300, "4 cores of up to 24 pins, up to 9 planes, 3 and 7 groups, both update modes"},
                      {"fine", fine, 120, "up to 4 pins of 300 columns or of 17 rings and 8 sectors"},
                      {"lengthy", lengthy, 120, "up to 9 inner iterations and 8 sweeps, up to 9 planes of their own"},
                      {"leakage", leakage, 120, "all signs of the leakage of four pins, with and without splitting, two sweeps each"},
                      {"incoming", incoming, 120, "all radial boundaries with at least one prescribed face, three sweeps each"},
                      {"options", options, 120, "all radial boundaries, update modes, inner iterations, quadratures, spacings, with and without currents; three sweeps each"}});
}
