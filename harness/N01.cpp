// N01: the group source is fission plus scattering plus external.
#include "isolated.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "core/source_factory.hpp"
#include "core/source_isotropic.hpp"
#include "core/xs_mesh.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
#include "sweepers/moc/moc_sweeper.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static const double FOUR_PI = 4.0 * 3.14159265358979323846;

static cp::Problem core(int ng, int kind)
{
    cp::Problem p;
    p.ng     = ng;
    p.nx     = 2;
    p.ny     = 1;
    p.groups = {1, 1};
    p.hz     = {0.7, 1.6};
    p.pins   = {{{1, {0, 1}}, {1, {3, 1}}}, {{1, {1, 2}}, {1, {1, 0}}}};
    if (kind == 1) {
        p.groups = {2, 1};
        p.hz     = {0.5, 0.9, 1.6};
        p.pins   = {{{1, {0, 1}}, {0, {3, 1, 1}}}, {{1, {1, 2}}, {1, {1, 0}}}};
    }
    if (kind == 2) { // many materials and regions
        p.nx     = 3;
        p.ny     = 2;
        p.groups = {1, 2, 1};
        p.hz     = {0.5, 0.9, 1.6, 0.4};
        p.pins   = {{{0, {0, 4, 1}}, {1, {5, 1}}, {0, {6, 7, 1}}, {1, {3, 1}}, {0, {1, 2, 7}}, {1, {0, 6}}},
                    {{1, {1, 2}}, {1, {1, 0}}, {0, {1, 1, 1}}, {0, {7, 6, 5}}, {1, {4, 3}}, {0, {2, 1, 0}}},
                    {{0, {4, 4, 5}}, {0, {6, 5, 1}}, {0, {0, 3, 1}}, {1, {7, 1}}, {1, {1, 1}}, {1, {2, 7}}}};
    }
    cp::finish(p);
    return p;
}
// material of every region; regions of planes grouped together counted once
// or for every plane
static std::vector<int> materials(const cp::Problem &p, bool every)
{
    std::vector<int> m;
    for (size_t g = 0; g < p.groups.size(); g++) {
        for (int k = 0; k < (every ? p.groups[g] : 1); k++) {
            for (auto &d : p.pins[g]) {
                for (size_t r = 0; r < cp::areas(d.geo).size(); r++) {
                    m.push_back(cp::mat_of(d, r));
                }
            }
        }
    }
    return m;
}
static double flux_value(int r, int g, int kind)
{
    switch (kind) {
    case 0:
        return 1.0 + 0.37 * r + 0.11 * g;
    case 1:
        return (r * 5 + g * 3) % 7 == 0 ? 0.0 : 0.3 * ((r * 5 + g * 3) % 7);
    default:
        return ((r + g) % 3 - 1) * 1.7;
    }
}
static std::vector<ci::Mat> library(int ng, int pattern)
{
    auto lib = cp::many(ng);
    for (int t = 0; t < ng; t++) {
        for (int g = 0; g < ng; g++) {
            if (!(pattern >> (t * ng + g) & 1)) {
                lib[1].sc[t][g] = 0.0;
            } else {
                lib[1].sc[t][g] = 0.05 + 0.01 * t + 0.02 * g;
            }
        }
    }
    for (int g = 0; g < ng; g++) {
        lib[1].abs[g] = 0.013 + 0.01 * g;
    }
    return lib;
}
static const char *const OPS[] = {"", "F", "S", "A", "FS", "SF", "FA", "AF", "SA", "AS", "FSA", "FAS", "SFA", "SAF", "AFS", "ASF"};

static void groups(Ctx &c)
{
    static const int FIVE[] = {0, 0x1ffffff, 0x1084210, 0x0aaaaaa, 0x1555555, 0x1111111, 0x0f0f0f0, 0x1f003e0};
    int ng = c.pick(std::vector<int>{1, 2, 3, 5});
    int pattern = ng == 5 ? FIVE[c.choose(8)] : c.choose(1 << (ng * ng));
    int kind  = c.choose(ng == 3 && !c.thorough() ? 1 : ng == 5 ? 3 : 2);
    int every = c.choose(kind ? 2 : 1);
    int ext   = c.choose(2);
    if (!c.leaf(fmt("%d groups, scattering pattern %d, core %d, %s, %s", ng, pattern, kind, every ? "every plane" : "grouped planes", ext ? "external source" : "no external source"))) {
        return;
    }
    auto p   = core(ng, kind);
    auto lib = library(ng, pattern);
    ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + (ext ? "<source scattering=\"P0\" file=\"src.h5\"/>" : "<source scattering=\"P0\"/>") + "</mocc>");
    CoreMesh mesh(doc.root());
    XSMesh xs(mesh, every ? MeshTreatment::TRUE : MeshTreatment::PLANE);
    auto mat = materials(p, every);
    int n    = mat.size();
    if (!c.expect_int(xs.n_reg_expanded(), n, "regions")) {
        return;
    }
    ArrayB2 flux(n, ng);
    auto set_flux = [&](int k) {
        for (int r = 0; r < n; r++) {
            for (int g = 0; g < ng; g++) {
                flux(r, g) = flux_value(r, g, k);
            }
        }
    };
    set_flux(0);
    auto external = [&](int r, int g) { return ext ? 0.01 * (1 + r) + 0.5 * g : 0.0; };
    if (ext) {
        ArrayB2 e(ng, n);
        for (int r = 0; r < n; r++) {
            for (int g = 0; g < ng; g++) {
                e(g, r) = external(r, g);
            }
        }
        H5Node f("src.h5", H5Access::WRITE);
        f.write("source", e);
    }
    auto src = SourceFactory(doc.root().child("source"), n, &xs, flux);
    c.expect_int(src->n_reg(), n, "regions of the source");
    ArrayB1 fs(n), aux(n);
    VecF scale(n);
    for (int r = 0; r < n; r++) {
        fs(r)    = 0.1 + 0.03 * r;
        aux(r)   = 0.2 - 0.05 * r;
        scale[r] = 1.5 + 0.1 * r;
    }
    // whatever was visited before
    std::vector<std::vector<int>> orders;
    for (int a = 0; a < ng; a++) {
        for (int b = 0; b < ng; b++) {
            orders.push_back({a, b});
        }
    }
    int turn = 0;
    for (auto &order : orders) {
        for (size_t s = 0; s < order.size(); s++) {
            for (const char *ops : OPS) {
                int g = order[s];
                int fk = turn % 3;
                turn++;
                set_flux(fk);
                src->initialize_group(g);
                c.state(c.desc_ + fmt("%d %d %d %s %d", order[0], order[1], (int)s, ops, fk));
                std::vector<double> want(n);
                for (int r = 0; r < n; r++) {
                    want[r] = external(r, g);
                }
                for (const char *o = ops; *o; o++) {
                    if (*o == 'F') {
                        src->fission(fs, g);
                    } else if (*o == 'S') {
                        src->in_scatter(g);
                    } else {
                        src->auxiliary(aux);
                    }
                    for (int r = 0; r < n; r++) {
                        auto &m = lib[mat[r]];
                        if (*o == 'F') {
                            want[r] += m.chi[g] * fs(r);
                        } else if (*o == 'S') {
                            for (int from = 0; from < ng; from++) {
                                want[r] += from == g ? 0.0 : m.sc[g][from] * flux_value(r, from, fk);
                            }
                        } else {
                            want[r] += aux(r);
                        }
                    }
                }
                if (turn % 4 == 0) {
                    src->scale(scale);
                    for (int r = 0; r < n; r++) {
                        want[r] *= scale[r];
                    }
                }
                std::string at = fmt("groups %d then %d, visit %d, contributions %s: ", order[0], order[1], (int)s, ops);
                for (int r = 0; r < n; r++) {
                    if (!c.expect_eq((*src)[r], want[r], 1e-12 * (1 + std::abs(want[r])), at + fmt("source of region %d, group %d", r, g)) || !c.expect_eq(src->get()[r], want[r], 1e-12 * (1 + std::abs(want[r])), at + fmt("source vector of region %d", r))) {
                        return;
                    }
                }
                // several inner iterations with other fluxes
                for (int inner = 0; inner < 3; inner++) {
                    int k = (fk + inner) % 3;
                    set_flux(k);
                    // none given, those of the library, others
                    ArrayB1 xstr(inner == 0 ? 0 : n);
                    for (int r = 0; inner && r < n; r++) {
                        xstr(r) = lib[mat[r]].tr(g) + (inner == 2 ? 0.07 * (r % 3) : 0.0);
                    }
                    if (inner == 0) {
                        src->self_scatter(g);
                    } else {
                        src->self_scatter(g, xstr);
                    }
                    for (int a = 0; a < 3; a++) {
                        auto &q = src->get_transport(a);
                        for (int r = 0; r < n; r++) {
                            double w = (want[r] + lib[mat[r]].sc[g][g] * flux_value(r, g, k)) / FOUR_PI / (inner ? xstr(r) : 1.0);
                            if (!c.expect_eq(q[r], w, 1e-12 * (1 + std::abs(w)), at + fmt("source for the sweep, region %d, group %d, inner %d", r, g, inner)) || !c.expect_eq((*src)[r], want[r], 1e-12 * (1 + std::abs(want[r])), at + fmt("source of region %d after the inner iteration", r))) {
                                return;
                            }
                        }
                    }
                    c.steps(n);
                }
            }
        }
    }
}
// sources that do not fit are rejected
static void rejected(Ctx &c)
{
    int ng   = c.pick(std::vector<int>{1, 2, 3, 7});
    int bad  = c.choose(8);
    if (!c.leaf(fmt("%d groups, defect %d", ng, bad))) {
        return;
    }
    auto p   = core(ng, 0);
    auto lib = library(ng, -1);
    const char *const TAG[] = {"<source scattering=\"P0\" file=\"src.h5\"/>", "<source scattering=\"P0\" file=\"src.h5\"/>", "<source scattering=\"P0\" file=\"src.h5\"/>", "<source/>", "<source scattering=\"PN\"/>", "<source scattering=\"x\"/>", "<other/>", "<source scattering=\"P0\" file=\"missing.h5\"/>"};
    ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + TAG[bad] + "</mocc>");
    CoreMesh mesh(doc.root());
    XSMesh xs(mesh, MeshTreatment::PLANE);
    int n = xs.n_reg_expanded();
    ArrayB2 flux(n, ng);
    flux = 1.0;
    {
        // one group or one region too many, or the wrong name
        ArrayB2 e(ng + (bad == 0), n + (bad == 1));
        e = 1.0;
        H5Node f("src.h5", H5Access::WRITE);
        f.write(bad == 2 ? "sauce" : "source", e);
    }
    c.state(c.desc_);
    bool thrown = false;
    try {
        auto s = SourceFactory(doc.root().child("source"), n, &xs, flux);
    } catch (...) {
        thrown = true;
    }
    c.expect(thrown, "a source that does not fit is accepted");
}
// what a sweeper makes of its flux
static void fission(Ctx &c)
{
    int ng   = c.pick(std::vector<int>{1, 2, 3, 7});
    int kind = c.choose(3);
    int sn   = c.choose(2);
    int fk   = c.choose(2);
    double k = c.pick(std::vector<double>{1.0, 0.7, 1.3});
    if (!c.leaf(fmt("%d groups, core %d, %s, flux %d, k %g", ng, kind, sn ? "sn" : "moc", fk, k))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        auto p   = core(ng, kind);
        auto lib = cp::many(ng);
        ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + (sn ? "<sweeper type=\"sn\" equation=\"dd\" n_inner=\"1\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>" : "<sweeper type=\"moc\" n_inner=\"1\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></sweeper>") + "</mocc>");
        CoreMesh mesh(doc.root());
        auto swp = TransportSweeperFactory(doc.root(), mesh);
        swp->initialize();
        int n = swp->n_reg();
        auto &flux = const_cast<ArrayB2 &>(swp->flux());
        for (int old = 0; old < 2; old++) {
            for (int r = 0; r < n; r++) {
                for (int g = 0; g < ng; g++) {
                    flux(r, g) = flux_value(r, g, (fk + 1 - old) % 2);
                }
            }
            if (!old) {
                swp->store_old_flux();
            }
        }
        // the flux now is pattern fk, the stored one the other
        std::vector<int> mat;
        std::vector<double> vol;
        std::vector<std::vector<double>> nf(n, std::vector<double>(ng, 0.0));
        int z = 0, r = 0;
        for (size_t gr = 0; gr < p.groups.size(); gr++) {
            double h = 0;
            for (int i = 0; i < p.groups[gr]; i++) {
                h += p.hz[z++];
            }
            if (!sn) {
                for (auto &d : p.pins[gr]) {
                    auto a = cp::areas(d.geo);
                    for (size_t i = 0; i < a.size(); i++, r++) {
                        vol.push_back(a[i] * h);
                        for (int g = 0; g < ng; g++) {
                            nf[r][g] = lib[cp::mat_of(d, i)].nf[g];
                        }
                    }
                }
            } else {
                for (int k = 0; k < p.groups[gr]; k++) {
                    double hz = p.hz[z - p.groups[gr] + k];
                    for (auto &d : p.pins[gr]) {
                        auto a = cp::areas(d.geo);
                        vol.push_back(1.44 * hz);
                        for (size_t i = 0; i < a.size(); i++) {
                            for (int g = 0; g < ng; g++) {
                                nf[r][g] += a[i] / 1.44 * lib[cp::mat_of(d, i)].nf[g];
                            }
                        }
                        r++;
                    }
                }
            }
        }
        if (!c.expect_int(n, r, "regions")) {
            return;
        }
        ArrayB1 fs(n);
        fs = 99.0;
        swp->calc_fission_source(k, fs);
        double tot[2] = {0, 0};
        for (int i = 0; i < n; i++) {
            double w = 0;
            for (int g = 0; g < ng; g++) {
                w += nf[i][g] * flux_value(i, g, fk) / k;
                tot[0] += nf[i][g] * flux_value(i, g, fk) * vol[i];
                tot[1] += nf[i][g] * flux_value(i, g, 1 - fk) * vol[i];
            }
            if (!c.expect_eq(fs(i), w, 1e-12 * (1 + w), fmt("fission source of region %d", i))) {
                return;
            }
            c.expect_eq(swp->volumes()[i], vol[i], 1e-12, fmt("volume of region %d", i));
        }
        c.expect_rel(swp->total_fission(false), tot[0], 1e-12, "total fission");
        c.expect_rel(swp->total_fission(true), tot[1], 1e-12, "total fission of the stored flux");
    });
}
// a source between fixed walls: the flux of the infinite medium
static void fixed_source(Ctx &c)
{
    int ng  = c.pick(std::vector<int>{1, 2, 3, 7});
    int sn  = c.choose(2);
    int mat = c.choose(3);
    int shape = c.choose(2);
    if (!c.leaf(fmt("%d groups, %s, material %d, source %d", ng, sn ? "sn" : "moc", mat, shape))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        cp::Problem p;
        p.ng     = ng;
        p.nx     = 2;
        p.ny     = 1;
        p.groups = {1};
        p.hz     = {1.1};
        p.pins   = {{{1, {mat, mat}}, {1, {mat, mat}}}};
        cp::finish(p);
        std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
        p.xml.replace(p.xml.find(old), old.size(), ci::bcs("reflect", "reflect", "reflect", "reflect", "reflect", "reflect"));
        auto lib = cp::many(ng);
        int n    = sn ? 2 : 4;
        std::vector<double> q(ng);
        {
            ArrayB2 e(ng, n);
            for (int g = 0; g < ng; g++) {
                q[g] = shape ? (g == ng - 1 ? 0.0 : 1.0 + g) : 1.0 / (1 + g);
                if (ng == 1) {
                    q[g] = 1.0 + shape;
                }
                for (int i = 0; i < n; i++) {
                    e(g, i) = q[g];
                }
            }
            H5Node f("src.h5", H5Access::WRITE);
            f.write("source", e);
        }
        ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + "<solver type=\"fixed_source\" max_iter=\"20000\" flux_tol=\"1e-12\"><source scattering=\"P0\" file=\"src.h5\"/>" + (sn ? "<sweeper type=\"sn\" equation=\"dd\" n_inner=\"2\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>" : "<sweeper type=\"moc\" n_inner=\"2\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></sweeper>") + "</solver></mocc>");
        CoreMesh mesh(doc.root());
        FixedSourceSolver s(doc.root().child("solver"), mesh);
        s.solve();
        // (total - scattering) flux = source
        std::vector<std::vector<double>> a(ng, std::vector<double>(ng + 1));
        for (int t = 0; t < ng; t++) {
            for (int g = 0; g < ng; g++) {
                a[t][g] = (t == g ? lib[mat].tr(g) : 0.0) - lib[mat].sc[t][g];
            }
            a[t][ng] = q[t];
        }
        for (int i = 0; i < ng; i++) {
            for (int j = 0; j < ng; j++) {
                if (j != i) {
                    double f = a[j][i] / a[i][i];
                    for (int k = i; k <= ng; k++) {
                        a[j][k] -= f * a[i][k];
                    }
                }
            }
        }
        auto &flux = s.sweeper()->flux();
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < n; i++) {
                if (!c.expect_eq(flux(i, g), a[g][ng] / a[g][g], 1e-8, fmt("flux of region %d, group %d", i, g))) {
                    return;
                }
            }
        }
    });
}
// leakage added to the source, split off where it would turn it negative
static void leakage(Ctx &c)
{
    int ng    = c.pick(std::vector<int>{1, 2, 7});
    int split = c.choose(2);
    int signs = c.choose(8);
    int kind  = c.choose(3);
    if (!c.leaf(fmt("%d groups, %s, leakage signs %d, core %d", ng, split ? "splitting" : "no splitting", signs, kind))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        auto p   = core(ng, kind);
        auto lib = cp::many(ng);
        std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
        p.xml.replace(p.xml.find(old), old.size(), ci::bcs("reflect", "reflect", "reflect", "reflect", "reflect", "reflect"));
        ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + fmt("<sweeper type=\"moc\" n_inner=\"1\" tl_splitting=\"%d\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.3\"/></sweeper><source scattering=\"P0\"/></mocc>", split));
        CoreMesh mesh(doc.root());
        auto swp = TransportSweeperFactory(doc.root(), mesh);
        auto src = swp->create_source(doc.root().child("source"));
        swp->assign_source(src.get());
        auto &moc = dynamic_cast<moc::MoCSweeper &>(*swp);
        moc.initialize();
        auto mat   = materials(p, false);
        int n      = mat.size();
        auto &flux = const_cast<ArrayB2 &>(swp->flux());
        for (int visit = 0; visit < 2 * ng; visit++) {
            int g = visit / 2;
            src->initialize_group(g);
            ArrayB1 fs(n), tl(n);
            for (int i = 0; i < n; i++) {
                fs(i) = 0.5 + 0.1 * i;
                tl(i) = (signs >> ((i + visit) % 3) & 1 ? -2.5 : 0.6) * (1 + 0.1 * i);
            }
            src->fission(fs, g);
            src->in_scatter(g);
            std::vector<double> before(n), phi(n);
            for (int i = 0; i < n; i++) {
                before[i] = (*src)[i];
                phi[i]    = flux(i, g);
            }
            moc.apply_transverse_leakage(g, tl);
            std::vector<double> q(n), t(n);
            for (int i = 0; i < n; i++) {
                double s = before[i] + tl(i);
                t[i]     = lib[mat[i]].tr(g);
                if (split && s < 0) {
                    t[i] += -s / phi[i];
                    s = 0;
                }
                if (!c.expect_eq((*src)[i], s, 1e-12 * (1 + std::abs(s)), fmt("source of region %d with leakage", i))) {
                    return;
                }
                q[i] = s + lib[mat[i]].sc[g][g] * phi[i];
            }
            moc.sweep(g);
            for (int i = 0; i < n; i++) {
                double w = q[i] / (FOUR_PI * t[i]);
                if (!c.expect_eq(src->get_transport(0)[i], w, 1e-12 * (1 + std::abs(w)), fmt("source for the sweep, region %d", i))) {
                    return;
                }
                c.expect_eq((*src)[i], split && before[i] + tl(i) < 0 ? 0.0 : before[i] + tl(i), 1e-12 * (1 + std::abs(before[i] + tl(i))), "source after the sweep");
            }
        }
    });
}
// when the iteration stops
static void stopping(Ctx &c)
{
    int ng     = c.pick(std::vector<int>{1, 2, 7});
    int sn     = c.choose(2);
    double tol = c.pick(std::vector<double>{1.0, 1e-1, 1e-2, 1e-4, 1e-7});
    int most   = c.pick(std::vector<int>{1, 2, 3, 7, 40, 3000});
    if (!c.leaf(fmt("%d groups, %s, tolerance %g, at most %d iterations", ng, sn ? "sn" : "moc", tol, most))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        auto p   = core(ng, 0);
        auto lib = cp::many(ng);
        int n    = sn ? 4 : 8;
        {
            ArrayB2 e(ng, n);
            for (int i = 0; i < n * ng; i++) {
                e(i / n, i % n) = 0.3 + 0.1 * (i % 5);
            }
            H5Node f("src.h5", H5Access::WRITE);
            f.write("source", e);
        }
        ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + fmt("<solver type=\"fixed_source\" max_iter=\"%d\" flux_tol=\"%g\">", most, tol) + "<source scattering=\"P0\" file=\"src.h5\"/>" + (sn ? "<sweeper type=\"sn\" equation=\"dd\" n_inner=\"2\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>" : "<sweeper type=\"moc\" n_inner=\"2\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></sweeper>") + "</solver></mocc>");
        CoreMesh mesh(doc.root());
        FixedSourceSolver s(doc.root().child("solver"), mesh);
        auto &flux = s.sweeper()->flux();
        // step by step
        s.initialize();
        std::vector<double> last(n * ng);
        for (int it = 0; it < most; it++) {
            double change = 0;
            for (int i = 0; i < n * ng; i++) {
                last[i] = flux(i % n, i / n);
            }
            s.step();
            for (int i = 0; i < n * ng; i++) {
                double d = flux(i % n, i / n) - last[i];
                change += d * d;
                last[i] = flux(i % n, i / n);
            }
            c.steps(1);
            if (std::sqrt(change) < tol) {
                break;
            }
        }
        s.solve();
        for (int i = 0; i < n * ng; i++) {
            c.expect_eq(flux(i % n, i / n), last[i], 1e-13, fmt("flux of region %d, group %d after the last iteration", i % n, i / n));
        }
    });
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "N01",
                     {{"groups", groups, 120, "all zero patterns of a scattering table up to 3x3 and 8 of 5x5, all pairs of groups in turn, all sets and orders of contributions, 3 fluxes, inner iterations with and without other cross sections"},
                      {"rejected", rejected, 30, "one defect of the source description each"},
                      {"fission", fission, 30, "fission source and totals of a sweeper's flux"},
                      {"fixed_source", fixed_source, 60, "reflected cores with a flat external source, solved to convergence"},
                      {"stopping", stopping, 60, "the flux at which the iteration stops, for every tolerance and limit"},
                      {"leakage", leakage, 30, "all sign patterns of leakage, with and without splitting"}});
}
