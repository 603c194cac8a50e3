// C03: MoC sweeps that generate correction factors, and whole 2D3D sweeps,
// give the serial answer under every schedule.
#include "ompmc_explore.hpp"
#include "sweep_setup.hpp"
#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

static cp::Problem problem(int kind, bool coupled)
{
    cp::Problem p;
    p.ng     = kind == 3 ? 2 : 1;
    p.groups = {1};
    p.hz     = {1.5};
    p.nx = p.ny = 1;
    p.pins   = {{{1, {0, 1}}}};
    if (kind == 1) {
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {{{1, {0, 1}}}, {{1, {3, 1}}}};
    } else if (kind == 2) {
        p.nx   = 2;
        p.pins = {{{1, {0, 1}}, {0, {3, 1, 1}}}};
    } else if (coupled) {
        p.groups = {1, 1};
        p.hz     = {0.7, 1.6};
        p.pins   = {p.pins[0], p.pins[0]};
    }
    cp::finish(p);
    return p;
}
static std::string core_xml(const cp::Problem &p, int bc, bool coupled)
{
    std::string xml = p.xml;
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    std::string top = coupled && bc ? "vacuum" : "reflect";
    if (bc) {
        xml.replace(xml.find(old), old.size(), ci::bcs("vacuum", "reflect", "reflect", "reflect", "reflect", top));
    }
    return xml + ci::lib_tag(cp::library(p.ng), "lib.xsl");
}
// the sweep of one sweeper with correction factors that can be looked at
struct Standalone {
    ci::Doc doc;
    CoreMesh mesh;
    cmdo::MoCSweeper_2D3D sweeper;
    std::shared_ptr<CorrectionData> corrections;
    SP_XSMeshHomogenized_t xs;
    ExpandedXS xstr;
    UP_Source_t source;
    CoarseData coarse;
    int nang;

    Standalone(const std::string &core, const std::string &swp)
        : doc("<mocc>" + core + swp + "<source scattering=\"P0\" /></mocc>"), mesh(doc.root()), sweeper(doc.root().child("sweeper"), mesh), coarse(mesh, sweeper.n_group())
    {
        nang        = sweeper.get_ang_quad().ndir() / 2;
        corrections = std::make_shared<CorrectionData>(mesh, nang, sweeper.n_group());
        xs          = sweeper.get_homogenized_xsmesh();
        xs->set_flux(sweeper.flux());
        xstr = ExpandedXS(xs.get());
        sweeper.set_coupling(corrections, xs, xstr);
        source = sweeper.create_source(doc.root().child("source"));
        sweeper.assign_source(source.get());
        sweeper.set_coarse_data(&coarse);
        sweeper.initialize();
    }
    void outer()
    {
        ArrayB1 fs(sweeper.n_reg());
        sweeper.calc_fission_source(1.0, fs);
        sweeper.store_old_flux();
        for (int g = 0; g < (int)sweeper.n_group(); g++) {
            source->initialize_group(g);
            source->fission(fs, g);
            source->in_scatter(g);
            sweeper.sweep(g);
        }
    }
};
static void bounds(Ctx &c, ompmc::Bounds &b, int kind, int threads, int base, int part)
{
    b.threads    = threads;
    b.base       = base;
    bool small   = kind == 0 && threads == 2;
    b.deviations = small ? 2 : 1;
    if (c.thorough()) {
        b.deviations = threads == 2 || kind == 0 ? 2 : 1;
    }
    b.part     = part;
    b.parts    = 2;
    b.max_runs = 200000;
    b.tol      = 1e-11;
}
static void sweeps(Ctx &c)
{
    int kind    = c.choose(4);
    int gs      = c.choose(2);
    int bc      = c.choose(kind < 2 || c.thorough() ? 2 : 1);
    int inner   = 1 + c.choose(kind < 2 || c.thorough() ? 2 : 1);
    int threads = 2 + c.choose(2);
    int base    = c.choose(3);
    int part    = c.choose(2);
    if (!c.leaf(fmt("core %d, %s update, boundary %d, %d inner, %d threads, base order %d, part %d", kind, gs ? "gs" : "jacobi", bc, inner, threads, base, part))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        auto p = problem(kind, false);
        auto s = std::make_shared<Standalone>(core_xml(p, bc, false),
                                              fmt("<sweeper type=\"moc_2d3d\" n_inner=\"%d\" boundary_update=\"%s\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></sweeper>", inner, gs ? "gs" : "jacobi"));
        int outers = inner == 1 ? 2 : 1;
        return [s, outers](ompmc::Outcome &o) {
            for (int k = 0; k < outers; k++) {
                s->outer();
                o.add(fmt("flux after sweep %d", k + 1), s->sweeper.flux());
                o.add("current", s->coarse.current);
                o.add("surface flux", s->coarse.surface_flux);
                std::vector<double> ax, ay, b;
                for (int g = 0; g < (int)s->sweeper.n_group(); g++) {
                    for (int a = 0; a < s->nang; a++) {
                        for (int i = 0; i < s->corrections->n_cell(); i++) {
                            ax.push_back(s->corrections->alpha(i, a, g, Normal::X_NORM));
                            ay.push_back(s->corrections->alpha(i, a, g, Normal::Y_NORM));
                            b.push_back(s->corrections->beta(i, a, g));
                        }
                    }
                }
                o.add("alpha x", ax);
                o.add("alpha y", ay);
                o.add("beta", b);
            }
        };
    };
    ompmc::Bounds b;
    bounds(c, b, c.thorough() ? kind : kind + inner - 1 + bc, threads, base, part);
    ompmc::explore(c, make, b);
}
static void coupled(Ctx &c)
{
    int kind    = c.choose(4);
    int bc      = c.choose(2);
    int threads = 2 + c.choose(2);
    int base    = c.choose(3);
    int part    = c.choose(2);
    if (!c.leaf(fmt("coupled, core %d, boundary %d, %d threads, base order %d, part %d", kind, bc, threads, base, part))) {
        return;
    }
    auto make = [&]() -> ompmc::Run {
        auto p = problem(kind, true);
        auto s = std::make_shared<sw::Setup>(core_xml(p, bc, true),
                                             "<sweeper type=\"2d3d\"><ang_quad type=\"ls\" order=\"2\"/><moc_sweeper type=\"moc_2d3d\" n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.6\"/></moc_sweeper>"
                                             "<sn_sweeper type=\"sn\" equation=\"cdd\" axial=\"dd\" n_inner=\"1\" boundary_update=\"jacobi\"><ang_quad type=\"ls\" order=\"2\"/></sn_sweeper></sweeper>", true);
        return [s](ompmc::Outcome &o) {
            for (int k = 0; k < 2; k++) {
                s->outer();
                o.add(fmt("flux after sweep %d", k + 1), s->sweeper->flux());
                ArrayB2 pin = s->sweeper->get_pin_flux();
                o.add("pin flux", pin);
                o.add("current", s->coarse->current);
            }
        };
    };
    ompmc::Bounds b;
    bounds(c, b, kind + 1, threads, base, part);
    ompmc::explore(c, make, b);
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "C03",
                     {{"sweeps", sweeps, 300, "sweeps that generate correction factors, each explored over all schedules within the bound on deviations from a base order"},
                      {"coupled", coupled, 300, "coupled sweeps, each explored over all schedules within the bound"}});
}
