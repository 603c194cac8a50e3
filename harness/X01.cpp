// X01: homogenised cross sections preserve reaction rates.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

using namespace cp;

static void compare(Ctx &c, const Problem &p, const std::vector<ci::Mat> &lib, const XSMesh &xs, const Flux *flux, const char *who)
{
    int ng = p.ng, i = 0, base = 0;
    if (!c.expect(xs.size() == p.groups.size() * n_pin(p) && (int)xs.n_group() == ng, fmt("%s: size", who))) {
        return;
    }
    for (size_t k = 0; k < p.groups.size(); k++) {
        for (int j = 0; j < n_pin(p); j++, i++) {
            auto &pin = p.pins[k][j];
            auto ar   = areas(pin.geo);
            auto &r   = xs[i];
            std::string at = fmt("%s pin %d: ", who, i);
            std::vector<double> fv(ng, 0), tr(ng, 0), nf(ng, 0), f(ng, 0), chi(ng, 0);
            std::vector<std::vector<double>> sc(ng, std::vector<double>(ng, 0));
            double prod = 0;
            for (size_t q = 0; q < ar.size(); q++) {
                auto &m = lib[mat_of(pin, q)];
                double fs = 0;
                for (int g = 0; g < ng; g++) {
                    double w = (flux ? (*flux)[base + q][g] : 1.0) * ar[q];
                    fv[g] += w;
                    tr[g] += w * m.tr(g);
                    nf[g] += w * m.nf[g];
                    f[g] += w * m.f[g];
                    fs += w * m.nf[g];
                    for (int t = 0; t < ng; t++) {
                        sc[t][g] += w * m.sc[t][g];
                    }
                }
                prod += fs;
                for (int g = 0; g < ng; g++) {
                    chi[g] += fs * m.chi[g];
                }
            }
            base += ar.size();
            c.expect_int(r.n_group(), ng, at + "groups");
            for (int g = 0; g < ng; g++) {
                double out = 0;
                c.expect_rel(r.xsmactr(g) * fv[g], tr[g], 1e-11, at + fmt("transport rate in group %d", g));
                c.expect_eq(r.xsmacnf(g) * fv[g], nf[g], 1e-12 * std::max(1.0, tr[g]), at + fmt("production in group %d", g));
                c.expect_eq(r.xsmacf(g) * fv[g], f[g], 1e-12 * std::max(1.0, tr[g]), at + fmt("fission rate in group %d", g));
                c.expect_eq(r.xsmacch(g), prod > 0 ? chi[g] / prod : 0.0, 1e-11, at + fmt("spectrum in group %d", g));
                c.expect_eq(r.xsmacrm(g), r.xsmactr(g) - r.xsmacsc().self_scat(g), 1e-13, at + "removal");
                for (int t = 0; t < ng; t++) {
                    auto &row = r.xsmacsc(t);
                    double v  = g >= row.min_g && g <= row.max_g ? row[g] : 0.0;
                    c.expect_eq(v * fv[g], sc[t][g], 1e-12 * std::max(1.0, tr[g]), at + fmt("scattering rate %d to %d", g, t));
                    out += v;
                }
                c.expect_eq(r.xsmacsc().out(g), out, 1e-12, at + "out-scatter");
            }
            c.expect(r.is_fissile() == (prod > 0), at + "fissile flag");
        }
    }
}

static void check_regions(Ctx &c, const Problem &p, const XSMesh &xs, bool coarse)
{
    int i = 0, z = 0;
    for (size_t k = 0; k < p.groups.size(); k++) {
        for (int j = 0; j < n_pin(p); j++, i++) {
            std::vector<int> want;
            if (coarse) {
                want = {(int)k * n_pin(p) + pin_cell(p, j)};
            } else {
                for (int q = 0; q < p.groups[k]; q++) {
                    want.push_back((z + q) * n_pin(p) + pin_cell(p, j));
                }
            }
            auto got = xs[i].reg();
            c.expect(std::vector<int>(got.begin(), got.end()) == want, fmt("cells that use the cross sections of pin %d", i));
        }
        z += p.groups[k];
    }
    c.expect_int(xs.n_reg_expanded(), coarse ? (int)p.groups.size() * n_pin(p) : z * n_pin(p), "cells in all");
}

// every pin over the materials, every flux pattern
static void pins(Ctx &c)
{
    Problem p;
    p.ng = c.pick(std::vector<int>{1, 2, 3, 7});
    p.nx = p.ny = 1;
    p.groups = {1};
    p.hz     = {1.5};
    PinDef d;
    d.geo = c.choose(2);
    for (int i = 0; i < (d.geo == 0 ? 3 : 2); i++) {
        d.mats.push_back(c.choose(4));
    }
    p.pins = {{d}};
    int n  = d.geo == 0 ? 12 : 2;
    int k  = c.choose(5 + n) - 1; // -1: by volume
    finish(p);
    std::string desc = fmt("%d groups, geometry %d, materials", p.ng, d.geo);
    for (int m : d.mats) {
        desc += fmt(" %d", m);
    }
    if (!c.leaf(desc + fmt(", flux pattern %d", k))) {
        return;
    }
    auto lib = library(p.ng);
    ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + "</mocc>");
    CoreMesh mesh(doc.root());
    XSMeshHomogenized xs(mesh);
    compare(c, p, lib, xs, nullptr, "by volume");
    check_regions(c, p, xs, false);
    if (k >= 0) {
        ArrayB2 flux(n, p.ng);
        Flux f = flux_of(n, p.ng, k);
        assign(flux, f);
        xs.set_flux(flux);
        compare(c, p, lib, xs, nullptr, "before the update");
        xs.update();
        compare(c, p, lib, xs, &f, "by flux");
        // only the shape of the flux matters
        for (auto &r : f) {
            for (auto &v : r) {
                v *= 1e-3;
            }
        }
        assign(flux, f);
        xs.update();
        compare(c, p, lib, xs, &f, "by scaled flux");
    } else {
        xs.update();
        compare(c, p, lib, xs, nullptr, "update without a flux");
    }
    c.state(desc + fmt("%d", k));
}

// small cores with plane groups
static void cores(Ctx &c)
{
    Problem p;
    p.ng = c.pick(std::vector<int>{2, 5});
    static const int D[][4] = {{1, 1, 1, 1}, {2, 1, 1, 1}, {1, 2, 1, 1}, {2, 2, 1, 1}, {1, 2, 2, 1}, {2, 1, 1, 2}, {1, 1, 2, 2}, {3, 2, 2, 2}};
    int k = c.choose(8);
    p.nx = D[k][0];
    p.ny = D[k][1];
    p.ax = D[k][2];
    p.ay = D[k][3];
    int nz = 1 + c.choose(k == 7 ? 5 : 3);
    for (int left = nz; left > 0;) {
        int g = 1 + c.choose(left);
        p.groups.push_back(g);
        left -= g;
    }
    static const double H[] = {1.0, 2.5, 0.75, 1.75, 0.5};
    p.hz.assign(H, H + nz);
    int shift = c.choose(4), kind = c.choose(8), geo = c.choose(4);
    int q     = 0;
    for (size_t g = 0; g < p.groups.size(); g++) {
        p.pins.emplace_back();
        for (int i = 0; i < n_pin(p); i++, q++) {
            PinDef d;
            d.geo = geo == 2 ? q % 2 : geo == 3 ? 3 - q % 4 : geo;
            for (int j = 0; j < (d.geo == 2 ? 300 : d.geo % 3 == 0 ? 3 : 2); j++) {
                d.mats.push_back((q * (shift + 1) + j * j + shift) % 4);
            }
            p.pins.back().push_back(d);
        }
    }
    finish(p);
    if (!c.leaf(fmt("%dx%d pins, %d plane groups, pin shift %d, geometry %d, flux pattern %d: ", p.nx, p.ny, (int)p.groups.size(), shift, geo, kind) + p.xml)) {
        return;
    }
    auto lib = library(p.ng);
    ci::Doc doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + "</mocc>");
    CoreMesh mesh(doc.root());
    int n = n_regions(p);
    c.expect_int((int)mesh.n_reg(MeshTreatment::PLANE), n, "regions");
    XSMeshHomogenized xs(mesh);
    check_regions(c, p, xs, false);
    compare(c, p, lib, xs, nullptr, "by volume");
    ArrayB2 flux(n, p.ng);
    Flux f = flux_of(n, p.ng, kind);
    assign(flux, f);
    xs.set_flux(flux);
    xs.update();
    compare(c, p, lib, xs, &f, "by flux");
    XSMeshHomogenized map(xs, std::vector<int>());
    check_regions(c, p, map, true);
    compare(c, p, lib, map, &f, "coarse view");
    check_regions(c, p, xs, false);
    c.state(p.xml + fmt("%d", kind));
}

// histories of flux changes, updates and readers
static void histories(Ctx &c)
{
    Problem p;
    p.ng = 2;
    p.nx = 2;
    p.ny = 1;
    p.groups = {1, 2};
    p.hz     = {1.0, 2.0, 0.5};
    p.pins   = {{{0, {0, 1, 2}}, {1, {3, 1}}}, {{1, {2, 0}}, {0, {3, 3, 1}}}};
    int len  = c.thorough() ? 6 : 5;
    std::vector<int> ops;
    std::string desc;
    static const char *N[] = {"flux A", "flux B", "update", "expand 0", "expand 1", "expand 0 split", "update of a view", "expand a view", "attach"};
    for (int i = 0; i < len; i++) {
        ops.push_back(c.choose(9));
        desc += std::string(N[ops.back()]) + "; ";
    }
    if (!c.leaf(desc)) {
        return;
    }
    finish(p);
    static std::unique_ptr<ci::Doc> doc; // the input is the same for every history
    static std::unique_ptr<CoreMesh> mesh;
    auto lib = library(p.ng);
    if (!mesh) {
        doc.reset(new ci::Doc("<mocc>" + p.xml + ci::lib_tag(lib, "lib.xsl") + "</mocc>"));
        mesh.reset(new CoreMesh(doc->root()));
    }
    int n = n_regions(p);
    XSMeshHomogenized xs(*mesh);
    ArrayB2 flux(n, p.ng);
    Flux now = flux_of(n, p.ng, 1), A = now, B = flux_of(n, p.ng, 2);
    assign(flux, now);
    ExpandedXS ex(&xs);
    bool attached = false;
    const Flux *cur = nullptr; // what the cross sections were last weighted with
    Flux keep;
    int nsc = xs.n_reg_expanded();
    ArrayB1 split(nsc);
    for (int i = 0; i < nsc; i++) {
        split(i) = 0.25 * (i + 1);
    }
    auto expected = [&](int g, std::vector<double> &v, bool coarse) {
        // transport cross section by cell, from scratch
        v.assign(coarse ? 4 : nsc, 0.0);
        int base = 0, z = 0;
        for (size_t k = 0; k < p.groups.size(); k++) {
            for (int j = 0; j < 2; j++) {
                auto ar  = areas(p.pins[k][j].geo);
                double a = 0, b = 0;
                for (size_t q = 0; q < ar.size(); q++) {
                    double w = ar[q] * (cur ? keep[base + q][g] : 1.0);
                    a += w;
                    b += w * lib[mat_of(p.pins[k][j], q)].tr(g);
                }
                base += ar.size();
                for (int q = 0; q < (coarse ? 1 : p.groups[k]); q++) {
                    v[(coarse ? k : z + q) * 2 + j] = b / a;
                }
            }
            z += p.groups[k];
        }
    };
    for (int o : ops) {
        std::vector<double> v;
        switch (o) {
        case 0:
        case 1:
            now = o ? B : A;
            assign(flux, now);
            break;
        case 2:
            xs.update();
            if (attached) {
                keep = now;
                cur  = &keep;
            }
            compare(c, p, lib, xs, cur, "after an update");
            break;
        case 3:
        case 4:
            ex.expand(o - 3);
            expected(o - 3, v, false);
            for (int i = 0; i < nsc; i++) {
                c.expect_eq(ex[i], v[i], 1e-11, "expanded cross section");
            }
            break;
        case 5:
            ex.expand(0, split);
            expected(0, v, false);
            for (int i = 0; i < nsc; i++) {
                c.expect_eq(ex[i], v[i] + split(i), 1e-11, "expanded and split cross section");
            }
            break;
        case 6: {
            // a view taken now sees, and updates with, the attached flux
            XSMeshHomogenized w(xs, std::vector<int>());
            w.update();
            if (attached) {
                compare(c, p, lib, w, &now, "updated view");
                // bring the original up to date as well
                xs.update();
                keep = now;
                cur  = &keep;
            }
            compare(c, p, lib, w, cur, "view after updates");
            break;
        }
        case 7: {
            XSMeshHomogenized w(xs, std::vector<int>());
            ExpandedXS e(&w);
            e.expand(1);
            expected(1, v, true);
            for (int i = 0; i < 4; i++) {
                c.expect_eq(e[i], v[i], 1e-11, "expanded view");
            }
            break;
        }
        default:
            xs.set_flux(flux);
            attached = true;
        }
        c.steps(1);
    }
    c.state(desc);
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "X01",
                   {{"pins", pins, 30, "all material assignments of two pin geometries for 1, 2, 3 and 7 groups, crossed with all flux patterns"},
                    {"cores", cores, 30, "cores up to 2x2 pins and 3 planes, and one of 24 pins and up to 5 planes, in all groupings, 2 and 5 groups, pin patterns and flux patterns"},
                    {"histories", histories, 30, "all histories of flux changes, updates and readers up to length 5 (6 thorough)"}});
}
