// N07: fluxes and powers of pins are those of their regions, and setting the
// flux of pins keeps the shape inside them.
#include <omp.h>
#include "isolated.hpp"
#include "box.hpp"
#include "ref_moc.hpp"
#include "sweep_setup.hpp"
#include "util/h5file.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

// regions of a plane group or cells of planes, with what is needed to work
// with them
struct Region {
    int cell;   // of a plane
    int lo, hi; // planes
    double area;
    int mat;
};
struct Case {
    std::string xml, sweeper;
    int ng, np;
    std::vector<double> hz;
    std::vector<int> group_of;
    std::vector<Region> reg;
    int n_fuel = 0; // most fuel pins in a plane
};
typedef std::vector<std::vector<double>> Flux; // [region][group]

static double height(const Case &k, int lo, int hi)
{
    double h = 0;
    for (int z = lo; z <= hi; z++) {
        h += k.hz[z];
    }
    return h;
}
// average over the planes lo to hi of a pin
static double average(const Case &k, const Flux &f, int cell, int lo, int hi, int g)
{
    double v = 0, s = 0;
    for (size_t i = 0; i < k.reg.size(); i++) {
        auto &r = k.reg[i];
        int a = std::max(lo, r.lo), b = std::min(hi, r.hi);
        if (r.cell == cell && a <= b) {
            double w = r.area * height(k, a, b);
            v += w;
            s += w * f[i][g];
        }
    }
    return s / v;
}
static void check(Ctx &c, const Case &k, bool moc, int kind, int target)
{
    sw::Setup s(k.xml + ci::lib_tag(cp::library(k.ng), "lib.xsl"), k.sweeper, false);
    auto lib = cp::library(k.ng);
    int n = k.reg.size(), ng = k.ng, nz = k.hz.size(), nm = k.group_of.back() + 1;
    if (!c.expect_int(s.sweeper->n_reg(), n, "regions")) {
        return;
    }
    Flux f = cp::flux_of(n, ng, kind);
    for (auto &v : f) {
        for (double &x : v) {
            x += 0.1;
        }
    }
    auto &now = const_cast<ArrayB2 &>(s.sweeper->flux());
    std::vector<int> first(nm + 1, nz);
    for (int z = nz - 1; z >= 0; z--) {
        first[k.group_of[z]] = z;
    }
    auto powers = [&](const std::string &at) {
        // per pin and plane, or group of planes
        int np3 = moc ? nm : nz;
        std::vector<double> want(np3 * k.np, 0.0);
        double total = 0;
        int lit      = 0;
        for (int i = 0; i < n; i++) {
            auto &r = k.reg[i];
            for (int g = 0; g < ng; g++) {
                double p = lib[r.mat].f[g] * f[i][g] * r.area * height(k, r.lo, r.hi);
                want[(moc ? k.group_of[r.lo] : r.lo) * k.np + r.cell] += p;
                total += p;
            }
        }
        for (double w : want) {
            lit += w > 0;
        }
        if (total == 0) {
            return;
        }
        auto got = s.sweeper->pin_powers();
        if (!c.expect_int(got.size(), want.size(), at + "pin powers")) {
            return;
        }
        double norm = (moc ? k.n_fuel : lit) / total;
        int i       = 0;
        for (double v : got) {
            if (!c.expect_eq(v, want[i] * norm, 1e-11, at + fmt("power of pin %d", i))) {
                return;
            }
            i++;
        }
    };
    auto reset = [&]() {
        f = cp::flux_of(n, ng, kind);
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                f[i][g] += 0.1;
                now(i, g) = f[i][g];
            }
        }
    };
    auto look = [&](const std::string &at) {
        auto pin = s.sweeper->get_pin_flux(), mac = s.sweeper->get_pin_flux(MeshTreatment::PIN_PLANE);
        if (!c.expect_int(pin.extent(0), nz * k.np, at + "pins") || !c.expect_int(mac.extent(0), nm * k.np, at + "pins of groups of planes")) {
            return;
        }
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < nz * k.np; i++) {
                c.expect_eq(pin(i, g), average(k, f, i % k.np, i / k.np, i / k.np, g), 1e-11, at + fmt("flux of pin %d, group %d", i, g));
            }
            for (int i = 0; i < nm * k.np; i++) {
                int m = i / k.np;
                c.expect_eq(mac(i, g), average(k, f, i % k.np, first[m], first[m + 1] - 1, g), 1e-11, at + fmt("flux of pin %d, group %d, of groups of planes", i, g));
            }
        }
        powers(at);
    };
    // what is written: fluxes of pins by group, scaled to an average of one,
    // and powers
    auto written = [&]() {
        {
            H5Node out("out.h5", H5Access::WRITE);
            s.sweeper->output(out);
        }
        H5Node in("out.h5", H5Access::READ);
        auto stored = [&](const std::string &name) {
            ArrayB1 v;
            in.read_1d(name, v);
            return std::vector<double>(v.begin(), v.end());
        };
        std::vector<double> want2(k.np, 0.0);
        double sum = 0, total2 = 0;
        int lit = 0, lit2 = 0;
        for (int i = 0; i < nz * k.np; i++) {
            for (int g = 0; g < ng; g++) {
                double v = average(k, f, i % k.np, i / k.np, i / k.np, g);
                sum += v;
                lit += v > 0;
            }
        }
        for (int g = 0; g < ng; g++) {
            auto v = stored(fmt("flux/%03d", g + 1));
            if (!c.expect_int(v.size(), nz * k.np, "pins written")) {
                return;
            }
            for (int i = 0; i < nz * k.np; i++) {
                c.expect_eq(v[i], average(k, f, i % k.np, i / k.np, i / k.np, g) * lit / sum, 1e-11, fmt("flux of pin %d, group %d, written", i, g));
            }
            if (moc) {
                v = stored(fmt("fsr_flux/%03d", g + 1));
                if (!c.expect_int(v.size(), n, "regions written")) {
                    return;
                }
                for (int i = 0; i < n; i++) {
                    c.expect_eq(v[i], f[i][g], 1e-12, fmt("flux of region %d, group %d, written", i, g));
                }
            }
        }
        for (int i = 0; i < n; i++) {
            auto &r = k.reg[i];
            for (int g = 0; g < ng; g++) {
                want2[r.cell] += lib[r.mat].f[g] * f[i][g] * r.area * height(k, r.lo, r.hi);
            }
        }
        for (double w : want2) {
            total2 += w;
            lit2 += w > 0;
        }
        if (total2 == 0) {
            return;
        }
        auto v       = stored("pin_powers");
        auto now_pow = s.sweeper->pin_powers();
        c.expect(v.size() == now_pow.size() && std::equal(v.begin(), v.end(), now_pow.begin()), "powers written differ");
        if (!moc) {
            v = stored("pin_powers_2d");
            if (c.expect_int(v.size(), k.np, "powers of stacks of pins")) {
                for (int i = 0; i < k.np; i++) {
                    c.expect_eq(v[i], want2[i] * lit2 / total2, 1e-11, fmt("power of the pins stacked at %d", i));
                }
            }
        }
    };
    reset();
    look("");
    written();
    for (auto tr : {MeshTreatment::PIN, MeshTreatment::PIN_PLANE}) {
        for (int again = 0; again < 2; again++) {
            reset();
            bool pins = tr == MeshTreatment::PIN;
            std::string at = std::string(again ? "same " : "") + (pins ? "flux of pins set: " : "flux of groups of planes set: ");
            int layers = pins ? nz : nm;
            ArrayB2 set(layers * k.np, ng);
            auto have = s.sweeper->get_pin_flux(tr);
            for (int g = 0; g < ng; g++) {
                for (int i = 0; i < layers * k.np; i++) {
                    set(i, g) = again ? have(i, g) : target == 0 ? 0.5 + ((i * 5 + g * 3) % 7) : have(i, g) * (i == (target - 1) % (layers * k.np) ? 4.0 : 1.0);
                }
            }
            double resid = s.sweeper->set_pin_flux(set, tr);
            // by hand: every pin of a group of planes is scaled, or the cells
            // are what they are set to
            double want_resid = 0;
            Flux before = f;
            for (int g = 0; g < ng; g++) {
                if (pins && !moc) {
                    for (int i = 0; i < n; i++) {
                        want_resid += std::pow(set(i, g) - f[i][g], 2);
                        f[i][g] = set(i, g);
                    }
                    continue;
                }
                for (int m = 0; m < nm; m++) {
                    for (int cl = 0; cl < k.np; cl++) {
                        double to = 0;
                        if (pins) {
                            for (int z = first[m]; z < first[m + 1]; z++) {
                                to += set(z * k.np + cl, g) * k.hz[z];
                            }
                            to /= height(k, first[m], first[m + 1] - 1);
                        } else {
                            to = set(m * k.np + cl, g);
                        }
                        double from = average(k, before, cl, first[m], first[m + 1] - 1, g);
                        want_resid += std::pow((to - from) / (nm * k.np), 2);
                        for (int i = 0; i < n; i++) {
                            if (k.reg[i].cell == cl && k.group_of[k.reg[i].lo] == m) {
                                f[i][g] *= to / from;
                            }
                        }
                    }
                }
            }
            for (int i = 0; i < n; i++) {
                for (int g = 0; g < ng; g++) {
                    if (!c.expect_eq(now(i, g), f[i][g], 1e-11, at + fmt("flux of region %d, group %d", i, g))) {
                        return;
                    }
                }
            }
            if (moc || pins) {
                c.expect_eq(resid, std::sqrt(want_resid), 1e-10, at + "difference");
            }
            look(at);
        }
    }
    // a pin without flux is refused
    if (moc) {
        for (double bad : {0.0, -1.0}) {
            reset();
            auto set = s.sweeper->get_pin_flux(MeshTreatment::PIN_PLANE);
            set(set.extent(0) - 1, ng - 1) = bad;
            bool refused = false;
            try {
                s.sweeper->set_pin_flux(set, MeshTreatment::PIN_PLANE);
            } catch (Exception &) {
                refused = true;
            }
            c.expect(refused, "flux that is not positive accepted");
        }
    }
    // cells may have lost their flux: they get what they are set to
    for (int dark = 0; !moc && dark < nm * k.np; dark++) {
        reset();
        auto set = s.sweeper->get_pin_flux(MeshTreatment::PIN_PLANE);
        int m    = dark / k.np;
        for (int z = first[m]; z < first[m + 1]; z++) {
            now(z * k.np + dark % k.np, 0) = f[z * k.np + dark % k.np][0] = 0;
        }
        set(dark, 0) = 1.5;
        s.sweeper->set_pin_flux(set, MeshTreatment::PIN_PLANE);
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                bool lost = g == 0 && k.group_of[k.reg[i].lo] == m && k.reg[i].cell == dark % k.np;
                c.expect_eq(now(i, g), lost ? 1.5 : f[i][g], 1e-11, fmt("flux of region %d, group %d, with pin %d without flux", i, g, dark));
            }
        }
    }
    // the change in the flux
    reset();
    s.sweeper->store_old_flux();
    now(0, 0) += 3.0;
    now(n - 1, ng - 1) += 4.0;
    c.expect_eq(s.sweeper->flux_residual(), n * ng > 1 ? 5.0 : 7.0, 1e-12, "change of the flux");
    reset();
    now(n / 2, 0) -= 0.25;
    c.expect_eq(s.sweeper->flux_residual(), 0.25, 1e-12, "change of the flux");
}
static const std::vector<cp::PinDef> PIN = {{0, {0, 1, 1}}, {1, {0, 1}}, {1, {1, 1}}, {0, {3, 2, 1}}};
// the same, finely divided
static cp::PinDef pin(int t, bool fine)
{
    if (!fine || t == 0) {
        return PIN[t];
    }
    if (t == 3) {
        return {3, {3, 2, 1}};
    }
    std::vector<int> m;
    for (int i = 0; i < 300; i++) {
        m.push_back(t == 2 ? 1 : i % 3 ? 0 : 1);
    }
    return {2, m};
}
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {2, 1}, {1, 2}, {3}, {1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {1, 1, 2, 1, 3}};
static const std::vector<double> HZ = {0.5, 0.9, 1.6, 0.7, 1.1, 1.3, 0.6, 2.1};
static void planes(Case &k, const std::vector<int> &groups)
{
    for (size_t m = 0; m < groups.size(); m++) {
        for (int i = 0; i < groups[m]; i++) {
            k.hz.push_back(HZ[k.hz.size()]);
            k.group_of.push_back(m);
        }
    }
}
static void moc_runs(Ctx &c)
{
    static const int NX[] = {1, 2, 1, 2, 3, 1, 2, 3}, NY[] = {1, 1, 2, 2, 1, 1, 1, 2}, AX[] = {1, 1, 1, 1, 1, 2, 1, 2}, AY[] = {1, 1, 1, 1, 1, 2, 2, 1};
    int shape  = c.choose(8);
    int groups = c.choose(10);
    int ng     = c.pick(std::vector<int>{1, 2, 4});
    int kind   = c.choose(6);
    int target = c.choose(c.thorough() ? 5 : 3);
    int pat    = c.choose(c.thorough() ? 8 : 4);
    int fine   = shape == 1 || shape == 3 ? c.choose(2) : 0;
    if (!c.leaf(fmt("shape %d, planes %d, %d groups, flux %d, target %d, pattern %d%s", shape, groups, ng, kind, target, pat, fine ? ", fine" : ""))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        cp::Problem p;
        p.ng = ng;
        p.nx = NX[shape];
        p.ny = NY[shape];
        p.ax = AX[shape];
        p.ay = AY[shape];
        p.groups = GROUPS[groups];
        Case k;
        k.ng = ng;
        planes(k, p.groups);
        p.hz = k.hz;
        k.np = cp::n_pin(p);
        for (size_t m = 0; m < p.groups.size(); m++) {
            p.pins.push_back({});
            int fuel = 0, lo = k.hz.size(), hi = 0;
            for (int z = 0; z < (int)k.hz.size(); z++) {
                if (k.group_of[z] == (int)m) {
                    lo = std::min(lo, z);
                    hi = z;
                }
            }
            for (int i = 0; i < k.np; i++) {
                int t = (i * (pat & 1 ? 3 : 1) + (int)m * (pat & 2 ? 1 : 0) + (pat >> 2)) % 4;
                auto d = pin(t, fine);
                p.pins[m].push_back(d);
                fuel += t != 2;
                auto a = cp::areas(d.geo);
                for (size_t r = 0; r < a.size(); r++) {
                    k.reg.push_back({cp::pin_cell(p, i), lo, hi, a[r], cp::mat_of(d, r)});
                }
            }
            k.n_fuel = std::max(k.n_fuel, fuel);
        }
        cp::finish(p);
        k.xml     = p.xml;
        k.sweeper = "<sweeper type=\"moc\" n_inner=\"1\" dump_fsr_flux=\"t\"><ang_quad type=\"ls\" order=\"2\"/><rays spacing=\"0.5\"/></sweeper>";
        check(c, k, true, kind, target);
    });
}
static void sn_runs(Ctx &c)
{
    int nx = c.pick(std::vector<int>{1, 2, 3, 5}), ny = c.pick(std::vector<int>{1, 4});
    int groups = c.choose(10);
    int ng     = c.pick(std::vector<int>{1, 4});
    int kind   = c.choose(6);
    int target = c.choose(c.thorough() ? 5 : 3);
    int pat    = c.choose(c.thorough() ? 8 : 4);
    if (!c.leaf(fmt("%d by %d, planes %d, %d groups, flux %d, target %d, pattern %d", nx, ny, groups, ng, kind, target, pat))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k;
        k.ng = ng;
        k.np = nx * ny;
        planes(k, GROUPS[groups]);
        box::Box b;
        b.ng     = ng;
        b.nx     = nx;
        b.ny     = ny;
        b.hz     = k.hz;
        b.groups = GROUPS[groups];
        for (size_t m = 0; m < b.groups.size(); m++) {
            b.mat.push_back({});
            for (int i = 0; i < k.np; i++) {
                b.mat[m].push_back((i * (pat & 1 ? 3 : 1) + (int)m * (pat & 2 ? 1 : 0) + (pat >> 2)) % 4);
            }
        }
        for (int z = 0; z < (int)k.hz.size(); z++) {
            for (int i = 0; i < k.np; i++) {
                k.reg.push_back({i, z, z, b.pitch * b.pitch, b.mat[k.group_of[z]][i]});
            }
        }
        k.xml     = b.xml();
        k.sweeper = "<sweeper type=\"sn\" n_inner=\"1\"><ang_quad type=\"ls\" order=\"2\"/></sweeper>";
        check(c, k, false, kind, target);
    });
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N07",
                     {{"moc", moc_runs, 120, "MoC: shapes, groupings of planes, flux patterns; fluxes of pins and of groups of planes read and set"},
                      {"sn", sn_runs, 120, "Sn: shapes, groupings of planes, flux patterns; fluxes of pins and of groups of planes read and set"}});
}
