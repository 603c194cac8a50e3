// N05: eigenvalue runs end with the solution of the problem, however the
// iteration is run.
#include <omp.h>
#include "eigen_run.hpp"
#include "box.hpp"
#include "ref_moc.hpp"
#include "core/angular_quadrature.hpp"
#include "core/globals.hpp"
#include "sweepers/sn_sweeper_factory.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;
using er::Vec;

static const double FOUR_PI = 4 * 3.14159265358979323846;
static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"2\"/>"};

struct Config {
    bool cmfd, gs;
    int inner;
    std::string name() const
    {
        return fmt("%s, %s, %d inner", cmfd ? "CMFD" : "no CMFD", gs ? "gs" : "jacobi", inner);
    }
};
static std::vector<Config> configs(bool all)
{
    std::vector<Config> v;
    // few inner iterations between accelerations leave boundary fluxes behind
    // that need not converge
    for (bool cmfd : {false, true}) {
        for (int i : cmfd ? std::vector<int>{6, 10} : all ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 3}) {
            for (bool gs : {false, true}) {
                v.push_back({cmfd, gs, i});
            }
        }
    }
    return v;
}
static std::string solver(const Config &k, const std::string &sweeper, const char *limits = "k_tol=\"1e-9\" psi_tol=\"1e-8\" max_iter=\"6000\"", const char *more = "")
{
    return fmt("<solver type=\"eigenvalue\" %s cmfd=\"%s\">", limits, k.cmfd ? "t" : "f") + sweeper + "<source scattering=\"P0\"/><cmfd k_tol=\"1e-10\" psi_tol=\"1e-9\" residual_reduction=\"1e-4\" max_iter=\"50\"/>" + more + "</solver>";
}
static std::string moc_sweeper(const Config &k, int quad, double spacing)
{
    return fmt("<sweeper type=\"moc\" n_inner=\"%d\" boundary_update=\"%s\">", k.inner, k.gs ? "gs" : "jacobi") + QUAD[quad] + fmt("<rays spacing=\"%g\"/></sweeper>", spacing);
}
static std::string sn_sweeper(const Config &k, int quad, const char *scheme)
{
    return fmt("<sweeper type=\"sn\" %s n_inner=\"%d\" boundary_update=\"%s\">", scheme, k.inner, k.gs ? "gs" : "jacobi") + QUAD[quad] + "</sweeper>";
}
static bool close(Ctx &c, const Vec &got, const Vec &want, double tol, const std::string &what)
{
    if (!c.expect_int(got.size(), want.size(), what + ": number of values")) {
        return false;
    }
    double scale = 0;
    for (double x : want) {
        scale = std::max(scale, std::abs(x));
    }
    for (size_t i = 0; i < want.size(); i++) {
        if (!(std::abs(got[i] - want[i]) <= tol * scale)) {
            c.fail(what + fmt(" %d: got %.12g, expected %.12g", (int)i, got[i], want[i]));
            return false;
        }
    }
    return true;
}
// What a run says about itself must fit, and what is in the file with it.
static bool sane(Ctx &c, const er::Results &r, int ng, const std::string &at)
{
    if (r.count("died")) {
        return false;
    }
    auto &k = r.at("k"), &ek = r.at("error_k"), &ep = r.at("error_psi");
    if (k.empty() || k.size() != ek.size() || k.size() != ep.size()) {
        c.fail(at + "iterations not recorded");
        return false;
    }
    // the file holds the pin fluxes
    auto &pin = r.at("pin");
    int n     = pin.size() / ng;
    int big   = 0;
    for (int i = 0; i < n; i++) {
        big = pin[i * ng] > pin[big * ng] ? i : big;
    }
    double f0 = r.at("file0")[big] / pin[big * ng];
    for (int i = 0; i < n * ng; i++) {
        if (!c.expect_eq(r.at(fmt("file%d", i % ng))[i / ng], pin[i] * f0, 1e-9 * std::max(1.0, f0), at + fmt("flux of pin %d, group %d in the file", i / ng, i % ng))) {
            return false;
        }
    }
    return true;
}
// Negative Sn fluxes are set to zero; where that is done depends on the way
// there, and balance is lost.
static bool clipped(const er::Results &r)
{
    auto &f = r.at("flux");
    return std::count(f.begin(), f.end(), 0.0);
}
// ---- MoC --------------------------------------------------------------
static const std::vector<cp::PinDef> PIN = {{0, {0, 1, 1}}, {1, {0, 1}}, {1, {1, 1}}, {0, {3, 2, 1}}, {0, {4, 5, 1}}, {1, {6, 7}}};
static const int NX[] = {1, 2, 1, 2, 3, 1}, NY[] = {1, 1, 2, 2, 1, 1}, AX[] = {1, 1, 1, 1, 1, 2}, AY[] = {1, 1, 1, 1, 1, 2};
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {2, 1}};
static const std::vector<double> HZ = {0.5, 0.9, 1.6};
static void set_bc(cp::Problem &p, int bits)
{
    std::string old = ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect");
    auto b = [&](int i) { return bits >> i & 1 ? "vacuum" : "reflect"; };
    p.xml.replace(p.xml.find(old), old.size(), ci::bcs(b(0), b(1), b(2), b(3), "reflect", "reflect"));
}
static cp::Problem problem(int ng, int nx, int ny, int ax, int ay, int groups, const std::vector<int> &pins, int bc)
{
    cp::Problem p;
    p.ng = ng;
    p.nx = nx;
    p.ny = ny;
    p.ax = ax;
    p.ay = ay;
    p.groups = GROUPS[groups];
    int nz = 0;
    for (size_t m = 0; m < p.groups.size(); m++) {
        nz += p.groups[m];
        std::vector<cp::PinDef> v;
        for (int i = 0; i < cp::n_pin(p); i++) {
            v.push_back(PIN[pins[i]]);
        }
        p.pins.push_back(v);
    }
    p.hz.assign(HZ.begin(), HZ.begin() + nz);
    cp::finish(p);
    set_bc(p, bc);
    return p;
}
// power iteration with sweeps by definition
static double moc_reference(const cp::Problem &p, const std::string &core, const std::string &swp, Vec &flux)
{
    auto lib = cp::many(p.ng);
    int ng   = p.ng;
    ref::Layout lay(p);
    ci::Doc doc("<mocc>" + core + swp + "</mocc>");
    CoreMesh mesh(doc.root());
    auto node = doc.root().child("sweeper");
    AngularQuadrature user(node.child("ang_quad"));
    ref::Moc r(lay, mesh, node, user, ng);
    double k = 1.0, last = 0;
    auto fission = [&]() {
        double s = 0;
        for (int i = 0; i < lay.n_reg; i++) {
            int m = 0;
            while (m + 1 < lay.nm && lay.first_reg[m + 1] <= i) {
                m++;
            }
            for (int g = 0; g < ng; g++) {
                s += lib[lay.mat[i]].nf[g] * r.flux[i][g] * lay.area[i] * lay.height[m];
            }
        }
        return s;
    };
    for (int it = 0; it < 3000 && (it < 20 || std::abs(k - last) > 1e-11); it++) {
        double f0 = fission();
        Vec fs(lay.n_reg, 0.0), t(lay.n_reg), q(lay.n_reg);
        for (int i = 0; i < lay.n_reg; i++) {
            for (int g = 0; g < ng; g++) {
                fs[i] += lib[lay.mat[i]].nf[g] * r.flux[i][g] / k;
            }
        }
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < lay.n_reg; i++) {
                auto &m = lib[lay.mat[i]];
                t[i]    = m.tr(g);
                q[i]    = m.chi[g] * fs[i];
                for (int f = 0; f < ng; f++) {
                    q[i] += m.sc[g][f] * r.flux[i][f];
                }
            }
            r.sweep(g, q, t, true);
        }
        last = k;
        k *= fission() / f0;
    }
    flux.clear();
    for (auto &v : r.flux) {
        flux.insert(flux.end(), v.begin(), v.end());
    }
    flux = er::scaled(flux);
    return k;
}
static void judge_moc(Ctx &c, const cp::Problem &p, int set)
{
    int ng    = p.ng;
    double sp = set ? 0.3 : 0.15;
    std::string core = p.xml + ci::lib_tag(cp::many(ng), "lib.xsl");
    Vec want;
    double k = 0;
    auto rr = er::apart(c, [&](er::Results &r) {
        Vec f;
        r["k"]    = {moc_reference(p, core, moc_sweeper({false, true, 1}, set, sp), f)};
        r["flux"] = f;
    });
    if (rr.count("died")) {
        return;
    }
    k    = rr["k"][0];
    want = rr["flux"];
    er::Results first;
    for (auto &cf : configs(c.thorough())) {
        std::string at = cf.name() + ": ";
        c.steps(1);
        auto r = er::eigen(c, core, solver(cf, moc_sweeper(cf, set, sp)));
        if (!sane(c, r, ng, at)) {
            return;
        }
        if (!c.expect(r["k"].size() < 6000, at + "does not converge") || !c.expect_eq(r["k"].back(), k, 1e-4, at + "eigenvalue") || !close(c, r["flux"], want, 5e-4, at + "flux")) {
            return;
        }
        if (first.empty()) {
            first = r;
        }
        if (!c.expect_eq(r["k"].back(), first["k"].back(), 1e-6, at + "eigenvalue, compared with plain iteration") || !close(c, r["flux"], first["flux"], 1e-5, at + "flux, compared with plain iteration") || !close(c, r["power"], first["power"], 1e-5, at + "pin power, compared with plain iteration")) {
            return;
        }
    }
}
static void moc_runs(Ctx &c)
{
    int shape = c.choose(c.thorough() ? 6 : 4);
    int np    = NX[shape] * NY[shape] * AX[shape] * AY[shape];
    std::vector<int> pins;
    for (int i = 0; i < np; i++) {
        pins.push_back(i == 0 ? c.choose(2) : c.choose(np == 2 ? 4 : 2) + (np == 2 ? 0 : 1 + i % 2)); // the first has fuel
    }
    int bc  = c.pick(c.thorough() ? std::vector<int>{0, 1, 4, 5, 6, 9, 10, 15} : std::vector<int>{0, 5, 10});
    int gr  = c.pick(std::vector<int>{0, 3});
    int set = c.choose(2); // groups, quadrature and spacing
    std::string name;
    for (int i : pins) {
        name += fmt(" %d", i);
    }
    if (!c.leaf(fmt("shape %d, pins%s, boundary %d, planes %d, set %d", shape, name.c_str(), bc, gr, set))) {
        return;
    }
    judge_moc(c, problem(set ? 2 : 1, NX[shape], NY[shape], AX[shape], AY[shape], gr, pins, bc), set);
}
// ---- Sn ---------------------------------------------------------------
static const std::vector<std::vector<int>> SN_GROUPS = {{1}, {1, 1}, {2, 1}, {2}};
static box::Box make(int ng, int nx, int ny, int groups, const std::vector<int> &mat, double pitch)
{
    static const double H[] = {0.6, 1.3, 0.9, 2.0};
    box::Box b;
    b.ng     = ng;
    b.nx     = nx;
    b.ny     = ny;
    b.pitch  = pitch;
    b.groups = SN_GROUPS[groups];
    int z    = 0, at = 0;
    for (size_t g = 0; g < b.groups.size(); g++) {
        b.mat.push_back({});
        for (int i = 0; i < nx * ny; i++) {
            b.mat.back().push_back(mat[at++ % mat.size()]);
        }
        for (int p = 0; p < b.groups[g]; p++) {
            b.hz.push_back(H[z++]);
        }
    }
    return b;
}
// power iteration with diamond differences, step characteristics axially if wanted
static double sn_reference(const box::Box &b, const std::string &quad_xml, bool sc, Vec &result)
{
    auto lib = cp::many(b.ng);
    int ng = b.ng, nx = b.nx, ny = b.ny, nz = b.nz(), n = b.n(), np = nx * ny;
    ci::Doc doc("<mocc>" + quad_xml + "</mocc>");
    AngularQuadrature quad(doc.root().child("ang_quad"));
    int na = quad.ndir();
    auto mirror = [&](int a, int axis) {
        for (int m = 0; m < na; m++) {
            double s[3] = {1, 1, 1};
            s[axis]     = -1;
            if (std::abs(quad[m].ox - s[0] * quad[a].ox) + std::abs(quad[m].oy - s[1] * quad[a].oy) + std::abs(quad[m].oz - s[2] * quad[a].oz) < 1e-9) {
                return m;
            }
        }
        return -1;
    };
    std::vector<std::array<int, 3>> mir(na);
    for (int a = 0; a < na; a++) {
        mir[a] = {{mirror(a, 0), mirror(a, 1), mirror(a, 2)}};
    }
    std::vector<Vec> flux(ng, Vec(n, 1.0));
    // outgoing face fluxes, kept for the reflections
    std::vector<std::vector<std::array<Vec, 3>>> face(ng, std::vector<std::array<Vec, 3>>(na, {{Vec(ny * nz, 0.05), Vec(nx * nz, 0.05), Vec(np, 0.05)}}));
    double k = 1, last = 0;
    auto fission = [&]() {
        double s = 0;
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                s += lib[b.at(i)].nf[g] * flux[g][i] * b.vol(i);
            }
        }
        return s;
    };
    for (int it = 0; it < 5000 && (it < 20 || std::abs(k - last) > 1e-12); it++) {
        double f0 = fission();
        Vec fs(n, 0.0);
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                fs[i] += lib[b.at(i)].nf[g] * flux[g][i] / k;
            }
        }
        for (int g = 0; g < ng; g++) {
            Vec q(n), phi(n, 0.0);
            for (int i = 0; i < n; i++) {
                auto &m = lib[b.at(i)];
                q[i]    = m.chi[g] * fs[i];
                for (int f = 0; f < ng; f++) {
                    q[i] += m.sc[g][f] * flux[f][i];
                }
            }
            for (int a = 0; a < na; a++) {
                auto d = quad[a];
                double o[3] = {d.ox, d.oy, d.oz};
                Vec in[3];
                for (int x = 0; x < 3; x++) {
                    bool vac = b.bc >> (2 * x + (o[x] > 0 ? 0 : 1)) & 1;
                    in[x]    = face[g][mir[a][x]][x];
                    if (vac) {
                        std::fill(in[x].begin(), in[x].end(), 0.0);
                    }
                }
                for (int zz = 0; zz < nz; zz++) {
                    int z = o[2] > 0 ? zz : nz - 1 - zz;
                    for (int yy = 0; yy < ny; yy++) {
                        int y = o[1] > 0 ? yy : ny - 1 - yy;
                        for (int xx = 0; xx < nx; xx++) {
                            int x = o[0] > 0 ? xx : nx - 1 - xx;
                            int i = z * np + y * nx + x;
                            double &px = in[0][ny * z + y], &py = in[1][nx * z + x], &pz = in[2][nx * y + x];
                            double ux = std::abs(o[0]) / b.pitch, uy = std::abs(o[1]) / b.pitch, uz = std::abs(o[2]) / b.hz[z], t = lib[b.at(i)].tr(g);
                            double rho = 0.5;
                            if (sc) {
                                double tau = t / uz;
                                rho        = 1 / tau - 1 / std::expm1(tau);
                            }
                            double psi = (q[i] / FOUR_PI + 2 * ux * px + 2 * uy * py + uz / (1 - rho) * pz) / (2 * ux + 2 * uy + uz / (1 - rho) + t);
                            phi[i] += psi * d.weight * FOUR_PI / 8;
                            px = 2 * psi - px;
                            py = 2 * psi - py;
                            pz = (psi - rho * pz) / (1 - rho);
                        }
                    }
                }
                for (int x = 0; x < 3; x++) {
                    face[g][a][x] = in[x];
                }
            }
            for (double &v : phi) {
                v = std::max(v, 0.0); // negative fluxes do not stay
            }
            flux[g] = phi;
        }
        last = k;
        k *= fission() / f0;
    }
    result.clear();
    for (int i = 0; i < n; i++) {
        for (int g = 0; g < ng; g++) {
            result.push_back(flux[g][i]);
        }
    }
    result = er::scaled(result);
    return k;
}
static void judge_sn(Ctx &c, const box::Box &b, int set)
{
    std::string core   = b.xml() + ci::lib_tag(cp::many(b.ng), "lib.xsl");
    const char *scheme = set ? "equation=\"dd\" axial=\"dd\"" : "equation=\"dd\" axial=\"sc\"";
    auto rr = er::apart(c, [&](er::Results &r) {
        Vec f;
        r["k"]    = {sn_reference(b, QUAD[set], !set, f)};
        r["flux"] = f;
    });
    if (rr.count("died")) {
        return;
    }
    for (auto &cf : configs(c.thorough())) {
        std::string at = cf.name() + ": ";
        c.steps(1);
        auto r = er::eigen(c, core, solver(cf, sn_sweeper(cf, set, scheme)));
        if (!sane(c, r, b.ng, at)) {
            return;
        }
        if (clipped(r)) {
            continue;
        }
        if (!c.expect(r["k"].size() < 6000, at + "does not converge") || !c.expect_eq(r["k"].back(), rr["k"][0], 1e-5, at + "eigenvalue") || !close(c, r["flux"], rr["flux"], 1e-4, at + "flux")) {
            return;
        }
    }
}
static void sn_runs(Ctx &c)
{
    int shape = c.choose(5);
    static const int SX[] = {1, 2, 1, 2, 3}, SY[] = {1, 1, 2, 2, 2}, SG[] = {1, 0, 2, 1, 3};
    int n     = SX[shape] * SY[shape] * (SG[shape] ? SN_GROUPS[SG[shape]].size() : 1);
    std::vector<int> mat{0};
    std::string name;
    for (int i = 1; i < n; i++) {
        mat.push_back(n <= 2 ? c.choose(4) : n <= 4 || c.thorough() ? c.choose(2) + i % 3 : (i * 3 + c.choose(2)) % 4);
    }
    for (int i : mat) {
        name += fmt(" %d", i);
    }
    int bc = c.pick(c.thorough() ? std::vector<int>{0, 63, 0x15, 0x2a, 0x0c, 0x30, 0x03} : std::vector<int>{0, 0x15, 0x2a});
    int set = c.choose(2);
    if (!c.leaf(fmt("shape %d, materials%s, boundary %d, set %d", shape, name.c_str(), bc, set))) {
        return;
    }
    auto b = make(set ? 2 : 1, SX[shape], SY[shape], SG[shape], mat, set ? 1.1 : 0.7);
    b.bc   = bc;
    if (SG[shape] == 0) {
        b.bc &= 15; // flat
    }
    judge_sn(c, b, set);
}
// many groups and materials
static void many(Ctx &c)
{
    int ng  = c.pick(std::vector<int>{4, 7});
    int moc = c.choose(2), bc = c.pick(std::vector<int>{0, 10}), order = c.choose(4), set = c.choose(2);
    if (!c.leaf(fmt("%s, %d groups, order %d, boundary %d, set %d", moc ? "MoC" : "Sn", ng, order, bc, set))) {
        return;
    }
    static const std::vector<std::vector<int>> PINS = {{0, 3, 4, 5}, {5, 4, 3, 0}, {4, 0, 5, 3}, {3, 5, 2, 4}};
    if (moc) {
        judge_moc(c, problem(ng, 2, 2, 1, 1, set ? 0 : 3, PINS[order], bc), set);
    } else {
        std::vector<int> mat;
        for (int i = 0; i < 16; i++) {
            mat.push_back((i * (2 * order + 1) + i / 8) % 8);
        }
        auto b = make(ng, 4, 2, set ? 0 : 1, mat, 0.7);
        b.bc   = bc;
        judge_sn(c, b, set);
    }
}
// ---- homogeneous and reflected: known by hand --------------------------
static void infinite(Ctx &c)
{
    int mat   = c.pick(std::vector<int>{0, 3});
    int ng    = c.pick(std::vector<int>{1, 2, 3, 7});
    int type  = c.choose(5);
    int shape = c.choose(4);
    int cmfd  = c.choose(2);
    int inner = c.choose(2) + (cmfd ? 7 : 1);
    static const char *SCHEME[] = {"", "equation=\"dd\" axial=\"dd\"", "equation=\"dd\" axial=\"sc\"", "equation=\"cdd\" axial=\"dd\"", "equation=\"cdd\" axial=\"fw\""};
    if (!c.leaf(fmt("material %d, %d groups, %s, shape %d, %s, %d inner", mat, ng, type ? SCHEME[type] : "MoC", shape, cmfd ? "CMFD" : "no CMFD", inner))) {
        return;
    }
    static const int BX[] = {1, 2, 3, 2}, BY[] = {1, 1, 2, 2}, BG[] = {0, 1, 2, 3};
    auto lib = cp::many(ng);
    auto b   = make(ng, BX[shape], BY[shape], BG[shape], {mat}, 1.3);
    std::string core = b.xml() + ci::lib_tag(lib, "lib.xsl");
    Config cf{(bool)cmfd, true, inner};
    auto r = er::eigen(c, core, solver(cf, type ? sn_sweeper(cf, 0, SCHEME[type]) : moc_sweeper(cf, 0, 0.2)));
    if (!sane(c, r, ng, "")) {
        return;
    }
    // spectrum by iteration: (t - S) phi = chi
    auto &m = lib[mat];
    Vec phi(ng, 1.0);
    for (int it = 0; it < 20000; it++) {
        for (int g = 0; g < ng; g++) {
            double s = m.chi[g];
            for (int f = 0; f < ng; f++) {
                s += f == g ? 0.0 : m.sc[g][f] * phi[f];
            }
            phi[g] = s / (m.tr(g) - m.sc[g][g]);
        }
    }
    double k = 0;
    for (int g = 0; g < ng; g++) {
        k += m.nf[g] * phi[g];
    }
    c.expect_eq(r["k"].back(), k, 1e-6, "eigenvalue");
    Vec want;
    for (size_t i = 0; i < r["flux"].size(); i++) {
        want.push_back(phi[i % ng]);
    }
    close(c, r["flux"], er::scaled(want), 1e-5, "flux");
}
// ---- mirror images and rotations ---------------------------------------
struct Sym {
    int nx, ny, s;
    bool turned() const
    {
        return s & 4;
    }
    // where (x, y) goes
    std::pair<int, int> to(int x, int y) const
    {
        if (s & 1) {
            x = nx - 1 - x;
        }
        if (s & 2) {
            y = ny - 1 - y;
        }
        return turned() ? std::make_pair(y, x) : std::make_pair(x, y);
    }
    int cell(int i) const
    {
        auto p = to(i % nx, i / nx);
        return p.second * (turned() ? ny : nx) + p.first;
    }
    int bc(int b) const
    {
        int w = b & 1, e = b >> 1 & 1, so = b >> 2 & 1, n = b >> 3 & 1;
        if (s & 1) {
            std::swap(w, e);
        }
        if (s & 2) {
            std::swap(so, n);
        }
        if (turned()) {
            std::swap(w, so);
            std::swap(e, n);
        }
        return w | e << 1 | so << 2 | n << 3 | (b & 48);
    }
};
static void symmetry(Ctx &c)
{
    int shape = c.choose(4);
    static const int SX[] = {2, 2, 3, 3}, SY[] = {1, 2, 1, 2};
    int nx = SX[shape], ny = SY[shape], n = nx * ny;
    int moc = c.choose(2);
    std::vector<int> pins{0};
    std::string name;
    for (int i = 1; i < n; i++) {
        pins.push_back(n <= 2 ? c.choose(4) : n <= 4 ? c.choose(2) + i % 3 : (i * 3 + c.choose(2)) % 4);
    }
    for (int i : pins) {
        name += fmt(" %d", i);
    }
    int bc   = c.pick(std::vector<int>{1, 6});
    int cmfd = c.thorough() ? c.choose(2) : 1;
    if (!c.leaf(fmt("%d by %d, %s, pins%s, boundary %d, %s", nx, ny, moc ? "MoC" : "Sn", name.c_str(), bc, cmfd ? "CMFD" : "no CMFD"))) {
        return;
    }
    // pins that look the same from all sides
    static const std::vector<cp::PinDef> ROUND = {{0, {0, 1, 1}}, {0, {1, 1, 1}}, {0, {1, 2, 1}}, {0, {3, 2, 1}}};
    er::Results base;
    for (int s = 0; s < 8; s++) {
        Sym y{nx, ny, s};
        int mx = y.turned() ? ny : nx, my = y.turned() ? nx : ny;
        std::vector<int> moved(n);
        for (int i = 0; i < n; i++) {
            moved[y.cell(i)] = pins[i];
        }
        std::string core, swp;
        Config cf{(bool)cmfd, true, cmfd ? 6 : 1};
        if (moc) {
            cp::Problem p;
            p.ng = 2;
            p.nx = mx;
            p.ny = my;
            p.groups = {1};
            p.hz     = {1.0};
            p.pins.push_back({});
            for (int i : moved) {
                p.pins[0].push_back(ROUND[i]);
            }
            cp::finish(p);
            set_bc(p, y.bc(bc));
            core = p.xml;
            swp  = moc_sweeper(cf, 1, 0.11);
        } else {
            auto b = make(2, mx, my, 1, {0}, 1.2);
            b.mat[0] = b.mat[1] = moved;
            b.mat[1][y.cell(0)] = 1;
            b.bc                = y.bc(bc) | 16;
            core = b.xml();
            swp  = sn_sweeper(cf, 1, "equation=\"dd\" axial=\"dd\"");
        }
        core += ci::lib_tag(cp::many(2), "lib.xsl");
        c.steps(1);
        auto r = er::eigen(c, core, solver(cf, swp));
        std::string at = fmt("image %d: ", s);
        if (!sane(c, r, 2, at)) {
            return;
        }
        if (s == 0) {
            base = r;
        }
        if (clipped(r)) {
            return;
        }
        double tol = moc ? 1e-5 : 1e-7;
        if (!c.expect_eq(r["k"].back(), base["k"].back(), tol, at + "eigenvalue")) {
            return;
        }
        for (const char *what : {"pin", "power"}) {
            auto &v = r[what];
            Vec back(v.size());
            int w = what[1] == 'i' ? 2 : 1;
            for (size_t j = 0; j < v.size() / w; j++) {
                int z = j / n;
                for (int g = 0; g < w; g++) {
                    back[j * w + g] = v[(z * n + y.cell(j % n)) * w + g];
                }
            }
            if (!close(c, back, base[what], 10 * tol, at + what)) {
                return;
            }
        }
    }
}
// ---- when runs stop ----------------------------------------------------
static void stopping(Ctx &c)
{
    int moc  = c.choose(2);
    int cmfd = c.choose(2);
    double kt = c.pick(std::vector<double>{1e-2, 1e-4, 1e-6});
    double pt = c.pick(std::vector<double>{1e-2, 1e-4, 1e-6});
    int max   = c.pick(std::vector<int>{1, 2, 5, 9, 400});
    int min   = c.pick(std::vector<int>{-1, 0, 1, 3, 7, 9, 30});
    int dump  = c.choose(3);
    if (min > max) {
        dump = 0;
    }
    if (!c.leaf(fmt("%s, %s, tolerances %g %g, at most %d, at least %d, dump %d", moc ? "MoC" : "Sn", cmfd ? "CMFD" : "no CMFD", kt, pt, max, min, dump))) {
        return;
    }
    auto b = make(2, 2, 2, 0, {0, 1, 3, 1}, 1.2);
    b.bc   = 5;
    std::string core = b.xml() + ci::lib_tag(cp::many(2), "lib.xsl");
    Config cf{(bool)cmfd, true, cmfd ? 6 : 1};
    std::string limits = fmt("k_tol=\"%g\" psi_tol=\"%g\" max_iter=\"%d\"", kt, pt, max);
    if (min >= 0) {
        limits += fmt(" min_iter=\"%d\"", min);
    }
    static const std::vector<std::vector<int>> DUMP = {{}, {1, 3}, {2, 4, 1, 7}};
    for (int i = 0; i < 12; i++) {
        unlink(fmt("run_iter_%d.h5", i).c_str());
    }
    std::string more = DUMP[dump].empty() ? "" : "<dump_iterations>";
    for (int i : DUMP[dump]) {
        more += fmt(" %d", i);
    }
    more += DUMP[dump].empty() ? "" : "</dump_iterations>";
    bool bad = min > max;
    global::case_name = "run";
    auto r = er::eigen(c, core, solver(cf, moc ? moc_sweeper(cf, 0, 0.3) : sn_sweeper(cf, 0, ""), limits.c_str(), more.c_str()), bad);
    if (bad) {
        c.expect(r.count("died") && !r.count("signal"), "more iterations at least than at most are accepted");
        return;
    }
    if (!sane(c, r, 2, "")) {
        return;
    }
    auto &k = r["k"], &ek = r["error_k"], &ep = r["error_psi"];
    int n = k.size();
    c.expect(n <= max, fmt("%d iterations", n));
    c.expect(n >= std::min(max, min), fmt("%d iterations", n));
    for (int i = 0; i < n; i++) {
        // acceleration changes k between the sweeps
        if (!cmfd) {
            c.expect_eq(ek[i], std::abs(k[i] - (i ? k[i - 1] : 1.0)), 1e-12, fmt("error of k in iteration %d", i + 1));
        }
        bool done = ek[i] < kt && ep[i] < pt;
        if (i < n - 1) {
            // at least min iterations, or one more
            c.expect(!done || i + 1 <= min, fmt("goes on after iteration %d", i + 1));
        } else {
            c.expect(done || n == max, fmt("ends unconverged after iteration %d", i + 1));
        }
    }
    for (int i = 1; i < 12; i++) {
        bool want = i <= n && std::count(DUMP[dump].begin(), DUMP[dump].end(), i), have = access(fmt("run_iter_%d.h5", i).c_str(), R_OK) == 0;
        c.expect(have == want, fmt("iteration %d %s", i, have ? "dumped" : "not dumped"));
    }
}
// What is reported for each iteration, from the fluxes dumped after them.
static void errors(Ctx &c)
{
    int ng    = c.pick(std::vector<int>{1, 2, 3, 7});
    int shape = c.choose(3);
    std::vector<int> mat{0};
    std::string name;
    for (int i = 1; i < 4; i++) {
        mat.push_back(c.choose(i < 3 || c.thorough() ? 4 : 2));
        name += fmt(" %d", mat.back());
    }
    int bc    = c.pick(std::vector<int>{0, 0x15, 0x2a});
    int inner = 1 + c.choose(2);
    int moc   = c.choose(2);
    if (!c.leaf(fmt("%s, %d groups, shape %d, materials%s, boundary %d, %d inner", moc ? "MoC" : "Sn", ng, shape, name.c_str(), bc, inner))) {
        return;
    }
    static const int SX[] = {4, 2, 2}, SY[] = {1, 2, 1}, SG[] = {0, 0, 1};
    auto b   = make(ng, SX[shape], SY[shape], SG[shape], mat, 1.2);
    b.bc     = SG[shape] && !moc ? bc : bc & 15;
    auto lib = cp::many(ng);
    int n    = b.n();
    Config cf{false, true, inner};
    const int N       = 9;
    global::case_name = "run";
    auto r = er::eigen(c, b.xml() + ci::lib_tag(lib, "lib.xsl"), solver(cf, moc ? moc_sweeper(cf, 0, 0.3) : sn_sweeper(cf, 0, ""), "k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"9\"", "<dump_iterations>9 8 7 6 5 4 3 2 1</dump_iterations>"));
    if (!sane(c, r, ng, "") || !c.expect(r["k"].size() <= N, "too many iterations")) {
        return;
    }
    int fissile = 0;
    for (int i = 0; i < n; i++) {
        fissile += b.at(i) == 0 || b.at(i) == 3;
    }
    auto source = [&](const std::vector<Vec> &f) {
        Vec v(n, 0.0);
        double sum = 0;
        int lit    = 0;
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                v[i] += lib[b.at(i)].nf[g] * f[g][i];
            }
            sum += v[i];
            lit += v[i] > 0;
        }
        for (double &x : v) {
            x *= lit / sum;
        }
        return v;
    };
    Vec last = source(std::vector<Vec>(ng, Vec(n, 1.0)));
    double k = 1.0;
    for (size_t it = 0; it < r["k"].size(); it++) {
        std::vector<Vec> f;
        std::string file = fmt("run_iter_%d.h5", (int)it + 1);
        if (!c.expect(access(file.c_str(), R_OK) == 0, "no dump of iteration " + std::to_string(it + 1))) {
            return;
        }
        {
            H5Node in(file, H5Access::READ);
            for (int g = 0; g < ng; g++) {
                ArrayB1 v;
                in.read_1d(fmt("flux/%03d", g + 1), v);
                f.push_back(Vec(v.begin(), v.end()));
            }
            Vec ks;
            in.read("convergence/k", ks);
            c.expect_int(ks.size(), it + 1, "iterations in the dump of iteration " + std::to_string(it + 1));
            c.expect(!ks.empty() && ks.back() == r["k"][it], "eigenvalue in the dump of iteration " + std::to_string(it + 1));
        }
        unlink(file.c_str());
        auto now = source(f);
        double e = 0;
        for (int i = 0; i < n; i++) {
            e += std::pow(now[i] - last[i], 2);
        }
        c.expect_eq(r["error_psi"][it], std::sqrt(e / fissile), 1e-10, fmt("error of the fission source in iteration %d", (int)it + 1));
        c.expect_eq(r["error_k"][it], std::abs(r["k"][it] - k), 1e-12, fmt("error of k in iteration %d", (int)it + 1));
        last = now;
        k    = r["k"][it];
    }
}
static void rejected(Ctx &c)
{
    static const char *const K[] = {"k_tol=\"1e-3\"", "", "k_tol=\"0\"", "k_tol=\"-1e-5\""}, *const P[] = {"psi_tol=\"1e-3\"", "", "psi_tol=\"0\"", "psi_tol=\"-1e-5\""};
    static const char *const M[] = {"max_iter=\"5\"", "", "max_iter=\"-1\""}, *const L[] = {"", "min_iter=\"2\"", "min_iter=\"5\"", "min_iter=\"-1\"", "min_iter=\"6\""};
    int k = c.choose(4), p = c.choose(4), m = c.choose(3), l = c.choose(5), moc = c.choose(2), cmfd = c.choose(2);
    if (!c.leaf(fmt("%s %s %s %s %s %d", K[k], P[p], M[m], L[l], moc ? "MoC" : "Sn", cmfd))) {
        return;
    }
    auto b = make(1, 1, 1, 0, {0}, 1.2);
    Config cf{(bool)cmfd, true, 3};
    bool bad = k || p || m || l > 2;
    auto r   = er::eigen(c, b.xml() + ci::lib_tag(cp::many(1), "lib.xsl"), solver(cf, moc ? moc_sweeper(cf, 0, 0.3) : sn_sweeper(cf, 0, ""), fmt("%s %s %s %s", K[k], P[p], M[m], L[l]).c_str()), bad);
    c.expect(!bad || (r.count("died") && !r.count("signal")), "wrong limits accepted");
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N05",
                     {{"moc", moc_runs, 300, "cores of up to 4 pins with every way to iterate, against power iteration with sweeps by definition"},
                      {"sn", sn_runs, 300, "boxes of up to 12 cells with every way to iterate, against power iteration by hand"},
                      {"many", many, 300, "4 and 7 groups, 8 materials, against power iteration by hand"},
                      {"infinite", infinite, 120, "homogeneous reflected boxes, all sweepers, against the infinite medium"},
                      {"symmetry", symmetry, 300, "all 8 mirror images and rotations of cores up to 3x2"},
                      {"stopping", stopping, 120, "all combinations of tolerances, limits and dumps"},
                      {"errors", errors, 120, "4-cell problems: the errors reported for every iteration, from dumps"},
                      {"rejected", rejected, 120, "all combinations of right, missing and wrong limits"}});
}
