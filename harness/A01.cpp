// A01: angular quadratures are symmetric, normalised and survive storage.
#include "mc.hpp"
#include "pugixml.hpp"
#include "util/h5file.hpp"
#include "core/angular_quadrature.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static pugi::xml_document g_doc;
static pugi::xml_node xml(const std::string &s)
{
    g_doc.load_string(s.c_str());
    return g_doc.first_child();
}
static bool make(const std::string &s, AngularQuadrature *&out)
{
    out = nullptr;
    try {
        out = new AngularQuadrature(xml(s));
        return true;
    } catch (const mocc::Exception &) {
        return false;
    }
}

static const int SX[8] = {1, -1, -1, 1, 1, -1, -1, 1};
static const int SY[8] = {1, 1, -1, -1, 1, 1, -1, -1};
static const int SZ[8] = {1, 1, 1, 1, -1, -1, -1, -1};

// Facts that hold for any quadrature
static void invariants(Ctx &c, const AngularQuadrature &q, bool check_weights = true)
{
    int n = q.ndir_oct();
    if (!c.expect(n > 0 && q.ndir() == 8 * n, fmt("%d angles for %d per octant", q.ndir(), n))) {
        return;
    }
    c.expect(q.end() - q.begin() == 8 * n, "iterators do not span the set");
    for (int o = 0; o < 8; o++) {
        double w = 0;
        c.expect(q.octant(o + 1) - q.begin() == o * n, "octant iterator");
        for (int i = 0; i < n; i++) {
            const Angle &a = q[o * n + i], &b = q[i];
            w += a.weight;
            c.expect(a.weight > 0 && std::isfinite(a.weight), fmt("weight %g", a.weight));
            c.expect_eq(a.ox * a.ox + a.oy * a.oy + a.oz * a.oz, 1.0, 2e-6, "unit length");
            c.expect(a.ox * SX[o] > 0 && a.oy * SY[o] > 0 && a.oz * SZ[o] > 0, fmt("angle %d is not in octant %d", o * n + i, o + 1));
            c.expect_eq(a.ox, SX[o] * b.ox, 1e-13, "mirror image x");
            c.expect_eq(a.oy, SY[o] * b.oy, 1e-13, "mirror image y");
            c.expect_eq(a.oz, SZ[o] * b.oz, 1e-13, "mirror image z");
            c.expect(a.weight == b.weight, "mirror image weight");
            // spherical angles describe the same direction
            c.expect_eq(std::sin(a.theta) * std::cos(a.alpha), a.ox, 2e-6, "alpha/theta x");
            c.expect_eq(std::sin(a.theta) * std::sin(a.alpha), a.oy, 2e-6, "alpha/theta y");
            c.expect_eq(std::cos(a.theta), a.oz, 1e-12, "alpha/theta z");
            c.expect_rel(a.rsintheta, 1.0 / std::sqrt(1 - a.oz * a.oz), 1e-12, "reciprocal sine");
            c.expect(a.alpha > 0 && a.alpha < 2 * M_PI, "alpha outside (0,2pi)");
        }
        if (check_weights) {
            c.expect_eq(w, 1.0, 1e-12, fmt("weight sum in octant %d", o + 1));
        }
    }
    auto flip = [&](int i, int j, int fx, int fy, int fz, const char *what) {
        if (!c.expect(j >= 0 && j < 8 * n, fmt("%s of %d is %d", what, i, j))) {
            return;
        }
        bool ok = std::fabs(q[j].ox - fx * q[i].ox) < 1e-12 && std::fabs(q[j].oy - fy * q[i].oy) < 1e-12 && std::fabs(q[j].oz - fz * q[i].oz) < 1e-12 &&
                  q[j].weight == q[i].weight;
        c.expect(ok, fmt("%s of angle %d is %d: (%g %g %g) for (%g %g %g)", what, i, j, q[j].ox, q[j].oy, q[j].oz, q[i].ox, q[i].oy, q[i].oz));
    };
    for (int i = 0; i < 8 * n; i++) {
        flip(i, q.reflect(i, Normal::X_NORM), -1, 1, 1, "x reflection");
        flip(i, q.reflect(i, Normal::Y_NORM), 1, -1, 1, "y reflection");
        flip(i, q.reflect(i, Normal::Z_NORM), 1, 1, -1, "z reflection");
        flip(i, q.reflect(i, Surface::EAST), -1, 1, 1, "east reflection");
        flip(i, q.reflect(i, Surface::WEST), -1, 1, 1, "west reflection");
        flip(i, q.reflect(i, Surface::NORTH), 1, -1, 1, "north reflection");
        flip(i, q.reflect(i, Surface::SOUTH), 1, -1, 1, "south reflection");
        flip(i, q.reflect(i, Surface::TOP), 1, 1, -1, "top reflection");
        flip(i, q.reflect(i, Surface::BOTTOM), 1, 1, -1, "bottom reflection");
        flip(i, q.reverse(i, 3), -1, -1, -1, "reversal in space");
        flip(i, q.reverse(i), -1, -1, q[i].oz > 0 ? 1 : -1, "reversal in the plane");
        const Angle &a = q[i];
        c.expect(a.upwind_surface(Normal::X_NORM) == (a.ox > 0 ? Surface::WEST : Surface::EAST), "upwind x");
        c.expect(a.upwind_surface(Normal::Y_NORM) == (a.oy > 0 ? Surface::SOUTH : Surface::NORTH), "upwind y");
        c.expect(a.upwind_surface(Normal::Z_NORM) == (a.oz > 0 ? Surface::BOTTOM : Surface::TOP), "upwind z");
        for (Surface s : {Surface::EAST, Surface::WEST, Surface::NORTH, Surface::SOUTH, Surface::TOP, Surface::BOTTOM}) {
            Direction d = a;
            d.reflect(s);
            const Angle &e = q[q.reflect(i, s)];
            c.expect(std::fabs(d.ox - e.ox) + std::fabs(d.oy - e.oy) + std::fabs(d.oz - e.oz) < 1e-12, "reflected direction");
            c.expect(std::fabs(std::remainder(d.alpha - e.alpha, 2 * M_PI)) < 2e-6 && std::fabs(d.theta - e.theta) < 1e-9, "angles of the reflected direction");
        }
        for (int o = 1; o <= 8; o++) {
            Angle e = a.to_octant(o);
            c.expect(e.ox == SX[o - 1] * std::fabs(a.ox) && e.oy == SY[o - 1] * std::fabs(a.oy) && e.oz == SZ[o - 1] * std::fabs(a.oz) && e.weight == a.weight,
                     "octant image");
        }
    }
    c.state((uint64_t)n * 31 + (uint64_t)(q[0].ox * 1e9) * 131 + (uint64_t)(q[n - 1].weight * 1e9));
}

static void same(Ctx &c, const AngularQuadrature &a, const AngularQuadrature &b, const std::string &what)
{
    if (!c.expect(a.ndir() == b.ndir() && a.ndir_oct() == b.ndir_oct(), what + ": size differs")) {
        return;
    }
    for (int i = 0; i < a.ndir(); i++) {
        bool ok = a[i].ox == b[i].ox && a[i].oy == b[i].oy && a[i].oz == b[i].oz && a[i].weight == b[i].weight && a[i].alpha == b[i].alpha && a[i].theta == b[i].theta;
        c.expect(ok, what + fmt(": angle %d differs", i));
        c.expect_rel(a[i].rsintheta, b[i].rsintheta, 1e-12, what + ": reciprocal sine");
    }
    c.expect(a == b && !(a != b), what + ": not reported as equal");
}

static void roundtrip(Ctx &c, const AngularQuadrature &q)
{
    {
        H5Node f("q.h5", H5Access::WRITE);
        q.output(f);
    }
    H5Node f("q.h5", H5Access::READ);
    AngularQuadrature r(f);
    same(c, q, r, "read back");
    // and a second generation
    {
        H5Node g("q2.h5", H5Access::WRITE);
        r.output(g);
    }
    H5Node g("q2.h5", H5Access::READ);
    AngularQuadrature s(g);
    same(c, q, s, "read back twice");
    AngularQuadrature t(r);
    t = q;
    same(c, q, t, "assigned");
    invariants(c, t);
    unlink("q.h5");
    unlink("q2.h5");
}

// ---- level symmetric --------------------------------------------------
static const double MU1[8] = {0.577350269189626, 0.350021, 0.266636, 0.218218218218218, 0.192450089729876, 0.174077655955702, 0.161575, 0.149071198499989};
// published weights, by the level indices (sorted) of the direction
struct Orbit {
    int a, b, c;
    double w;
};
static const std::vector<std::vector<Orbit>> ORB = {
    {{0, 0, 0, 1.0}},
    {{0, 0, 1, 1.0 / 3}},
    {{0, 0, 2, 0.1761262}, {0, 1, 1, 0.1572071}},
    {{0, 0, 3, 0.1209876}, {0, 1, 2, 0.0907408}, {1, 1, 1, 0.0925925}},
    {{0, 0, 4, 0.0893043}, {0, 1, 3, 0.0725281}, {0, 2, 2, 0.0450455}, {1, 1, 2, 0.0539274}},
    {{0, 0, 5, 0.0707734}, {0, 1, 4, 0.0558760}, {0, 2, 3, 0.0373436}, {1, 1, 3, 0.0502654}, {1, 2, 2, 0.0258553}},
    {{0, 0, 6, 0.0580031}, {0, 1, 5, 0.0488943}, {0, 2, 4, 0.0228095}, {0, 3, 3, 0.0393955}, {1, 1, 4, 0.0380920}, {1, 2, 3, 0.0258382}, {2, 2, 2, 0.0082759}},
    {{0, 0, 7, 0.0489967}, {0, 1, 6, 0.0413235}, {0, 2, 5, 0.0203158}, {0, 3, 4, 0.0265468}, {1, 1, 5, 0.0378883}, {1, 2, 4, 0.0135404}, {1, 3, 3, 0.0326129}, {2, 2, 3, 0.0103825}}};

static void level_symmetric(Ctx &c)
{
    int order = c.choose(46) - 6;
    int alias = c.choose(2);
    if (!c.leaf(fmt("%s order %d", alias ? "level-symmetric" : "ls", order))) {
        return;
    }
    AngularQuadrature *q;
    bool ok   = make(fmt("<ang_quad type=\"%s\" order=\"%d\"/>", alias ? "level-symmetric" : "ls", order), q);
    bool want = order >= 2 && order <= 16 && order % 2 == 0;
    if (!c.expect(ok == want, ok ? "unsupported order accepted" : "supported order rejected") || !ok) {
        return;
    }
    invariants(c, *q);
    int n = order / 2;
    if (!c.expect(q->ndir_oct() == n * (n + 1) / 2, fmt("%d angles per octant", q->ndir_oct()))) {
        return;
    }
    // expected directions and weights as a multiset
    std::vector<double> mu(n);
    for (int i = 0; i < n; i++) {
        mu[i] = std::sqrt(MU1[n - 1] * MU1[n - 1] + (n > 1 ? i * (1 - 3 * MU1[n - 1] * MU1[n - 1]) / (n - 1) : 0));
    }
    double tot = 0;
    std::vector<std::array<double, 4>> ref;
    for (auto &o : ORB[n - 1]) {
        int p[3] = {o.a, o.b, o.c};
        std::sort(p, p + 3);
        do {
            ref.push_back({{mu[p[0]], mu[p[1]], mu[p[2]], o.w}});
            tot += o.w;
        } while (std::next_permutation(p, p + 3));
    }
    std::vector<char> used(ref.size());
    double m2[3] = {0, 0, 0};
    for (int i = 0; i < q->ndir_oct(); i++) {
        const Angle &a = (*q)[i];
        m2[0] += a.weight * a.ox * a.ox;
        m2[1] += a.weight * a.oy * a.oy;
        m2[2] += a.weight * a.oz * a.oz;
        bool hit = false;
        for (size_t k = 0; k < ref.size() && !hit; k++) {
            if (!used[k] && std::fabs(ref[k][0] - a.ox) < 1e-6 && std::fabs(ref[k][1] - a.oy) < 1e-6 && std::fabs(ref[k][2] - a.oz) < 1e-6) {
                used[k] = hit = true;
                c.expect_eq(a.weight, ref[k][3] / tot, 1e-6, fmt("weight of direction (%g %g %g)", a.ox, a.oy, a.oz));
            }
        }
        c.expect(hit, fmt("(%g %g %g) is not a standard direction", a.ox, a.oy, a.oz));
    }
    for (int d = 0; d < 3; d++) {
        c.expect_eq(m2[d], 1.0 / 3, 1e-9, "second moment");
    }
    roundtrip(c, *q);
    // weights are not touched by an update
    AngularQuadrature u(*q);
    u.update_weights();
    same(c, u, *q, "update without modification");
    delete q;
}

// ---- product sets -----------------------------------------------------
static void gauss(int n2, std::vector<double> &x, std::vector<double> &w)
{
    // positive nodes of the n2-point rule, increasing theta means decreasing x
    x.clear();
    w.clear();
    for (int i = 0; i < n2 / 2; i++) {
        long double z = std::cos(M_PI * (i + 0.75) / (n2 + 0.5)), p1, p2, p3, pp;
        for (int it = 0; it < 60; it++) {
            p1 = 1;
            p2 = 0;
            for (int j = 0; j < n2; j++) {
                p3 = p2;
                p2 = p1;
                p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1);
            }
            pp = n2 * (z * p1 - p2) / (z * z - 1);
            z -= p1 / pp;
        }
        x.push_back(z);
        w.push_back(2 / ((1 - z * z) * pp * pp));
    }
}
static void polar(int kind, int n, std::vector<double> &th, std::vector<double> &w)
{
    if (kind == 0) {
        gauss(2 * n, th, w);
        for (auto &t : th) {
            t = std::acos(t);
        }
    } else {
        th = {0.167429147795, 0.567715121084, 1.202533146789};
        w  = {0.046233, 0.283619, 0.670148};
    }
}
static std::string prodxml(int kind, int alias, int na, int np)
{
    const char *nm[2][2] = {{"cg", "chebyshev-gauss"}, {"cy", "chebyshev-yamamoto"}};
    return fmt("<ang_quad type=\"%s\" n_azimuthal=\"%d\" n_polar=\"%d\"/>", nm[kind][alias], na, np);
}
// compares as a set of (alpha, theta, weight)
static void expect_product(Ctx &c, const AngularQuadrature &q, const std::vector<double> &al, const std::vector<double> &wa, const std::vector<double> &th,
                           const std::vector<double> &wp)
{
    std::vector<char> used(al.size() * th.size());
    if (!c.expect(q.ndir_oct() == (int)used.size(), "number of angles")) {
        return;
    }
    double sw = 0;
    for (auto w : wp) {
        sw += w;
    }
    for (int i = 0; i < q.ndir_oct(); i++) {
        const Angle &a = q[i];
        bool hit       = false;
        for (size_t k = 0; k < used.size() && !hit; k++) {
            double ra = al[k / th.size()], rt = th[k % th.size()];
            if (!used[k] && std::fabs(a.alpha - ra) < 1e-9 && std::fabs(a.theta - rt) < 1e-9) {
                used[k] = hit = true;
                c.expect_eq(a.weight, wa[k / th.size()] * wp[k % th.size()] / sw, 1e-10, fmt("weight at alpha=%g theta=%g", ra, rt));
                c.expect_eq(a.ox, std::sin(rt) * std::cos(ra), 1e-9, "ox");
                c.expect_eq(a.oy, std::sin(rt) * std::sin(ra), 1e-9, "oy");
                c.expect_eq(a.oz, std::cos(rt), 1e-9, "oz");
            }
        }
        c.expect(hit, fmt("unexpected direction alpha=%.12g theta=%.12g", a.alpha, a.theta));
    }
}

static void product(Ctx &c)
{
    int kind = c.choose(2), alias = c.choose(2);
    int na = c.choose(c.thorough() ? 34 : 18) - 1, np = c.choose(c.thorough() ? 12 : 9) - 1;
    if (!c.leaf(fmt("%s n_azimuthal=%d n_polar=%d", kind ? "yamamoto" : "gauss", na, np))) {
        return;
    }
    AngularQuadrature *q;
    bool ok = make(prodxml(kind, alias, na, np), q);
    bool want = na >= 1 && np >= 1 && (kind == 0 || np == 3);
    if (!c.expect(ok == want, ok ? "unsupported set accepted" : "supported set rejected") || !ok) {
        return;
    }
    invariants(c, *q);
    std::vector<double> th, wp, al, wa;
    polar(kind, np, th, wp);
    for (int i = 0; i < na; i++) {
        al.push_back(M_PI / 4 * (2 * i + 1) / na);
        wa.push_back(1.0 / na);
    }
    expect_product(c, *q, al, wa, th, wp);
    // low-order moments
    double m2[3] = {0, 0, 0};
    for (int i = 0; i < q->ndir_oct(); i++) {
        const Angle &a = (*q)[i];
        m2[0] += a.weight * a.ox * a.ox;
        m2[1] += a.weight * a.oy * a.oy;
        m2[2] += a.weight * a.oz * a.oz;
    }
    if (kind == 0) {
        for (int d = 0; d < 3; d++) {
            c.expect_eq(m2[d], 1.0 / 3, 1e-9, "second moment");
        }
    }
    roundtrip(c, *q);
    delete q;
}

// all patterns of small azimuth changes, as modularization makes them
static void updates(Ctx &c)
{
    int kind = c.choose(2);
    int na   = 1 + c.choose(c.thorough() ? 9 : 7);
    int np   = kind ? 3 : 1 + c.choose(4);
    std::vector<double> d(na);
    static const double D[4] = {0.0, 0.011, -0.013, 0.0071};
    for (int i = 0; i < na; i++) {
        // all patterns for few angles, one odd angle out for many
        d[i] = na <= 4 ? D[c.choose(4)] : 0.0;
    }
    if (na > 4) {
        d[c.choose(na)] = D[c.choose(4)];
        d[c.choose(na)] = D[c.choose(4)];
    }
    int rev = na > 4 ? np % 2 : c.choose(2); // order in which the angles are modified
    std::string s;
    for (auto x : d) {
        s += fmt(" %g", x);
    }
    if (!c.leaf(fmt("%s %dx%d shifts%s order %d", kind ? "yamamoto" : "gauss", na, np, s.c_str(), rev))) {
        return;
    }
    AngularQuadrature *q;
    make(prodxml(kind, 0, na, np), q);
    int n = q->ndir_oct();
    std::vector<double> th, wp, al(na), wa(na);
    polar(kind, np, th, wp);
    AngularQuadrature before(*q);
    for (int k = 0; k < n; k++) {
        int i   = rev ? n - 1 - k : k;
        Angle a = (*q)[i];
        int ia  = (int)std::floor(a.alpha / (M_PI / 2 / na));
        a.modify_alpha(a.alpha + d[ia]);
        q->modify_angle(i, a);
        for (int o = 0; o < 8; o++) {
            const Angle &m = (*q)[o * n + i];
            c.expect_eq(m.ox, SX[o] * a.ox, 1e-12, "modified angle in another octant (x)");
            c.expect_eq(m.oy, SY[o] * a.oy, 1e-12, "modified angle in another octant (y)");
            c.expect_eq(m.oz, SZ[o] * a.oz, 1e-12, "modified angle in another octant (z)");
            c.expect(m.weight == a.weight, "modified angle in another octant (weight)");
        }
    }
    invariants(c, *q);
    for (int i = 0; i < n; i++) {
        c.expect((*q)[i].weight == before[i].weight, "modification changed a weight");
    }
    AngularQuadrature mod(*q);
    q->update_weights();
    invariants(c, *q);
    for (int i = 0; i < na; i++) {
        al[i] = M_PI / 4 * (2 * i + 1) / na + d[i];
    }
    for (int i = 0; i < na; i++) {
        double lo = i ? 0.5 * (al[i - 1] + al[i]) : 0, hi = i + 1 < na ? 0.5 * (al[i] + al[i + 1]) : M_PI / 2;
        wa[i] = (hi - lo) / (M_PI / 2);
    }
    expect_product(c, *q, al, wa, th, wp);
    for (int i = 0; i < 8 * n; i++) {
        c.expect_eq((*q)[i].ox, mod[i].ox, 1e-12, "update moved an angle (x)");
        c.expect_eq((*q)[i].oy, mod[i].oy, 1e-12, "update moved an angle (y)");
        c.expect_eq((*q)[i].oz, mod[i].oz, 1e-12, "update moved an angle (z)");
    }
    roundtrip(c, *q);
    delete q;
}

// ---- user sets ---------------------------------------------------------
struct UA {
    const char *text;
    double x, y, z;
    bool valid;
};
static const double T = 0.5773502691896258;
static const std::vector<UA> UAS = {
    {"ox=\"0.5773502691896258\" oy=\"0.5773502691896258\" oz=\"0.5773502691896258\"", T, T, T, true},
    {"ox=\"0.6\" oy=\"0.64\" oz=\"0.48\"", 0.6, 0.64, 0.48, true},
    {"alpha=\"0.5\" theta=\"1.1\"", std::sin(1.1) * std::cos(0.5), std::sin(1.1) * std::sin(0.5), std::cos(1.1), true},
    {"ox=\"-0.6\" oy=\"0.64\" oz=\"0.48\"", 0, 0, 0, false},
    {"ox=\"0.6\" oy=\"-0.64\" oz=\"0.48\"", 0, 0, 0, false},
    {"ox=\"0.6\" oy=\"0.64\" oz=\"-0.48\"", 0, 0, 0, false},
    {"ox=\"0.6\" oy=\"0.64\" oz=\"0.49\"", 0, 0, 0, false},
    {"ox=\"0.6\" oy=\"0.64\"", 0, 0, 0, false},
    {"ox=\"0.6\" alpha=\"0.5\" theta=\"1.1\"", 0, 0, 0, false},
    {"alpha=\"2.0\" theta=\"1.1\"", 0, 0, 0, false},
    {"alpha=\"7.0\" theta=\"1.1\"", 0, 0, 0, false},
    {"alpha=\"0.5\" theta=\"1.6\"", 0, 0, 0, false},
    {"", 0, 0, 0, false},
};
static void user(Ctx &c)
{
    int n = 1 + c.choose(2);
    std::string s = "<ang_quad type=\"user\">", d;
    bool valid = true;
    double sum = 0;
    std::vector<int> pick(n);
    std::vector<double> w(n);
    static const char *W[] = {"0.25", "0.5", "0.75", "1.0", "0.0", "-0.5", "1.5"};
    for (int i = 0; i < n; i++) {
        pick[i] = c.choose((int)UAS.size());
        int k   = c.choose(7);
        w[i]    = atof(W[k]);
        sum += w[i];
        valid = valid && UAS[pick[i]].valid && w[i] > 0;
        s += fmt("<angle %s weight=\"%s\"/>", UAS[pick[i]].text, W[k]);
        d += fmt("[%s w=%s]", UAS[pick[i]].text, W[k]);
    }
    s += "</ang_quad>";
    if (!c.leaf(d)) {
        return;
    }
    valid = valid && std::fabs(sum - 1) < 1e-12;
    AngularQuadrature *q;
    bool ok = make(s, q);
    if (!c.expect(ok == valid, ok ? "invalid set accepted" : "valid set rejected") || !ok) {
        return;
    }
    invariants(c, *q);
    for (int i = 0; i < n; i++) {
        const UA &u = UAS[pick[i]];
        c.expect_eq((*q)[i].ox, u.x, 1e-9, "ox");
        c.expect_eq((*q)[i].oy, u.y, 1e-9, "oy");
        c.expect_eq((*q)[i].oz, u.z, 1e-9, "oz");
        c.expect_eq((*q)[i].weight, w[i], 1e-12, "weight");
    }
    roundtrip(c, *q);
    AngularQuadrature u(*q);
    u.update_weights();
    same(c, u, *q, "update of a user set");
    delete q;
}

// ---- damaged files and bad requests ------------------------------------
static void stored(Ctx &c)
{
    // lengths of the six stored arrays
    static const int L[] = {8, 16, 7, 0};
    static const char *N[] = {"omega_x", "omega_y", "omega_z", "weight", "alpha", "theta"};
    int len[6];
    std::string d;
    for (int i = 0; i < 6; i++) {
        len[i] = L[c.choose(3)];
        d += fmt("%s=%d ", N[i], len[i]);
    }
    if (!c.leaf(d)) {
        return;
    }
    AngularQuadrature *q;
    make("<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"1\"/>", q);
    bool valid = true;
    {
        H5Node f("s.h5", H5Access::WRITE);
        auto g = f.create_group("ang_quad");
        g.write("n_polar", 1);
        g.write("n_azimuthal", len[0] == 16 ? 2 : 1);
        for (int i = 0; i < 6; i++) {
            VecF v(len[i]);
            for (int k = 0; k < len[i]; k++) {
                const Angle &a = (*q)[k % 16];
                v[k]           = i == 0 ? a.ox : i == 1 ? a.oy : i == 2 ? a.oz : i == 3 ? a.weight : i == 4 ? a.alpha : a.theta;
            }
            g.write(N[i], v);
            valid = valid && len[i] == len[0];
        }
        valid = valid && len[0] % 8 == 0;
    }
    bool ok = true;
    H5Node f("s.h5", H5Access::READ);
    try {
        AngularQuadrature r(f);
        c.expect(r.ndir() == len[0], "number of angles read");
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == valid, ok ? "inconsistent stored set accepted" : "stored set rejected");
    c.state((uint64_t)(len[0] + 17 * len[1] + 289 * len[2] + 4913 * len[3]));
    unlink("s.h5");
    delete q;
}

static void requests(Ctx &c)
{
    static const std::vector<std::pair<const char *, bool>> R = {
        {"<ang_quad/>", false},
        {"<ang_quad type=\"\"/>", false},
        {"<ang_quad type=\"foo\" order=\"4\"/>", false},
        {"<ang_quad type=\"ls\"/>", false},
        {"<ang_quad type=\"ls\" order=\"x\"/>", false},
        {"<ang_quad type=\"cg\"/>", false},
        {"<ang_quad type=\"cg\" n_polar=\"2\"/>", false},
        {"<ang_quad type=\"cg\" n_azimuthal=\"2\"/>", false},
        {"<ang_quad type=\"cg\" n_azimuthal=\"x\" n_polar=\"2\"/>", false},
        {"<ang_quad type=\"cy\"/>", false},
        {"<ang_quad type=\"cy\" n_azimuthal=\"2\"/>", false},
        {"<ang_quad type=\"user\"/>", false},
        {"<quad type=\"ls\" order=\"4\"/>", false},
        {"<ang_quad type=\"LS\" order=\"4\"/>", true},
        {"<ang_quad type=\" ls \" order=\"4\"/>", true},
        {"<ang_quad type=\"CG\" n_azimuthal=\"2\" n_polar=\"2\"/>", true},
    };
    int i = c.choose((int)R.size());
    if (!c.leaf(R[i].first)) {
        return;
    }
    AngularQuadrature *q;
    bool ok = make(R[i].first, q);
    c.expect(ok == R[i].second, ok ? "bad request accepted" : "good request rejected");
    delete q;
    bool thrown = false;
    try {
        pugi::xml_node none;
        AngularQuadrature z(none);
    } catch (const mocc::Exception &) {
        thrown = true;
    }
    c.expect(thrown, "empty input accepted");
    c.state((uint64_t)i);
}

// ---- assignment ---------------------------------------------------------
struct Set {
    const char *tag;
    int na, np, ndir;
};
static const Set SETS[] = {{"type=\"ls\" order=\"2\"", -1, -1, 1},           {"type=\"ls\" order=\"6\"", -1, -1, 6},
                           {"type=\"cg\" n_azimuthal=\"2\" n_polar=\"3\"", 2, 3, 6}, {"type=\"cy\" n_azimuthal=\"2\" n_polar=\"3\"", 2, 3, 6},
                           {"type=\"cg\" n_azimuthal=\"3\" n_polar=\"2\"", 3, 2, 6}, {"type=\"cg\" n_azimuthal=\"2\" n_polar=\"2\"", 2, 2, 4},
                           {"type=\"cg\" n_azimuthal=\"3\" n_polar=\"3\"", 3, 3, 9}};
static void turn(AngularQuadrature &q, double by)
{
    for (int i = 0; i < q.ndir_oct(); i++) {
        Angle a = q[i];
        a.modify_alpha(a.alpha + by);
        q.modify_angle(i, a);
    }
}
static void assignments(Ctx &c)
{
    int from = c.choose(7), to = c.choose(7), turned = c.choose(2), self = c.choose(2);
    if (!c.leaf(fmt("<%s> %s to <%s>%s", SETS[from].tag, turned ? "turned, assigned" : "assigned", SETS[to].tag, self ? ", then to itself" : ""))) {
        return;
    }
    AngularQuadrature *a, *b;
    make(fmt("<ang_quad %s/>", SETS[from].tag), a);
    make(fmt("<ang_quad %s/>", SETS[to].tag), b);
    if (turned) {
        turn(*a, 0.01);
    }
    AngularQuadrature src(*a), dst(*b);
    bool thrown = false;
    try {
        *b = *a;
    } catch (const mocc::Exception &) {
        thrown = true;
    }
    bool fits = SETS[from].na == SETS[to].na && SETS[from].np == SETS[to].np;
    c.expect(thrown == !fits, thrown ? "fitting set refused" : "set of another size accepted");
    same(c, *a, src, "source of an assignment");
    if (self) {
        AngularQuadrature &r = *b;
        r = *b;
    }
    same(c, *b, thrown ? dst : src, "target of an assignment");
    invariants(c, *b);
    // and goes on like the one it was made from
    AngularQuadrature ref(thrown ? dst : src);
    turn(*b, 0.007);
    turn(ref, 0.007);
    b->update_weights();
    ref.update_weights();
    same(c, *b, ref, "update after an assignment");
    delete a;
    delete b;
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "A01",
                   {{"level-symmetric", level_symmetric, 20, "all orders -6..39"},
                    {"product", product, 20, "Gauss and Yamamoto sets, -1..16 azimuthal by -1..7 polar angles"},
                    {"updates", updates, 20, "all azimuth shift patterns over 4 values for up to 4 azimuthal angles and of any two of up to 7 (thorough: 9), then a weight update"},
                    {"user", user, 20, "all user sets of one or two angles over 13 angle texts and 7 weights"},
                    {"stored", stored, 20, "all combinations of three lengths of the six stored arrays"},
                    {"assignments", assignments, 20, "all ordered pairs of 7 sets, as made and with turned angles, and to itself"},
                    {"requests", requests, 20, "malformed requests"}});
}
