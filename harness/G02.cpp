// G02: pin meshes partition the pin cell.
#include "mc.hpp"
#include <pugixml.hpp>
#include "util/error.hpp"
#include "core/pin_mesh.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static const double PI_ = 3.14159265358979323846;

// Reference geometry of one pin cell
struct Ref {
    double pitch = 1;
    bool cyl     = false;
    int nx = 1, ny = 1;
    int na = 1;
    std::vector<double> radii, xsr;
    std::vector<int> sub;
    int n_reg() const
    {
        return cyl ? ((int)radii.size() + 1) * na : nx * ny;
    }
    // signed distance of a point to its nearest surface
    double clearance(double x, double y) const
    {
        double d = 1e30;
        if (cyl) {
            double r = std::hypot(x, y);
            for (double q : radii) {
                d = std::min(d, std::fabs(r - q));
            }
            for (int i = 0; i < na; i++) {
                double a = 2 * PI_ * i / na, c = std::cos(a), s = std::sin(a);
                if (x * c + y * s > 0) {
                    d = std::min(d, std::fabs(x * s - y * c));
                }
            }
            d = std::min(d, r);
        } else {
            for (int i = 0; i <= nx; i++) {
                d = std::min(d, std::fabs(x + pitch / 2 - i * pitch / nx));
            }
            for (int i = 0; i <= ny; i++) {
                d = std::min(d, std::fabs(y + pitch / 2 - i * pitch / ny));
            }
        }
        return d;
    }
    int region(double x, double y) const
    {
        if (cyl) {
            double r = std::hypot(x, y), a = std::atan2(y, x);
            a        = a < 0 ? a + 2 * PI_ : a;
            int ir   = 0;
            while (ir < (int)radii.size() && r >= radii[ir]) {
                ir++;
            }
            int ia = std::min(na - 1, (int)(a / (2 * PI_ / na)));
            return ir * na + ia;
        }
        int ix = std::min(nx - 1, std::max(0, (int)((x + pitch / 2) / (pitch / nx))));
        int iy = std::min(ny - 1, std::max(0, (int)((y + pitch / 2) / (pitch / ny))));
        return iy * nx + ix;
    }
    // regions whose closure contains the point
    std::set<int> regions(double x, double y) const
    {
        std::set<int> s;
        double e = 1e-9;
        for (int k = 0; k < 16; k++) {
            double qx = x + e * std::cos(0.1 + k * PI_ / 8), qy = y + e * std::sin(0.1 + k * PI_ / 8);
            if (std::fabs(qx) < pitch / 2 && std::fabs(qy) < pitch / 2) {
                s.insert(region(qx, qy));
            }
        }
        // a ring touching the edge of the cell
        for (size_t i = 0; i < radii.size(); i++) {
            if (std::fabs(std::hypot(x, y) - radii[i]) < 1e-9) {
                std::set<int> t = s;
                for (int v : t) {
                    s.insert((int)i * na + v % na);
                    s.insert((int)(i + 1) * na + v % na);
                }
            }
        }
        return s;
    }
    double area(int ireg) const
    {
        if (!cyl) {
            return pitch * pitch / (nx * ny);
        }
        int ir = ireg / na, ia = ireg % na;
        if (ir < (int)radii.size()) {
            double in = ir ? radii[ir - 1] : 0;
            return PI_ * (radii[ir] * radii[ir] - in * in) / na;
        }
        // part of the square between two angles, less the disc
        double h = pitch / 2, a0 = 2 * PI_ * ia / na, a1 = 2 * PI_ * (ia + 1) / na;
        std::vector<double> cut = {a0, a1};
        for (int k = 0; k < 8; k++) {
            double d = PI_ / 4 + k * PI_ / 2;
            if (d > a0 && d < a1) {
                cut.push_back(d);
            }
        }
        std::sort(cut.begin(), cut.end());
        double sq = 0;
        for (size_t i = 0; i + 1 < cut.size(); i++) {
            auto pt = [&](double a, double &x, double &y) {
                double c = std::cos(a), s = std::sin(a), f = h / std::max(std::fabs(c), std::fabs(s));
                x = c * f;
                y = s * f;
            };
            double x0, y0, x1, y1;
            pt(cut[i], x0, y0);
            pt(cut[i + 1], x1, y1);
            sq += 0.5 * (x0 * y1 - x1 * y0);
        }
        double R = radii.back();
        return sq - PI_ * R * R / na;
    }
    // parameters in (0,1) at which the segment crosses a surface
    std::vector<double> cuts(double x0, double y0, double x1, double y1) const
    {
        std::vector<double> t = {0, 1};
        double ux = x1 - x0, uy = y1 - y0;
        auto add = [&](double v) {
            if (v > 0 && v < 1) {
                t.push_back(v);
            }
        };
        if (cyl) {
            double a = ux * ux + uy * uy, b = x0 * ux + y0 * uy;
            for (double r : radii) {
                double cc = x0 * x0 + y0 * y0 - r * r, disc = b * b - a * cc;
                if (disc > 0) {
                    add((-b - std::sqrt(disc)) / a);
                    add((-b + std::sqrt(disc)) / a);
                }
            }
            for (int i = 0; i < na; i++) {
                double c = std::cos(2 * PI_ * i / na), s = std::sin(2 * PI_ * i / na), d = ux * s - uy * c;
                if (std::fabs(d) > 1e-14) {
                    double v = -(x0 * s - y0 * c) / d;
                    add(v);
                }
            }
        } else {
            for (int i = 1; i < nx; i++) {
                if (ux != 0) {
                    add((-pitch / 2 + i * pitch / nx - x0) / ux);
                }
            }
            for (int i = 1; i < ny; i++) {
                if (uy != 0) {
                    add((-pitch / 2 + i * pitch / ny - y0) / uy);
                }
            }
        }
        std::sort(t.begin(), t.end());
        return t;
    }
};

typedef std::vector<std::pair<int, double>> Segs;
static Segs tidy(const Segs &in)
{
    Segs out;
    for (auto &s : in) {
        if (s.second < 1e-5) {
            continue;
        }
        if (!out.empty() && out.back().first == s.first) {
            out.back().second += s.second;
        } else {
            out.push_back(s);
        }
    }
    return out;
}

static std::string xml_of(const Ref &r, int id)
{
    std::string s = fmt("<mesh id=\"%d\" type=\"%s\" pitch=\"%.17g\">", id, r.cyl ? "cyl" : "rect", r.pitch);
    if (r.cyl) {
        s += "<radii>";
        for (double v : r.xsr) {
            s += fmt("%s%.17g", &v == &r.xsr[0] ? "" : " ", v);
        }
        s += fmt("</radii><sub_azi>%d</sub_azi><sub_radii>", r.na);
        for (int v : r.sub) {
            s += fmt("%d ", v);
        }
        s += "</sub_radii>";
    } else {
        s += fmt("<sub_x>%d</sub_x><sub_y>%d</sub_y>", r.nx, r.ny);
    }
    return s + "</mesh>";
}

static bool choose_pin(Ctx &c, Ref &r)
{
    static const double P[] = {1.0, 1.26, 0.7};
    r.pitch                 = P[c.choose(3)];
    int kind                = c.choose(3);
    r.cyl                   = kind == 1;
    if (kind == 2) {
        // finely divided
        int k = c.choose(10);
        static const int NX[] = {7, 1, 70, 12, 150}, NY[] = {1, 9, 3, 11, 2};
        static const std::vector<std::vector<int>> SUB = {{5}, {24}, {2, 7}, {9, 4, 1}, {1, 1, 1, 1, 1, 1, 1}};
        r.cyl = k > 4;
        if (!r.cyl) {
            r.nx = NX[k];
            r.ny = NY[k];
            return c.leaf(xml_of(r, 3));
        }
        double in = 0;
        for (int n : SUB[k - 5]) {
            r.sub.push_back(n);
            r.xsr.push_back(r.pitch * (0.45 - 0.06 * (SUB[k - 5].size() - r.sub.size())));
            for (int j = 1; j <= n; j++) {
                r.radii.push_back(std::sqrt(in * in + (r.xsr.back() * r.xsr.back() - in * in) * j / n));
            }
            in = r.xsr.back();
        }
        r.na = 2 * (1 + c.choose(4));
        return c.leaf(xml_of(r, 3));
    }
    if (r.cyl) {
        int k = c.choose(5);
        static const std::vector<std::vector<double>> F = {{0.3}, {0.43, 0.47}, {0.15, 0.3, 0.41}, {0.5}, {0.1, 0.5}};
        for (double f : F[k]) {
            r.xsr.push_back(f * r.pitch);
        }
        double in = 0;
        for (size_t i = 0; i < r.xsr.size(); i++) {
            int n = 1 + c.choose(i == 0 || c.thorough() ? 3 : 2);
            r.sub.push_back(n);
            for (int j = 1; j <= n; j++) {
                r.radii.push_back(std::sqrt(in * in + (r.xsr[i] * r.xsr[i] - in * in) * j / n));
            }
            in = r.xsr[i];
        }
        r.na = 2 * (1 + c.choose(4));
    } else {
        r.nx = 1 + c.choose(4);
        r.ny = 1 + c.choose(4);
    }
    return c.leaf(xml_of(r, 3));
}

static std::unique_ptr<PinMesh> make(const std::string &xml)
{
    pugi::xml_document d;
    if (!d.load_string(xml.c_str())) {
        throw std::runtime_error("bad xml in harness");
    }
    return std::unique_ptr<PinMesh>(PinMeshFactory(d.first_child()));
}

static std::vector<std::pair<double, double>> boundary_points(const Ref &r, int nb)
{
    std::vector<std::pair<double, double>> b;
    double h = r.pitch / 2;
    std::vector<double> f;
    for (int i = 1; i < nb; i++) {
        f.push_back(-1.0 + 2.0 * i / nb); // hits mesh lines and the centre
        f.push_back(-1.0 + 2.0 * (i + 0.0137) / nb);
    }
    for (double v : f) {
        b.push_back({v * h, -h});
        b.push_back({v * h, h});
        b.push_back({-h, v * h});
        b.push_back({h, v * h});
    }
    return b;
}

static void regions(Ctx &c)
{
    Ref r;
    if (!choose_pin(c, r)) {
        return;
    }
    auto m = make(xml_of(r, 3));
    double h = r.pitch / 2;
    c.expect(m->id() == 3, "id");
    c.expect(m->pitch_x() == r.pitch && m->pitch_y() == r.pitch, "pitch");
    c.expect_eq(m->area(), r.pitch * r.pitch, 1e-14, "cell area");
    if (!c.expect(m->n_reg() == r.n_reg() && (int)m->areas().size() == r.n_reg(), fmt("%d regions", m->n_reg()))) {
        return;
    }
    int nxs = r.cyl ? (int)r.xsr.size() + 1 : r.nx * r.ny;
    if (!c.expect(m->n_xsreg() == nxs, fmt("%d material regions", m->n_xsreg()))) {
        return;
    }
    double sum = 0;
    for (int i = 0; i < r.n_reg(); i++) {
        c.expect_eq(m->areas()[i], r.area(i), 1e-12, fmt("area of region %d", i));
        sum += m->areas()[i];
    }
    c.expect_eq(sum, r.pitch * r.pitch, 1e-12, "areas do not add up to the cell");
    // material regions own consecutive regions
    int k = 0;
    for (int x = 0; x < nxs; x++) {
        int want = !r.cyl ? 1 : x < (int)r.sub.size() ? r.sub[x] * r.na : r.na;
        c.expect_int((int)m->n_fsrs(x), want, fmt("regions of material region %d", x));
        k += m->n_fsrs(x);
    }
    c.expect_int(k, r.n_reg(), "material regions do not cover the cell");
    // probe points: a fine lattice plus all the special coordinates
    std::vector<double> xs = {0.0, -h, h};
    int n = c.thorough() ? 29 : 15;
    for (int i = 0; i < n; i++) {
        xs.push_back(-h + (i + 0.4137) * r.pitch / n);
    }
    std::vector<double> ys = xs;
    if (!r.cyl) {
        for (int i = 1; i < r.nx; i++) {
            xs.push_back(-h + i * r.pitch / r.nx);
        }
        for (int i = 1; i < r.ny; i++) {
            ys.push_back(-h + i * r.pitch / r.ny);
        }
    }
    std::vector<std::pair<double, double>> pts;
    for (double x : xs) {
        for (double y : ys) {
            pts.push_back({x, y});
        }
    }
    if (r.cyl) {
        for (double q : r.radii) {
            for (int a = 0; a < 24; a++) { // on rings, every third on an azimuthal line
                pts.push_back({q * std::cos(PI_ * a / 12), q * std::sin(PI_ * a / 12)});
            }
            for (int a = 0; a < 24; a++) { // just inside and outside the rings
                double f = a % 2 ? 1.001 : 0.999;
                pts.push_back({f * q * std::cos(0.07 + PI_ * a / 12), f * q * std::sin(0.07 + PI_ * a / 12)});
            }
        }
        for (int a = 0; a < r.na; a++) {
            double al = 2 * PI_ * a / r.na;
            for (double q : {0.05, 0.22, 0.36, 0.44, 0.49}) {
                pts.push_back({q * r.pitch * std::cos(al), q * r.pitch * std::sin(al)});
            }
        }
    }
    for (auto &p : pts) {
        if (std::fabs(p.first) > h || std::fabs(p.second) > h) {
            continue;
        }
        auto ok = r.regions(p.first, p.second);
        int g   = m->find_reg(Point2(p.first, p.second));
        c.expect(ok.count(g), fmt("point (%.17g,%.17g) placed in region %d, expected %d", p.first, p.second, g, *ok.begin()));
        // with a direction
        for (int a = 0; a < 24; a++) {
            double al = PI_ * (a + 0.5) / 12 + 0.003;
            Direction d(al, a % 3 ? 0.8 : 2.1);
            double e = 1e-7, qx = p.first + e * std::cos(al), qy = p.second + e * std::sin(al);
            int gd = m->find_reg(Point2(p.first, p.second), d);
            if (std::fabs(qx) >= h || std::fabs(qy) >= h) {
                // on the edge of the cell and leaving; a point on the edge may still be given its region
                c.expect(gd == -1 || ok.count(gd), fmt("leaving point (%.17g,%.17g) placed in region %d", p.first, p.second, gd));
                continue;
            }
            // skip directions that run along a surface the point is on
            if (r.clearance(qx, qy) < 1e-9) {
                continue;
            }
            int e0 = r.region(qx, qy);
            c.expect_int(gd, e0, fmt("point (%.17g,%.17g) going %.4g", p.first, p.second, al));
        }
    }
    // outside
    for (auto &p : std::vector<std::pair<double, double>>{{1.01 * h, 0}, {-1.01 * h, 0.1 * h}, {0, 1.01 * h}, {0.2 * h, -1.2 * h}, {2 * h, 2 * h}}) {
        c.expect(m->find_reg(Point2(p.first, p.second)) == -1, "a point outside the cell was given a region");
    }
    c.state(xml_of(r, 0));
}

static void chords(Ctx &c)
{
    Ref r;
    if (!choose_pin(c, r)) {
        return;
    }
    auto m = make(xml_of(r, 3));
    auto b = boundary_points(r, c.thorough() ? 12 : 7);
    double h = r.pitch / 2;
    for (auto &p : b) {
        for (auto &q : b) {
            if (!(q.second > p.second) || (p.first == q.first && std::fabs(p.first) == h)) {
                continue;
            }
            double len = std::hypot(q.first - p.first, q.second - p.second);
            auto t = r.cuts(p.first, p.second, q.first, q.second);
            Segs want;
            for (size_t i = 1; i < t.size(); i++) {
                double mid = 0.5 * (t[i] + t[i - 1]);
                want.push_back({r.region(p.first + mid * (q.first - p.first), p.second + mid * (q.second - p.second)), (t[i] - t[i - 1]) * len});
            }
            VecF s(1, 99.0);
            VecI reg(1, 77);
            int n = m->trace(Point2(p.first, p.second), Point2(q.first, q.second), 100, s, reg);
            std::string line = fmt("line (%.6g,%.6g)-(%.6g,%.6g): ", p.first, p.second, q.first, q.second);
            if (!c.expect(n > 0 && s.size() == (size_t)n + 1 && reg.size() == (size_t)n + 1 && s[0] == 99.0 && reg[0] == 77, line + "segments not appended")) {
                continue;
            }
            Segs got;
            double sum = 0;
            for (int i = 1; i <= n; i++) {
                got.push_back({reg[i] - 100, s[i]});
                sum += s[i];
            }
            c.expect_eq(sum, len, 1e-10, line + "total length");
            Segs a = tidy(want), g = tidy(got);
            // a line along a surface may be given either side
            bool along = false;
            for (size_t i = 1; i < t.size(); i++) {
                double mid = 0.5 * (t[i] + t[i - 1]);
                if (t[i] - t[i - 1] > 1e-6 && r.clearance(p.first + mid * (q.first - p.first), p.second + mid * (q.second - p.second)) < 1e-12) {
                    along = true;
                }
            }
            if (!along) {
                bool same = a.size() == g.size();
                for (size_t i = 0; same && i < a.size(); i++) {
                    same = a[i].first == g[i].first && std::fabs(a[i].second - g[i].second) < 1e-8;
                }
                c.expect(same, line + fmt("%d segments instead of %d, or wrong ones", (int)g.size(), (int)a.size()));
            }
            // walk along the same line from surface to surface, also inclined
            for (double th : {PI_ / 2, 1.0, 2.3}) {
                double al = std::atan2(q.second - p.second, q.first - p.first);
                double st = std::sin(th);
                Direction d(al < 0 ? al + 2 * PI_ : al, th);
                double pos = 0;
                int coin = -1;
                std::vector<double> hits;
                Point2 at(p.first + 1e-7 * std::cos(al), p.second + 1e-7 * std::sin(al));
                pos = 1e-7;
                for (int k = 0; k < 1000; k++) {
                    auto ds = m->distance_to_surface(at, d, coin);
                    c.steps(1);
                    if (ds.second || ds.first * st + pos > len - 1e-7) {
                        break;
                    }
                    pos += ds.first * st;
                    hits.push_back(pos);
                    at = Point2(p.first + pos * std::cos(al), p.second + pos * std::sin(al));
                }
                std::vector<double> e;
                for (size_t i = 1; i + 1 < t.size(); i++) {
                    double v = t[i] * len;
                    if (v > 2e-7 && v < len - 2e-7 && (e.empty() || v - e.back() > 1e-5)) {
                        e.push_back(v);
                    }
                }
                std::vector<double> hh;
                for (double v : hits) {
                    if (v > 2e-7 && v < len - 2e-7 && (hh.empty() || v - hh.back() > 1e-5)) {
                        hh.push_back(v);
                    }
                }
                if (along) {
                    continue;
                }
                bool same = e.size() == hh.size();
                for (size_t i = 0; same && i < e.size(); i++) {
                    same = std::fabs(e[i] - hh[i]) < 2e-5;
                }
                c.expect(same, line + fmt("walk meets %d surfaces instead of %d", (int)hh.size(), (int)e.size()));
            }
        }
    }
    c.state(xml_of(r, 0));
}

// descriptions that must be refused, and harmless variations that must not
static void rejected(Ctx &c)
{
    static const std::vector<std::pair<std::string, bool>> X = {
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", true},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>0</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>0</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>-2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>-1</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"><sub_x>2</sub_x></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"1.0\"/>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"0.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\" pitch=\"-1.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"rect\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh type=\"rect\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" type=\"hex\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
        {"<mesh id=\"1\" pitch=\"1.0\"><sub_x>2</sub_x><sub_y>3</sub_y></mesh>", false},
    };
    int k = c.choose(2);
    if (k == 0) {
        auto &x = X[c.choose((int)X.size())];
        if (!c.leaf(x.first)) {
            return;
        }
        bool ok = true;
        try {
            make(x.first);
        } catch (const mocc::Exception &) {
            ok = false;
        }
        c.expect(ok == x.second, ok ? "accepted an invalid pin mesh" : "rejected a valid pin mesh");
        return;
    }
    // cylindrical: every combination of a few values for each field
    struct V {
        const char *s;
        bool ok;
        int n;
    };
    static const V R[]  = {{"0.3", true, 1},    {"0.3 0.4", true, 2},  {" 0.3 0.4 ", true, 2}, {"0.5", true, 1},     {"0.51", false, 1},  {"0.4 0.3", false, 2},
                          {"", false, 0},      {"x", false, 0},       {"0.3 x", false, 0},    {"0.0 0.3", false, 2}, {"-0.3", false, 1}};
    static const V A[]  = {{"2", true, 0}, {"4", true, 0}, {"6", true, 0}, {"8", true, 0}, {"1", false, 0}, {"3", false, 0}, {"10", false, 0}, {"0", false, 0}, {"-2", false, 0}, {"", false, 0}, {"a", false, 0}};
    static const V S[]  = {{"1", true, 1}, {"2", true, 1}, {"2 1", true, 2}, {" 1 3 ", true, 2}, {"1 1 1", true, 3}, {"", false, 0}, {"0", false, 1}, {"1 0", false, 2}, {"-1", false, 1}, {"y", false, 0}};
    static const V PT[] = {{"1.0", true, 0}, {"0", false, 0}, {"-1.0", false, 0}};
    const V &r = R[c.choose(11)], &a = A[c.choose(11)], &s = S[c.choose(10)], &p = PT[c.choose(3)];
    std::string xml = fmt("<mesh id=\"1\" type=\"cyl\" pitch=\"%s\"><radii>%s</radii><sub_azi>%s</sub_azi><sub_radii>%s</sub_radii></mesh>", p.s, r.s, a.s, s.s);
    if (!c.leaf(xml)) {
        return;
    }
    bool want = r.ok && a.ok && s.ok && p.ok && r.n == s.n;
    bool ok   = true;
    try {
        auto m = make(xml);
        if (want) {
            double sum = 0;
            for (double v : m->areas()) {
                sum += v;
            }
            c.expect_eq(sum, 1.0, 1e-12, "areas do not add up");
        }
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == want, ok ? "accepted an invalid pin mesh" : "rejected a valid pin mesh");
    c.state(xml);
}

// several meshes in one input
static void collections(Ctx &c)
{
    int n = 1 + c.choose(3);
    std::string s = "<g>";
    std::vector<int> ids;
    for (int i = 0; i < n; i++) {
        int id = 1 + c.choose(3);
        ids.push_back(id);
        s += fmt("<mesh id=\"%d\" type=\"rect\" pitch=\"%d.5\"><sub_x>%d</sub_x><sub_y>2</sub_y></mesh>", id, i + 1, i + 1);
        if (c.choose(2)) {
            s += "<pin/>";
        }
    }
    s += "</g>";
    if (!c.leaf(s)) {
        return;
    }
    pugi::xml_document d;
    d.load_string(s.c_str());
    bool dup = std::set<int>(ids.begin(), ids.end()).size() != ids.size();
    bool ok  = true;
    try {
        auto m = ParsePinMeshes(d.first_child());
        c.expect(m.size() == ids.size(), "number of pin meshes");
        for (int i = 0; i < n && !dup; i++) {
            c.expect(m.count(ids[i]) && m.at(ids[i])->id() == ids[i] && m.at(ids[i])->pitch_x() == i + 1.5 && m.at(ids[i])->n_reg() == 2 * (i + 1), "pin mesh contents");
        }
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == !dup, "duplicate identifiers");
    c.state(s);
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "G02",
                   {{"regions", regions, 30, "all rectangular meshes up to 4x4 and cylindrical ones over 5 radius sets, 1-3 radial and 2-8 azimuthal divisions, 3 pitches; lattice and on-surface points, 24 directions each"},
                    {"chords", chords, 60, "same meshes; all chords between boundary points, traced and walked surface by surface"},
                    {"rejected", rejected, 10, "all combinations of field values"},
                    {"collections", collections, 10, "all lists of up to 3 meshes over 3 identifiers"}});
}
