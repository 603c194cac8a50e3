// G03: characteristic rays tile the domain and connect at the boundaries.
#include "mc.hpp"
#include "core_input.hpp"
#include "util/error.hpp"
#include "core/core_mesh.hpp"
#include "sweepers/moc/ray_data.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;
static const double PI_ = 3.14159265358979323846;

struct PinShape {
    bool cyl;
    int nx, ny;                // rect
    std::vector<double> radii; // all rings
    int na;
    int n_reg() const
    {
        return cyl ? ((int)radii.size() + 1) * na : nx * ny;
    }
    int region(double p, double x, double y) const
    {
        if (cyl) {
            double r = std::hypot(x, y), a = std::atan2(y, x);
            a        = a < 0 ? a + 2 * PI_ : a;
            int ir   = 0;
            while (ir < (int)radii.size() && r >= radii[ir]) {
                ir++;
            }
            return ir * na + std::min(na - 1, (int)(a / (2 * PI_ / na)));
        }
        int ix = std::min(nx - 1, std::max(0, (int)((x + p / 2) / (p / nx))));
        int iy = std::min(ny - 1, std::max(0, (int)((y + p / 2) / (p / ny))));
        return iy * nx + ix;
    }
    double area(double p, int r) const
    {
        if (!cyl) {
            return p * p / nx / ny;
        }
        int ir     = r / na;
        double in  = ir ? PI_ * radii[ir - 1] * radii[ir - 1] : 0;
        double out = ir < (int)radii.size() ? PI_ * radii[ir] * radii[ir] : p * p;
        return (out - in) / na; // 4 or 8 sectors only: the outer pieces are equal
    }
    // parameters where the line (x,y)+t(u,v) meets inner surfaces
    void cuts(double p, double x, double y, double u, double v, std::vector<double> &t) const
    {
        if (cyl) {
            for (double r : radii) {
                double b = x * u + y * v, q = x * x + y * y - r * r, d = b * b - q;
                if (d > 0) {
                    t.push_back(-b - std::sqrt(d));
                    t.push_back(-b + std::sqrt(d));
                }
            }
            for (int i = 0; i < na; i++) {
                double a = 2 * PI_ * i / na, c = std::cos(a), s = std::sin(a), den = u * s - v * c;
                if (na > 1 && std::fabs(den) > 1e-12) {
                    t.push_back((y * c - x * s) / den);
                }
            }
        } else {
            for (int i = 1; i < nx; i++) {
                t.push_back((-p / 2 + i * p / nx - x) / u);
            }
            for (int i = 1; i < ny; i++) {
                t.push_back((-p / 2 + i * p / ny - y) / v);
            }
        }
    }
};
// rings of equal areas
static std::vector<double> rings(double r, int n)
{
    std::vector<double> v;
    for (int i = 1; i <= n; i++) {
        v.push_back(r * std::sqrt((double)i / n));
    }
    return v;
}
static const std::vector<PinShape> &shapes()
{
    static const std::vector<PinShape> s = {{true, 0, 0, {0.3}, 4}, {false, 2, 1, {}, 0}, {true, 0, 0, {0.2, std::sqrt((0.04 + 0.16) / 2), 0.4}, 8}, {false, 3, 2, {}, 0}, {false, 1, 1, {}, 0},
                                            // finely divided pins
                                            {true, 0, 0, rings(0.4, 24), 8}, {false, 70, 3, {}, 0}, {false, 2, 300, {}, 0}, {false, 140, 130, {}, 0}};
    return s;
}
static std::string meshes(double p)
{
    std::string q = fmt("%.17g", p);
    return "<mesh id=\"1\" type=\"cyl\" pitch=\"" + q + "\"><radii>0.3</radii><sub_azi>4</sub_azi><sub_radii>1</sub_radii></mesh>" +
           "<mesh id=\"2\" type=\"rect\" pitch=\"" + q + "\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>" + "<mesh id=\"3\" type=\"cyl\" pitch=\"" + q +
           "\"><radii>0.2 0.4</radii><sub_azi>8</sub_azi><sub_radii>1 2</sub_radii></mesh>" + "<mesh id=\"4\" type=\"rect\" pitch=\"" + q +
           "\"><sub_x>3</sub_x><sub_y>2</sub_y></mesh>" + "<mesh id=\"5\" type=\"rect\" pitch=\"" + q + "\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>";
}
static const char *PINS = "<pin id=\"1\" mesh=\"1\">1 1</pin><pin id=\"2\" mesh=\"2\">1 1</pin><pin id=\"3\" mesh=\"3\">1 1 1</pin>"
                          "<pin id=\"4\" mesh=\"4\">1 1 1 1 1 1</pin><pin id=\"5\" mesh=\"5\">1</pin>";

static std::string fine_pins(double p)
{
    std::string q = fmt("%.17g", p);
    std::string x = "<mesh id=\"6\" type=\"cyl\" pitch=\"" + q + "\"><radii>0.4</radii><sub_azi>8</sub_azi><sub_radii>24</sub_radii></mesh><pin id=\"6\" mesh=\"6\">1 1</pin>";
    for (int i = 6; i < 9; i++) {
        auto &s = shapes()[i];
        x += fmt("<mesh id=\"%d\" type=\"rect\" pitch=\"", i + 1) + q + fmt("\"><sub_x>%d</sub_x><sub_y>%d</sub_y></mesh><pin id=\"%d\" mesh=\"%d\">", s.nx, s.ny, i + 1, i + 1);
        for (int k = 0; k < s.nx * s.ny; k++) {
            x += "1 ";
        }
        x += "</pin>";
    }
    return x;
}

struct Geo {
    bool fine = false;
    int nx, ny;
    double pitch;
    std::vector<std::vector<int>> planes; // [plane][y*nx+x] shape
    std::string text;
    std::string xml;
};
static void finish(Geo &g)
{
    g.text = fmt("%dx%d pitch %g", g.nx, g.ny, g.pitch);
    g.xml  = meshes(g.pitch) + PINS + (g.fine ? fine_pins(g.pitch) : "");
    std::string lats;
    for (size_t z = 0; z < g.planes.size(); z++) {
        g.text += " pins";
        g.xml += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", (int)z + 1, g.nx, g.ny);
        for (int y = g.ny - 1; y >= 0; y--) {
            for (int x = 0; x < g.nx; x++) {
                g.text += fmt(" %d", g.planes[z][y * g.nx + x]);
                g.xml += fmt(" %d", g.planes[z][y * g.nx + x] + 1);
            }
        }
        g.xml += "</lattice>";
        lats = fmt(" %d", (int)z + 1) + lats;
    }
    g.xml += fmt("<assembly id=\"1\" np=\"%d\" hz=\"1.0\"><lattices>", (int)g.planes.size()) + lats + "</lattices></assembly>";
    g.xml += "<core nx=\"1\" ny=\"1\"" + ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect") + ">1</core>";
}

struct Opt {
    std::string quad;
    double spacing;
    bool pin, trig;
    int corr; // 0 default (flat), 1 flat, 2 angle, 3 none
    std::string text() const
    {
        static const char *C[] = {"default", "flat", "angle", "none"};
        return quad + fmt(" spacing %g %s %s %s", spacing, pin ? "pin" : "core", trig ? "trig" : "rational", C[corr]);
    }
    std::string xml() const
    {
        static const char *C[] = {"", " volume_correction=\"flat\"", " volume_correction=\"angle\"", " volume_correction=\"none\""};
        return fmt("<rays spacing=\"%.17g\"%s%s%s/>", spacing, pin ? " modularity=\"pin\"" : corr % 2 ? "" : " modularity=\"core\"",
                   trig ? " modularization=\"trig\"" : corr % 2 ? "" : " modularization=\"rational_fraction\"", C[corr]);
    }
};

struct Seg {
    double len;
    int reg, cell;
};

static void verify(Ctx &c, const Geo &g, const Opt &o)
{
    ci::Mat mt;
    mt.name = "m";
    mt.abs  = {1.0};
    mt.nf = mt.f = mt.chi = {0.0};
    mt.sc                 = {{0.0}};
    ci::Doc doc("<mocc>" + g.xml + ci::lib_tag({mt}, "lib.xsl") + "</mocc>");
    CoreMesh mesh(doc.root());
    ci::Doc qd(o.quad), rd(o.xml());
    AngularQuadrature q0(qd.root());
    int n        = q0.ndir_oct();
    double HX    = g.nx * g.pitch, HY = g.ny * g.pitch;
    double mx    = o.pin ? g.pitch : HX, my = o.pin ? g.pitch : HY;
    // a spacing so coarse that azimuths of a product set coincide is refused
    bool coincide = false;
    for (int a = 0; a < n && o.trig && o.quad.find("ls") == std::string::npos; a++) {
        for (int b = 0; b < a; b++) {
            auto even = [](double v) { return (int)std::ceil(v) + (int)std::ceil(v) % 2; };
            double ra = (double)even(mx / o.spacing * std::sin(q0[a].alpha)) / even(my / o.spacing * std::cos(q0[a].alpha));
            double rb = (double)even(mx / o.spacing * std::sin(q0[b].alpha)) / even(my / o.spacing * std::cos(q0[b].alpha));
            coincide  = coincide || (std::fabs(q0[a].alpha - q0[b].alpha) > 1e-6 && std::fabs(ra - rb) < 1e-9);
        }
    }
    std::unique_ptr<moc::RayData> made;
    try {
        made.reset(new moc::RayData(rd.root(), q0, mesh));
    } catch (const mocc::Exception &e) {
        c.expect(coincide, std::string("rejected: ") + e.what());
        c.state(o.text());
        return;
    }
    const moc::RayData &rays   = *made;
    const AngularQuadrature &q = rays.ang_quad();
    int max_seg  = 0;
    if (!c.expect(q.ndir_oct() == n && q.ndir() == 8 * n, "number of angles")) {
        return;
    }
    // modularised angles
    double wsum = 0;
    for (int a = 0; a < n; a++) {
        int Nx = rays.nx(a), Ny = rays.ny(a);
        if (!c.expect(Nx > 0 && Ny > 0, fmt("angle %d has %d+%d rays", a, Nx, Ny))) {
            return;
        }
        for (int k = 1; k < 4; k++) {
            c.expect(rays.nx(a + k * n) == rays.nx(a) && rays.ny(a + k * n) == rays.ny(a) && rays.n_rays(a + k * n) == rays.n_rays(a), "mirrored angles have the same slots");
            c.expect(rays.spacing(a + k * n) == rays.spacing(a), "mirrored angles have the same spacing");
        }
        c.expect_int((int)rays.n_rays(a), Nx + Ny, "rays of an angle");
        double al = std::atan2(Nx * HY, Ny * HX);
        c.expect_eq(q[a].alpha, al, 1e-12, "azimuth that the slots imply");
        c.expect_eq(q[a].theta, q0[a].theta, 1e-12, "polar angle");
        c.expect_eq(q[a].ox, std::sin(q0[a].theta) * std::cos(al), 1e-6, "direction x");
        c.expect_eq(rays.spacing(a), std::cos(al) * HY / Ny, 1e-12, "spacing");
        c.expect_eq(rays.spacing(a), std::sin(al) * HX / Nx, 1e-12, "spacing");
        c.expect(rays.spacing(a) <= o.spacing * (1 + 1e-6), fmt("spacing %.9g exceeds the requested %.9g", rays.spacing(a), o.spacing));
        double a0 = q0[a].alpha, lo, hi;
        if (o.trig) {
            double s = std::sin(a0) / o.spacing, k = std::cos(a0) / o.spacing;
            lo = std::atan2(s, k + 2 / my);
            hi = std::atan2(s + 2 / mx, k);
        } else {
            double tol = 0.0021 * std::max(mx / my, my / mx);
            lo         = a0 - tol;
            hi         = a0 + tol;
        }
        c.expect(al >= lo - 1e-9 && al <= hi + 1e-9, fmt("azimuth %.6g is far from the requested %.6g", al, a0));
        // pin modularity: whole numbers of rays per pin
        c.expect(!o.pin || (Nx % g.nx == 0 && Ny % g.ny == 0), "rays per pin");
        wsum += q[a].weight;
    }
    c.expect_eq(wsum, 1.0, 1e-6, "weights of an octant");
    c.expect(rays.end() - rays.begin() == (long)mesh.n_unique_planes(), "planes traced");

    for (size_t z = 0; z < g.planes.size(); z++) {
        int ip = mesh.unique_plane_id(z);
        // region numbering of the plane
        std::vector<int> first(g.nx * g.ny + 1, 0);
        for (int i = 0; i < g.nx * g.ny; i++) {
            first[i + 1] = first[i] + shapes()[g.planes[z][i]].n_reg();
        }
        int nreg = first.back();
        auto &pr = rays[ip];
        if (!c.expect((int)pr.size() == 2 * n, "angles traced")) {
            return;
        }
        std::vector<std::vector<double>> vol(2 * n, std::vector<double>(nreg, 0.0));
        std::vector<std::vector<std::vector<Seg>>> ref(2 * n);
        for (int a = 0; a < 2 * n; a++) {
            int Nx = rays.nx(a), Ny = rays.ny(a);
            double u = std::cos(q[a].alpha), v = std::sin(q[a].alpha);
            if (!c.expect((int)pr[a].size() == Nx + Ny, fmt("%d rays for angle %d", (int)pr[a].size(), a))) {
                return;
            }
            std::vector<int> in(Nx + Ny, 0), out(Nx + Ny, 0);
            double sy = HY / Ny, sx = HX / Nx;
            for (auto &r : pr[a]) {
                int b0 = r.bc(0), b1 = r.bc(1);
                if (!c.expect(b0 >= 0 && b0 < Nx + Ny && b1 >= 0 && b1 < Nx + Ny, "boundary slot")) {
                    return;
                }
                in[b0]++;
                out[b1]++;
                // the straight line that starts in slot b0
                double x0 = b0 < Ny ? (u > 0 ? 0 : HX) : (b0 - Ny + 0.5) * sx;
                double y0 = b0 < Ny ? (b0 + 0.5) * sy : 0;
                double tx = u > 0 ? (HX - x0) / u : -x0 / u, ty = (HY - y0) / v;
                double T  = std::min(tx, ty);
                int e1    = tx < ty ? (int)((y0 + T * v) / sy) : Ny + (int)((x0 + T * u) / sx);
                c.expect_int(b1, e1, fmt("angle %d: end slot of the ray from slot %d", a, b0));
                double pos1 = tx < ty ? (y0 + T * v) / sy - e1 : (x0 + T * u) / sx - (e1 - Ny);
                c.expect_eq(pos1, 0.5, 1e-6, "rays leave in the middle of a slot");
                // its true segments
                std::vector<double> t = {0, T};
                for (int i = 1; i < g.nx; i++) {
                    t.push_back((i * g.pitch - x0) / u);
                }
                for (int i = 1; i < g.ny; i++) {
                    t.push_back((i * g.pitch - y0) / v);
                }
                std::sort(t.begin(), t.end());
                std::vector<Seg> segs;
                std::vector<int> cells;
                double prev = 0;
                for (double w : t) {
                    if (w <= prev + 1e-9 || w > T + 1e-9) {
                        continue;
                    }
                    double xm = x0 + u * (prev + w) / 2, ym = y0 + v * (prev + w) / 2;
                    int cx = std::min(g.nx - 1, std::max(0, (int)(xm / g.pitch))), cy = std::min(g.ny - 1, std::max(0, (int)(ym / g.pitch)));
                    int cell = cy * g.nx + cx;
                    auto &sh = shapes()[g.planes[z][cell]];
                    double lx = x0 - (cx + 0.5) * g.pitch, ly = y0 - (cy + 0.5) * g.pitch;
                    std::vector<double> s = {w};
                    sh.cuts(g.pitch, lx, ly, u, v, s);
                    std::sort(s.begin(), s.end());
                    double p = prev;
                    for (double k : s) {
                        if (k <= p + 1e-9 || k > w + 1e-9) {
                            continue;
                        }
                        double m  = (k + p) / 2;
                        int reg   = first[cell] + sh.region(g.pitch, lx + u * m, ly + v * m);
                        if (!segs.empty() && segs.back().reg == reg && segs.back().cell == cell) {
                            segs.back().len += k - p;
                        } else {
                            segs.push_back({k - p, reg, cell});
                        }
                        p = k;
                    }
                    cells.push_back(cell);
                    prev = w;
                }
                for (auto &s : segs) {
                    vol[a][s.reg] += s.len * rays.spacing(a);
                }
                ref[a].push_back(segs);
                max_seg = std::max(max_seg, r.nseg());
                c.expect((int)r.seg_len().size() == r.nseg() && (int)r.seg_index().size() == r.nseg(), "segment counts");
                // coarse cells and faces, both ways
                for (int dir = 0; dir < 2; dir++) {
                    std::vector<int> cs = cells;
                    if (dir) {
                        std::reverse(cs.begin(), cs.end());
                    }
                    double ex = dir ? x0 : x0 + u * T, ey = dir ? y0 : y0 + v * T;
                    double bx = dir ? x0 + u * T : x0, by = dir ? y0 + v * T : y0;
                    int cell = dir ? r.cm_cell_bw() : r.cm_cell_fw(), surf = dir ? r.cm_surf_bw() : r.cm_surf_fw();
                    std::string who = fmt("angle %d slot %d %s: ", a, b0, dir ? "backward" : "forward");
                    if (!c.expect(cell == cs[0], who + fmt("starts in cell %d, expected %d", cell, cs[0]))) {
                        continue;
                    }
                    Surface es = std::fabs(bx) < 1e-9 ? Surface::WEST : std::fabs(bx - HX) < 1e-9 ? Surface::EAST : std::fabs(by) < 1e-9 ? Surface::SOUTH : Surface::NORTH;
                    c.expect(surf == mesh.coarse_surf(cell, es), who + "first surface");
                    size_t ic = 0;
                    int iseg  = 0;
                    bool done = false, ok = true;
                    for (auto &d : r.cm_data()) {
                        int ns    = dir ? d.nseg_bw : d.nseg_fw;
                        Surface s = dir ? d.bw : d.fw;
                        if (s == Surface::INVALID) {
                            ok = ok && done && ns == 0;
                            continue;
                        }
                        ok = ok && !done;
                        double visit = 0; // rounding may leave slivers at corners
                        for (int k = iseg; k < iseg + ns && k < r.nseg(); k++) {
                            visit += r.seg_len(dir ? r.nseg() - 1 - k : k);
                        }
                        if (visit > 1e-6) {
                            // a real visit; must be the next cell of the line
                            if (iseg > 0) {
                                ic++;
                            }
                            ok = ok && ic < cs.size() && cs[ic] == cell;
                        } else {
                            // passing a corner: the cell only touches the line here
                            ok = ok && iseg > 0;
                        }
                        for (int k = 0; k < ns && ok; k++, iseg++) {
                            int i = dir ? r.nseg() - 1 - iseg : iseg;
                            ok    = i >= 0 && i < r.nseg() && (int)r.seg_index(i) >= first[cell] && (int)r.seg_index(i) < first[cell + 1];
                        }
                        if (!ok) {
                            break;
                        }
                        int x = cell % g.nx, y = cell / g.nx;
                        bool fx = s == Surface::EAST || s == Surface::WEST;
                        // only faces ahead can be crossed
                        double du = dir ? -u : u, dv = dir ? -v : v;
                        ok = fx ? (du > 0) == (s == Surface::EAST) : (s == Surface::NORTH || s == Surface::SOUTH) && ((dv > 0) == (s == Surface::NORTH));
                        x += s == Surface::EAST ? 1 : s == Surface::WEST ? -1 : 0;
                        y += s == Surface::NORTH ? 1 : s == Surface::SOUTH ? -1 : 0;
                        if (x < 0 || y < 0 || x >= g.nx || y >= g.ny) {
                            done = true;
                            // the face must hold the end point
                            int px = cell % g.nx, py = cell / g.nx;
                            ok = ok && (fx ? ey > py * g.pitch - 1e-7 && ey < (py + 1) * g.pitch + 1e-7 : ex > px * g.pitch - 1e-7 && ex < (px + 1) * g.pitch + 1e-7);
                        } else {
                            cell = y * g.nx + x;
                        }
                    }
                    c.expect(ok && done && ic + 1 == cs.size() && iseg == r.nseg(), who + fmt("coarse trace visits %d of %d cells and %d of %d segments", (int)ic + 1, (int)cs.size(), iseg, r.nseg()));
                }
            }
            c.expect(std::count(in.begin(), in.end(), 1) == Nx + Ny, fmt("angle %d: every slot starts one ray", a));
            c.expect(std::count(out.begin(), out.end(), 1) == Nx + Ny, fmt("angle %d: every slot ends one ray", a));
        }
        // lengths, with the volume correction
        std::vector<double> av(nreg, 0.0);
        for (int a = 0; a < 2 * n; a++) {
            for (int i = 0; i < nreg; i++) {
                av[i] += vol[a][i] * q[a].weight / 2;
            }
        }
        std::vector<double> area(nreg);
        for (int i = 0; i < g.nx * g.ny; i++) {
            for (int k = first[i]; k < first[i + 1]; k++) {
                area[k] = shapes()[g.planes[z][i]].area(g.pitch, k - first[i]);
            }
        }
        std::vector<double> got_angle(nreg, 0.0), cov_angle(nreg, 0.0);
        for (int a = 0; a < 2 * n; a++) {
            std::vector<double> got(nreg, 0.0);
            for (size_t i = 0; i < pr[a].size(); i++) {
                auto &r = pr[a][i];
                std::vector<Seg> m; // drop slivers, join neighbours
                for (int k = 0; k < r.nseg(); k++) {
                    int reg = r.seg_index(k);
                    if (!c.expect(reg >= 0 && reg < nreg, "region of a segment")) {
                        return;
                    }
                    double f = o.corr == 3 ? 1.0 : o.corr == 2 ? area[reg] / av[reg] : area[reg] / vol[a][reg];
                    got[reg] += r.seg_len(k) * rays.spacing(a);
                    if (!c.expect(std::isfinite(r.seg_len(k)) && r.seg_len(k) > 0, "length of a segment")) {
                        continue;
                    }
                    if (r.seg_len(k) / f < 1e-6) {
                        continue;
                    }
                    if (!m.empty() && m.back().reg == reg) {
                        m.back().len += r.seg_len(k) / f;
                    } else {
                        m.push_back({r.seg_len(k) / f, reg, 0});
                    }
                }
                std::vector<Seg> e;
                for (auto &s : ref[a][i]) {
                    if (s.len < 1e-6) {
                        continue;
                    }
                    if (!e.empty() && e.back().reg == s.reg) {
                        e.back().len += s.len;
                    } else {
                        e.push_back(s);
                    }
                }
                std::string who = fmt("angle %d slot %d: ", a, r.bc(0));
                if (c.expect(m.size() == e.size(), who + fmt("%d segments, expected %d", (int)m.size(), (int)e.size()))) {
                    for (size_t k = 0; k < m.size(); k++) {
                        c.expect(m[k].reg == e[k].reg, who + fmt("segment %d is in region %d, expected %d", (int)k, m[k].reg, e[k].reg));
                        c.expect_eq(m[k].len, e[k].len, 1e-5 * std::max(1.0, e[k].len), who + "segment length");
                    }
                }
            }
            for (int k = 0; k < nreg; k++) {
                if (o.corr < 2 && vol[a][k] > 0) {
                    c.expect_rel(got[k], area[k], 1e-9, fmt("angle %d region %d: tracked area", a, k));
                }
                got_angle[k] += got[k] * q[a].weight / 2;
            }
        }
        for (int k = 0; k < nreg; k++) {
            if (o.corr == 2 && av[k] > 0) {
                c.expect_rel(got_angle[k], area[k], 1e-6, fmt("region %d: tracked area over all angles", k));
            }
        }
    }
    if (mesh.n_unique_planes() == g.planes.size()) {
        c.expect_int(rays.max_segments(), max_seg, "largest number of segments");
    }
    c.state(g.text + o.text());
}

static const std::vector<std::string> QUADS = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"2\"/>",
                                               "<ang_quad type=\"ls\" order=\"8\"/>", "<ang_quad type=\"cy\" n_azimuthal=\"8\" n_polar=\"3\"/>"};

static void options(Ctx &c, Opt &o, bool many)
{
    o.quad    = QUADS[c.choose(many ? 5 : 3)];
    static const double S[] = {0.4, 0.13, 1.5, 0.05};
    o.spacing = S[c.choose(many ? 4 : 2)];
    o.pin     = c.choose(2);
    o.trig    = c.choose(2);
    o.corr    = c.choose(4);
}

// all arrangements of pin shapes in small cores
static void layouts(Ctx &c)
{
    static const int D[][2] = {{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2}, {3, 2}};
    int k = c.choose(c.thorough() ? 7 : 6);
    Geo g;
    g.nx = D[k][0];
    g.ny = D[k][1];
    int n = g.nx * g.ny;
    g.pitch = c.choose(2) ? 1.26 : 1.0;
    g.planes.resize(1);
    for (int i = 0; i < n; i++) {
        g.planes[0].push_back(c.choose(n <= 2 ? 4 : 2));
    }
    Opt o;
    options(c, o, n <= 1 || (n == 2 && c.thorough()));
    finish(g);
    if (c.leaf(g.text + " " + o.text())) {
        verify(c, g, o);
    }
}

// core shapes, plain pins, every option
static void cores(Ctx &c)
{
    Geo g;
    g.nx    = 1 + c.choose(4);
    g.ny    = 1 + c.choose(4);
    g.pitch = c.choose(2) ? 1.26 : 0.8;
    g.planes.assign(1, std::vector<int>(g.nx * g.ny, 4));
    Opt o;
    options(c, o, true);
    finish(g);
    if (c.leaf(g.text + " " + o.text())) {
        verify(c, g, o);
    }
}

// planes that share or do not share their geometry
static void planes(Ctx &c)
{
    Geo g;
    g.nx    = 2;
    g.ny    = 1;
    g.pitch = 1.1;
    int nz  = 2 + c.choose(2);
    for (int z = 0; z < nz; z++) {
        int k = c.choose(4);
        g.planes.push_back({k / 2 ? 2 : 0, k % 2 ? 1 : 0});
    }
    Opt o;
    o.quad    = QUADS[c.choose(2)];
    o.spacing = 0.21;
    o.pin     = c.choose(2);
    o.trig    = c.choose(2);
    o.corr    = c.choose(4);
    finish(g);
    if (c.leaf(g.text + " " + o.text())) {
        verify(c, g, o);
    }
}

// many planes and many pins
static void large(Ctx &c)
{
    static const int NX[] = {2, 7, 1, 6, 3}, NY[] = {1, 1, 8, 5, 2}, NZ[] = {10, 2, 2, 1, 8};
    int k = c.choose(5), start = c.choose(4);
    Geo g;
    g.nx    = NX[k];
    g.ny    = NY[k];
    g.pitch = 1.1;
    for (int z = 0; z < NZ[k]; z++) {
        std::vector<int> v;
        for (int i = 0; i < g.nx * g.ny; i++) {
            v.push_back(i < 2 ? (start + z) >> (2 * i) & 3 : (start + i * (z + 1)) % 4);
        }
        g.planes.push_back(v);
    }
    Opt o;
    o.quad    = QUADS[c.choose(3)];
    o.spacing = 0.21;
    o.pin     = c.choose(2);
    o.trig    = c.choose(2);
    o.corr    = c.choose(4);
    finish(g);
    if (c.leaf(g.text + " " + o.text())) {
        verify(c, g, o);
    }
}

// pins with hundreds of divisions
static void fine(Ctx &c)
{
    static const int D[][2] = {{1, 1}, {2, 1}, {1, 2}};
    int k = c.choose(3);
    Geo g;
    g.fine  = true;
    g.nx    = D[k][0];
    g.ny    = D[k][1];
    g.pitch = 1.1;
    g.planes.resize(1);
    static const int S[] = {5, 6, 7, 8, 0};
    for (int i = 0; i < g.nx * g.ny; i++) {
        g.planes[0].push_back(S[c.choose(5)]);
    }
    Opt o;
    o.quad    = QUADS[c.choose(2)];
    o.spacing = 0.21;
    o.pin     = c.choose(2);
    o.trig    = c.choose(2);
    o.corr    = c.choose(4);
    finish(g);
    if (c.leaf(g.text + " " + o.text())) {
        verify(c, g, o);
    }
}

// options that make no sense
static void rejected(Ctx &c)
{
    static const std::vector<std::pair<const char *, bool>> X = {
        {"<rays spacing=\"0.2\"/>", true},
        {"<rays spacing=\"0.2\" volume_correction=\"FLAT\" modularity=\"Core\" modularization=\"Trig\"/>", true},
        {"<rays/>", false},
        {"<rays spacing=\"0\"/>", false},
        {"<rays spacing=\"-0.1\"/>", false},
        {"<rays spacing=\"x\"/>", false},
        {"<rays spacing=\"0.2\" volume_correction=\"flatt\"/>", false},
        {"<rays spacing=\"0.2\" volume_correction=\"angles\"/>", false},
        {"<rays spacing=\"0.2\" modularity=\"assembly\"/>", false},
        {"<rays spacing=\"0.2\" modularization=\"other\"/>", false},
    };
    auto &x = X[c.choose((int)X.size())];
    if (!c.leaf(x.first)) {
        return;
    }
    Geo g;
    g.nx = g.ny = 1;
    g.pitch     = 1.0;
    g.planes    = {{0}};
    finish(g);
    ci::Mat mt;
    mt.name = "m";
    mt.abs  = {1.0};
    mt.nf = mt.f = mt.chi = {0.0};
    mt.sc                 = {{0.0}};
    ci::Doc doc("<mocc>" + g.xml + ci::lib_tag({mt}, "lib.xsl") + "</mocc>"), qd(QUADS[0]), rd(x.first);
    CoreMesh mesh(doc.root());
    AngularQuadrature q(qd.root());
    bool ok = true;
    try {
        moc::RayData r(rd.root(), q, mesh);
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == x.second, ok ? "accepted" : "rejected");
    c.state(x.first);
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "G03",
                   {{"layouts", layouts, 60, "all arrangements of pin shapes in cores up to 2x2 and 3x1, crossed with all ray options"},
                    {"cores", cores, 60, "all core shapes up to 4x4 of plain pins, crossed with 5 quadratures, 4 spacings and all options"},
                    {"planes", planes, 60, "all stacks of 2-3 planes over 4 arrangements"},
                    {"large", large, 60, "up to 30 pins and 10 different planes"},
                    {"fine", fine, 60, "pins with up to 24 rings or 300 divisions along an axis, alone and two together, all options"},
                    {"rejected", rejected, 60, "valid and invalid ray options"}});
}
