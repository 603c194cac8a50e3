// G04: coarse cell and surface numbering is consistent with the geometry.
#include "mc.hpp"
#include "util/error.hpp"
#include "core_input.hpp"
#include "core/mesh.hpp"
#include "core/core_mesh.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static const std::vector<std::vector<double>> PITCH = {{1.0}, {1.26}, {0.5, 2.0}, {1.0, 0.25, 3.0}};

static VecF divisions(int n, int pat, bool rev)
{
    VecF v(1, 0.0);
    for (int i = 0; i < n; i++) {
        int k = rev ? n - 1 - i : i;
        v.push_back(v.back() + PITCH[pat][k % PITCH[pat].size()]);
    }
    return v;
}

struct Geo {
    VecF e[3];
    int n[3];
    std::array<Boundary, 6> bc;
    std::shared_ptr<Mesh> m;
    std::string desc;
};

static void choose_mesh(Ctx &c, Geo &g, int mx, int my, int mz, bool big = false)
{
    int pat[3];
    int mm[3] = {mx, my, mz};
    for (int d = 0; d < 3; d++) {
        g.n[d] = 1 + c.choose(mm[d] + (big ? 1 : 0));
        if (g.n[d] > mm[d]) { // and a longer one
            g.n[d] = d == 2 ? 5 : 6 + d;
        }
        pat[d] = g.n[d] > mm[d] ? 1 : c.choose(g.n[d] == 1 ? 2 : (int)PITCH.size());
        g.desc += fmt("%d:p%d ", g.n[d], pat[d]);
    }
    for (int d = 0; d < 3; d++) {
        g.e[d] = divisions(g.n[d], pat[d], d == 1);
    }
    g.bc = {{Boundary::VACUUM, Boundary::REFLECT, Boundary::PERIODIC, Boundary::PRESCRIBED, Boundary::PARALLEL, Boundary::VACUUM}};
}
static void build(Geo &g)
{
    g.m.reset(new Mesh(7, 5, g.e[0], g.e[1], g.e[2], g.bc));
}

static const Surface SURF[6] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
static const int SD[6]  = {0, 1, 0, 1, 2, 2};   // axis
static const int SS[6]  = {1, 1, -1, -1, 1, -1}; // sense

static void judge_numbering(Ctx &c, const Geo &g)
{
    const Mesh &m = *g.m;
    int nx = g.n[0], ny = g.n[1], nz = g.n[2];
    int ncell = nx * ny * nz, nsurf = (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1);
    double h[3] = {g.e[0].back(), g.e[1].back(), g.e[2].back()};
    auto w = [&](int d, int i) { return g.e[d][i + 1] - g.e[d][i]; };
    c.expect((int)m.nx() == nx && (int)m.ny() == ny && (int)m.nz() == nz, "dimensions");
    c.expect(m.dimensions() == VecI({nx, ny, nz}), "dimension vector");
    c.expect(m.n_pin() == ncell && (int)m.n_surf() == nsurf, fmt("%d cells %d surfaces", m.n_pin(), (int)m.n_surf()));
    c.expect((int)m.n_reg(MeshTreatment::PIN) == ncell, "pin regions");
    c.expect((int)m.n_reg(MeshTreatment::PIN_PLANE) == ncell && m.n_macroplanes() == nz, "macroplanes of a plain mesh");
    c.expect_eq(m.hx_core(), h[0], 1e-12, "width");
    c.expect_eq(m.hy_core(), h[1], 1e-12, "depth");
    c.expect((int)m.n_cell_plane() == nx * ny, "cells per plane");
    int nsp = nx * ny + (nx + 1) * ny + nx * (ny + 1);
    c.expect((int)m.n_surf_plane() == nsp, "surfaces per plane");
    for (int i = 0; i < nx; i++) {
        c.expect_eq(m.dx(i), w(0, i), 1e-12, "dx");
        c.expect_eq(m.pin_dx()[i], w(0, i), 1e-12, "pin dx");
    }
    for (int i = 0; i < ny; i++) {
        c.expect_eq(m.dy(i), w(1, i), 1e-12, "dy");
        c.expect_eq(m.pin_dy()[i], w(1, i), 1e-12, "pin dy");
    }
    for (int i = 0; i < nz; i++) {
        c.expect_eq(m.dz(i), w(2, i), 1e-12, "dz");
        c.expect_eq(m.pin_dz()[i], w(2, i), 1e-12, "pin dz");
        c.expect(m.macroplane_index(i) == i, "macroplane index");
    }
    for (int i = 0; i <= nz; i++) {
        c.expect_eq(m.z(i), g.e[2][i], 1e-12, "plane boundary");
    }
    const VecF *div[3] = {&m.x_divisions(), &m.y_divisions(), &m.z_divisions()};
    for (int d = 0; d < 3; d++) {
        if (c.expect(div[d]->size() == g.e[d].size(), "number of divisions")) {
            for (size_t i = 0; i < g.e[d].size(); i++) {
                c.expect_eq((*div[d])[i], g.e[d][i], 1e-12, "division");
            }
        }
    }
    for (int s = 0; s < 6; s++) {
        c.expect(m.boundary_condition(SURF[s]) == g.bc[s] && m.boundary()[s] == g.bc[s], "boundary kind");
        c.expect(m.boundary_array()[SD[s]][SS[s] > 0] == g.bc[s], "boundary kind by normal and sense");
    }
    // cells
    double vol = 0;
    std::vector<int> owners(nsurf, 0);
    std::vector<std::array<double, 4>> sgeo(nsurf); // centre and axis
    int k = 0;
    for (int z = 0; z < nz; z++) {
        c.expect(m.plane_cell_begin(z) == z * nx * ny && m.plane_cell_end(z) == (z + 1) * nx * ny && m.coarse_cell_offset(z) == z * nx * ny, "cell range of a plane");
        for (int y = 0; y < ny; y++) {
            for (int x = 0; x < nx; x++, k++) {
                int cell = m.coarse_cell(Position(x, y, z));
                if (!c.expect(cell == k, fmt("cell index %d of (%d,%d,%d), expected %d", cell, x, y, z, k))) {
                    return;
                }
                Position p = m.coarse_position(cell);
                c.expect(p.x == x && p.y == y && p.z == z, "position of a cell");
                double v = w(0, x) * w(1, y) * w(2, z);
                vol += v;
                c.expect_eq(m.coarse_volume(cell), v, 1e-12, "cell volume");
                c.expect_eq(m.coarse_volume()[cell], v, 1e-12, "cell volume vector");
                int ijk[3] = {x, y, z};
                for (int d = 0; d < 3; d++) {
                    c.expect_eq(m.cell_thickness(cell, (Normal)d), w(d, ijk[d]), 1e-12, "cell thickness");
                }
                for (int s = 0; s < 6; s++) {
                    int is = m.coarse_surf(cell, SURF[s]);
                    if (!c.expect(is >= 0 && is < nsurf, fmt("surface index %d", is))) {
                        return;
                    }
                    int d = SD[s], d1 = (d + 1) % 3, d2 = (d + 2) % 3;
                    double ctr[3];
                    for (int q = 0; q < 3; q++) {
                        ctr[q] = 0.5 * (g.e[q][ijk[q]] + g.e[q][ijk[q] + 1]);
                    }
                    ctr[d] = g.e[d][ijk[d] + (SS[s] > 0)];
                    std::array<double, 4> me = {{ctr[0], ctr[1], ctr[2], (double)d}};
                    if (owners[is]) {
                        bool same = true;
                        for (int q = 0; q < 4; q++) {
                            same = same && std::fabs(me[q] - sgeo[is][q]) < 1e-12;
                        }
                        c.expect(same, fmt("surface %d is used for two different faces", is));
                    }
                    sgeo[is] = me;
                    owners[is]++;
                    double a = w(d1, ijk[d1]) * w(d2, ijk[d2]);
                    c.expect_eq(m.coarse_area(cell, SURF[s]), a, 1e-12, "area by cell and side");
                    c.expect_eq(m.coarse_area(is), a, 1e-12, "area by surface");
                    c.expect((int)m.surface_normal(is) == d, fmt("normal of surface %d", is));
                    // neighbours
                    int nb[3] = {x, y, z};
                    nb[d] += SS[s];
                    bool in = nb[d] >= 0 && nb[d] < g.n[d];
                    int e   = in ? nb[2] * nx * ny + nb[1] * nx + nb[0] : -1;
                    c.expect_int(m.coarse_neighbor(cell, SURF[s]), e, fmt("neighbour of cell %d on side %d", cell, s));
                    auto pr = m.coarse_neigh_cells(is);
                    c.expect_int(SS[s] > 0 ? pr.first : pr.second, cell, fmt("cell on the near side of surface %d", is));
                    c.expect_int(SS[s] > 0 ? pr.second : pr.first, e, fmt("cell on the far side of surface %d", is));
                    if (in) {
                        auto it = m.coarse_interface(cell, e);
                        c.expect((int)it.first == is && it.second == SURF[s], "interface of two cells");
                        int opp = s < 4 ? (s + 2) % 4 : 9 - s;
                        c.expect_int(m.coarse_surf(e, SURF[opp]), is, "shared face seen from the other side");
                    }
                    // plane ranges: x/y faces belong to their plane
                    if (d < 2) {
                        c.expect(is >= m.plane_surf_xy_begin(z) && is < m.plane_surf_end(z), "side face outside its plane range");
                    } else {
                        int zz = z + (SS[s] > 0);
                        c.expect(is >= m.plane_surf_begin(zz) && is < m.plane_surf_xy_begin(zz), "axial face outside its plane range");
                    }
                }
            }
        }
    }
    c.expect_eq(vol, h[0] * h[1] * h[2], 1e-12, "total volume");
    for (int s = 0; s < nsurf; s++) {
        int d = (int)sgeo[s][3];
        if (c.expect(owners[s] > 0, fmt("surface %d belongs to no cell", s))) {
            bool edge = std::fabs(sgeo[s][d]) < 1e-12 || std::fabs(sgeo[s][d] - h[d]) < 1e-12;
            c.expect(owners[s] == (edge ? 1 : 2), fmt("surface %d has %d cells", s, owners[s]));
        }
    }
    for (int z = 0; z < nz; z++) {
        c.expect(m.plane_surf_begin(z) == z * nsp && m.plane_surf_end(z) == (z + 1) * nsp && m.coarse_surf_offset(z) == z * nsp, "surface range of a plane");
    }
    // the same face one plane up is one plane of surfaces away
    for (int i = 0; i + nx * ny < ncell; i++) {
        for (int s = 0; s < 6; s++) {
            c.expect_int(m.coarse_surf(i + nx * ny, SURF[s]) - m.coarse_surf(i, SURF[s]), nsp, "surface offset between planes");
        }
    }
    // pairs that are not neighbours
    for (int i = 0; i < ncell; i++) {
        for (int j = 0; j < ncell; j++) {
            Position a = m.coarse_position(i), b = m.coarse_position(j);
            int dist = std::abs(a.x - b.x) + std::abs(a.y - b.y) + std::abs(a.z - b.z);
            if (dist != 1) {
                bool thrown = false;
                try {
                    m.coarse_interface(i, j);
                } catch (const mocc::Exception &) {
                    thrown = true;
                }
                c.expect(thrown, fmt("interface between cells %d and %d", i, j));
            }
        }
    }
}
static void numbering(Ctx &c)
{
    Geo g;
    choose_mesh(c, g, 4, 4, 3, true);
    if (!c.leaf("mesh " + g.desc)) {
        return;
    }
    build(g);
    judge_numbering(c, g);
    c.state(g.desc);
}

// probe coordinates along one axis: all faces, points next to faces and centres
struct Probe {
    double v;
    int face; // face index, or -1
    int cell; // cell below the point (face-1 on a face)
};
static std::vector<Probe> probes(const VecF &e, bool near)
{
    std::vector<Probe> p;
    int n = e.size() - 1;
    for (int i = 0; i <= n; i++) {
        p.push_back({e[i], i, i - 1});
        if (near && i > 0) {
            p.push_back({std::nextafter(e[i], 0.0), i, i - 1});
            p.push_back({e[i] * (1 + 4e-16), i, i - 1});
        }
        if (i < n) {
            double d = e[i + 1] - e[i];
            for (double f : {0.001, 0.31, 0.5, 0.999}) {
                p.push_back({e[i] + f * d, -1, i});
            }
        }
    }
    return p;
}

static void judge_points(Ctx &c, const Geo &g)
{
    const Mesh &m = *g.m;
    int nx = g.n[0], ny = g.n[1], nz = g.n[2];
    auto px = probes(g.e[0], false), py = probes(g.e[1], false), pz = probes(g.e[2], false);
    auto near = [](const Probe &p, int got, int n) {
        // closed cell that contains the point
        if (p.face < 0) {
            return got == p.cell;
        }
        return got >= 0 && got < n && (got == p.face || got == p.face - 1);
    };
    for (auto &x : px) {
        for (auto &y : py) {
            int k = m.coarse_cell_point(Point2(x.v, y.v));
            bool ok = k >= 0 && k < nx * ny && near(x, k % nx, nx) && near(y, k / nx, ny);
            c.expect(ok, fmt("cell of point (%.17g,%.17g) is %d", x.v, y.v, k));
            for (auto &z : pz) {
                int k3 = m.coarse_cell_point(Point3(x.v, y.v, z.v));
                ok     = k3 >= 0 && k3 < nx * ny * nz && near(x, k3 % nx, nx) && near(y, k3 / nx % ny, ny) && near(z, k3 / (nx * ny), nz);
                c.expect(ok, fmt("cell of point (%.17g,%.17g,%.17g) is %d", x.v, y.v, z.v, k3));
                // faces of the domain crossed outwards
                for (int o = 0; o < 8; o++) {
                    double sx = o & 1 ? 1 : -1, sy = o & 2 ? 1 : -1, sz = o & 4 ? 1 : -1;
                    Direction d(0.6 * sx, 0.64 * sy, 0.48 * sz);
                    std::multiset<int> want, got;
                    if (x.face == 0 && sx < 0) {
                        want.insert(Surface::WEST);
                    }
                    if (x.face == nx && sx > 0) {
                        want.insert(Surface::EAST);
                    }
                    if (y.face == 0 && sy < 0) {
                        want.insert(Surface::SOUTH);
                    }
                    if (y.face == ny && sy > 0) {
                        want.insert(Surface::NORTH);
                    }
                    if (z.face == 0 && sz < 0) {
                        want.insert(Surface::BOTTOM);
                    }
                    if (z.face == nz && sz > 0) {
                        want.insert(Surface::TOP);
                    }
                    for (auto s : m.boundary_surface(Point3(x.v, y.v, z.v), d)) {
                        if (s != Surface::INTERNAL) {
                            got.insert(s);
                        }
                    }
                    c.expect(got == want, fmt("%d domain faces instead of %d crossed at (%g,%g,%g) direction %+g %+g %+g", (int)got.size(), (int)want.size(), x.v, y.v, z.v, sx, sy, sz));
                }
            }
        }
    }
    for (auto &z : probes(g.e[2], true)) {
        for (double oz : {-1.0, -1e-6, 0.0, 1e-6, 1.0}) {
            bool thrown = false;
            int iz      = -1;
            try {
                iz = m.plane_index(z.v, oz);
            } catch (const mocc::Exception &) {
                thrown = true;
            }
            if (z.face < 0) {
                c.expect(!thrown && iz == z.cell, fmt("plane %d at z=%.17g", iz, z.v));
            } else if (oz == 0.0) {
                c.expect(thrown, fmt("plane index on an interface without direction gave %d", iz));
            } else {
                int e = oz > 0 ? std::min(z.face, nz - 1) : std::max(z.face - 1, 0);
                c.expect(!thrown && iz == e, fmt("plane %d at z=%.17g going %g, expected %d", iz, z.v, oz, e));
            }
        }
    }
}
static void points(Ctx &c)
{
    Geo g;
    choose_mesh(c, g, 3, 3, 2);
    if (!c.leaf("mesh " + g.desc)) {
        return;
    }
    build(g);
    judge_points(c, g);
    c.state(g.desc);
}

// what a line through the plane meets at each point
static void judge_crossings(Ctx &c, const Geo &g)
{
    const Mesh &m = *g.m;
    int nx = g.n[0], ny = g.n[1];
    auto px = probes(g.e[0], true), py = probes(g.e[1], true);
    for (auto &x : px) {
        for (auto &y : py) {
            Point2 p(x.v, y.v);
            bool onx = x.face >= 0, ony = y.face >= 0;
            bool bx = x.face == 0 || x.face == nx, by = y.face == 0 || y.face == ny;
            for (int oct = 1; oct <= 4; oct++) {
                int sx = (oct == 1 || oct == 4) ? 1 : -1, sy = oct <= 2 ? 1 : -1;
                Surface SXo = sx > 0 ? Surface::EAST : Surface::WEST, SYo = sy > 0 ? Surface::NORTH : Surface::SOUTH;
                Surface SXi = sx > 0 ? Surface::WEST : Surface::EAST, SYi = sy > 0 ? Surface::SOUTH : Surface::NORTH;
                Surface s[2] = {Surface::INVALID, Surface::INVALID};
                int n        = m.coarse_norm_point(p, oct, s);
                // entering the domain here?
                bool inx = (x.face == 0 && sx > 0) || (x.face == nx && sx < 0);
                bool iny = (y.face == 0 && sy > 0) || (y.face == ny && sy < 0);
                bool outx = bx && !inx, outy = by && !iny;
                std::vector<Surface> want;
                if (onx && ony && bx && by) {
                    continue; // domain corner
                } else if (onx && !ony) {
                    want = {inx ? SXi : SXo};
                } else if (ony && !onx) {
                    want = {iny ? SYi : SYo};
                } else if (onx && ony) {
                    if (inx) {
                        want = {SXi};
                    } else if (iny) {
                        want = {SYi};
                    } else if (outx) {
                        want = {SYo, SXo}; // leave through the face of the cell that the ray would reach
                    } else if (outy) {
                        want = {SXo, SYo};
                    } else {
                        want = {SXo, SYo};
                    }
                }
                bool ok = n == (int)want.size();
                for (int i = 0; ok && i < n; i++) {
                    ok = s[i] == want[i];
                }
                c.expect(ok, fmt("point (%.17g,%.17g) octant %d: %d surfaces %d %d, expected %d first %d", x.v, y.v, oct, n, (int)s[0], (int)s[1], (int)want.size(),
                                 want.empty() ? -1 : (int)want[0]));
                // entry cell
                if (inx || iny) {
                    int ix = onx ? (sx > 0 ? x.face : x.face - 1) : x.cell, iy = ony ? (sy > 0 ? y.face : y.face - 1) : y.cell;
                    if (ix >= 0 && ix < nx && iy >= 0 && iy < ny && !outx && !outy) {
                        c.expect_int(m.coarse_boundary_cell(p, oct), iy * nx + ix, fmt("entry cell at (%.17g,%.17g) octant %d", x.v, y.v, oct));
                    }
                }
            }
            // points on exactly one face
            if (onx != ony) {
                for (int side = 0; side < 2; side++) {
                    int ix = onx ? x.face - side : x.cell, iy = ony ? y.face - side : y.cell;
                    if (ix < 0 || ix >= nx || iy < 0 || iy >= ny) {
                        continue;
                    }
                    int cell = iy * nx + ix;
                    std::array<int, 2> s = {{-1, -1}};
                    int n = m.coarse_surf_point(p, cell, s);
                    int e = m.coarse_surf(cell, onx ? (side ? Surface::EAST : Surface::WEST) : (side ? Surface::NORTH : Surface::SOUTH));
                    c.expect(n == 1 && s[0] == e, fmt("surface of point (%.17g,%.17g): %d, expected %d", x.v, y.v, s[0], e));
                }
            } else if (onx && !(bx && by)) {
                // a corner is passed through the x neighbour; on the edge of
                // the domain one of the two cells there owns the corner
                for (int q = 0; q < 4; q++) {
                    int ex = q & 1, ey = q >> 1; // the corner is east/north of the cell
                    int ix = x.face - ex, iy = y.face - ey;
                    if (ix < 0 || ix >= nx || iy < 0 || iy >= ny) {
                        continue;
                    }
                    int cell     = iy * nx + ix;
                    Surface fx = ex ? Surface::EAST : Surface::WEST, fy = ey ? Surface::NORTH : Surface::SOUTH;
                    int cx = cell + (ex ? 1 : -1), cy = cell + (ey ? nx : -nx);
                    std::vector<int> want;
                    if (bx) {
                        want = ey ? std::vector<int>{m.coarse_surf(cell, fx)} : std::vector<int>{m.coarse_surf(cy, fx), m.coarse_surf(cell, fy)};
                    } else if (by) {
                        bool own = ey ? !ex : ex;
                        want = own ? std::vector<int>{m.coarse_surf(cell, fy)} : std::vector<int>{m.coarse_surf(cx, fy), m.coarse_surf(cell, fx)};
                    } else {
                        want = {m.coarse_surf(cell, fx), m.coarse_surf(cx, fy)};
                    }
                    std::array<int, 2> s = {{-1, -1}};
                    int n   = m.coarse_surf_point(p, cell, s);
                    bool ok = n == (int)want.size();
                    for (int i = 0; ok && i < n; i++) {
                        ok = s[i] == want[i];
                    }
                    c.expect(ok, fmt("corner (%.17g,%.17g) of cell %d: %d surfaces %d %d, expected %d first %d", x.v, y.v, cell, n, s[0], s[1], (int)want.size(), want[0]));
                }
            } else if (!onx) {
                std::array<int, 2> s = {{-1, -1}};
                c.expect(m.coarse_surf_point(p, y.cell * nx + x.cell, s) == 0, "surface at an interior point");
            }
        }
    }
}
static void crossings(Ctx &c)
{
    Geo g;
    choose_mesh(c, g, 4, 4, 1);
    if (!c.leaf("mesh " + g.desc)) {
        return;
    }
    build(g);
    judge_crossings(c, g);
    c.state(g.desc);
}

// all chords between boundary points
static void judge_chords(Ctx &c, const Geo &g)
{
    const Mesh &m = *g.m;
    double hx = g.e[0].back(), hy = g.e[1].back();
    std::vector<Point2> b;
    int nb = c.thorough() ? 23 : 11;
    for (int i = 1; i < nb; i++) {
        double f = (i + 0.013) / nb;
        b.push_back(Point2(f * hx, 0));
        b.push_back(Point2(f * hx, hy));
        b.push_back(Point2(0, f * hy));
        b.push_back(Point2(hx, f * hy));
    }
    for (auto &p : b) {
        for (auto &q : b) {
            bool sameside = (p.x == q.x && (p.x == 0 || p.x == hx)) || (p.y == q.y && (p.y == 0 || p.y == hy));
            if (!(q.y > p.y) || sameside) {
                continue;
            }
            std::vector<double> t = {0.0, 1.0};
            for (size_t i = 1; i + 1 < g.e[0].size(); i++) {
                double u = (g.e[0][i] - p.x) / (q.x - p.x);
                if (p.x != q.x && u > 0 && u < 1) {
                    t.push_back(u);
                }
            }
            for (size_t i = 1; i + 1 < g.e[1].size(); i++) {
                double u = (g.e[1][i] - p.y) / (q.y - p.y);
                if (u > 0 && u < 1) {
                    t.push_back(u);
                }
            }
            std::sort(t.begin(), t.end());
            t.erase(std::unique(t.begin(), t.end(), [](double a, double b) { return std::fabs(a - b) < 1e-10; }), t.end());
            std::vector<Point2> ps = {p, q};
            m.trace(ps);
            if (!c.expect(ps.size() == t.size(), fmt("line (%g,%g)-(%g,%g): %d points, expected %d", p.x, p.y, q.x, q.y, (int)ps.size(), (int)t.size()))) {
                continue;
            }
            for (size_t i = 0; i < t.size(); i++) {
                c.expect_eq(ps[i].x, p.x + t[i] * (q.x - p.x), 1e-9, "crossing x");
                c.expect_eq(ps[i].y, p.y + t[i] * (q.y - p.y), 1e-9, "crossing y");
            }
        }
    }
}
static void chords(Ctx &c)
{
    Geo g;
    choose_mesh(c, g, 3, 3, 1);
    if (!c.leaf("mesh " + g.desc)) {
        return;
    }
    build(g);
    judge_chords(c, g);
    c.state(g.desc);
}

// the coarse mesh of a core made of assemblies and lattices
static void cores(Ctx &c)
{
    static const std::vector<std::vector<double>> HZ = {{2.0}, {1.0, 0.25, 3.0}};
    Geo g;
    int ax = 1 + c.choose(3), ay = 1 + c.choose(2), lx = 1 + c.choose(3), ly = 1 + c.choose(3), nz = 1 + c.choose(4);
    int hz       = c.choose(nz == 1 ? 1 : 2);
    static const char *NAME[] = {"vacuum", "reflect", "vacuum", "reflect", "reflect", "vacuum"};
    int turn     = c.choose(2);
    double pitch = turn ? 1.26 : 1.0;
    g.desc   = fmt("core of %dx%d assemblies of %dx%d pins, pitch %g, %d planes h%d b%d", ax, ay, lx, ly, pitch, nz, hz, turn);
    if (!c.leaf(g.desc)) {
        return;
    }
    g.n[0] = ax * lx;
    g.n[1] = ay * ly;
    g.n[2] = nz;
    for (int d = 0; d < 3; d++) {
        g.e[d].assign(1, 0.0);
    }
    for (int d = 0; d < 2; d++) {
        for (int i = 0; i < g.n[d]; i++) {
            g.e[d].push_back((i + 1) * pitch);
        }
    }
    std::string xml = fmt("<mocc><mesh id=\"1\" type=\"rect\" pitch=\"%.17g\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh><pin id=\"1\" mesh=\"1\">1</pin>", pitch);
    xml += fmt("<lattice id=\"1\" nx=\"%d\" ny=\"%d\">", lx, ly);
    for (int i = 0; i < lx * ly; i++) {
        xml += " 1";
    }
    std::string heights, lats;
    for (int z = 0; z < nz; z++) {
        double h = HZ[hz][z % HZ[hz].size()];
        g.e[2].push_back(g.e[2].back() + h);
        heights = fmt("%.17g ", h) + heights; // the input lists planes from the top
        lats += " 1";
    }
    xml += fmt("</lattice><assembly id=\"1\" np=\"%d\"><hz>", nz) + heights + "</hz><lattices>" + lats + "</lattices></assembly>";
    const char *B[6];
    for (int s = 0; s < 6; s++) {
        B[s]    = NAME[(s + turn) % 6];
        g.bc[s] = B[s][0] == 'v' ? Boundary::VACUUM : Boundary::REFLECT;
    }
    xml += fmt("<core nx=\"%d\" ny=\"%d\" east=\"%s\" north=\"%s\" west=\"%s\" south=\"%s\" top=\"%s\" bottom=\"%s\">", ax, ay, B[0], B[1], B[2], B[3], B[4], B[5]);
    for (int i = 0; i < ax * ay; i++) {
        xml += " 1";
    }
    ci::Mat mt;
    mt.name = "m";
    mt.abs  = {1.0};
    mt.nf = mt.f = mt.chi = {0.0};
    mt.sc                 = {{0.0}};
    ci::Doc doc(xml + "</core>" + ci::lib_tag({mt}, "lib.xsl") + "</mocc>");
    g.m = std::make_shared<CoreMesh>(doc.root());
    judge_numbering(c, g);
    for (int d = 0; d < 3; d++) { // look up points on the faces that the mesh itself reports
        g.e[d] = d == 0 ? g.m->x_divisions() : d == 1 ? g.m->y_divisions() : g.m->z_divisions();
    }
    judge_points(c, g);
    judge_crossings(c, g);
    if (ax * lx <= 4 && ay * ly <= 4 && nz == 1) {
        judge_chords(c, g);
    }
    c.state(g.desc);
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "G04",
                   {{"numbering", numbering, 30, "all meshes up to 4x4x3, and with 6, 7 or 5 cells along the x, y and z axes, over 4 pitch patterns per axis; every cell, side and cell pair"},
                    {"points", points, 30, "all meshes up to 3x3x2; lattice of points on and between faces, all direction octants"},
                    {"crossings", crossings, 30, "all meshes up to 4x4; points on and within rounding of faces, all octants"},
                    {"chords", chords, 30, "all meshes up to 3x3; all chords between 40 boundary points"},
                    {"cores", cores, 30, "all cores of up to 3x2 assemblies of up to 3x3 pins with up to 4 planes, two height patterns and two pairs of pitch and boundaries; all the judgements above on the mesh of the core"}});
}
