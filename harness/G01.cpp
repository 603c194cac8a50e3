// G01: the core that is simulated is the layout that the input describes.
#include <numeric>
#include "mc.hpp"
#include "core_input.hpp"
#include "util/error.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

// one-group library: material k has total cross section 1+k/8
static std::vector<ci::Mat> library()
{
    std::vector<ci::Mat> m;
    for (int i = 1; i <= 4; i++) {
        ci::Mat x;
        x.name = fmt("m%d", i);
        x.abs  = {1.0 + i / 8.0};
        bool fis = i == 1;
        x.nf   = {fis ? 0.5 : 0.0};
        x.f    = {fis ? 0.2 : 0.0};
        x.chi  = {fis ? 1.0 : 0.0};
        x.sc   = {{0.0}};
        m.push_back(x);
    }
    return m;
}

// pins: cylinder (1 in 2), 2x2 blocks (2 3 / 4 1), 1x2 stack (3 over 2), 3x1 (4 2 3), another
// cylinder mesh shared with the first (3 in 4)
struct PinRef {
    int mesh;
    std::vector<int> mats;
};
static const std::vector<PinRef> PINS = {{11, {1, 2}}, {12, {2, 3, 4, 1}}, {13, {3, 2}}, {14, {4, 2, 3}}, {11, {3, 4}}};
static const char *MESHES =
    "<mesh id=\"11\" type=\"cyl\" pitch=\"%s\"><radii>0.3</radii><sub_azi>4</sub_azi><sub_radii>2</sub_radii></mesh>"
    "<mesh id=\"12\" type=\"rect\" pitch=\"%s\"><sub_x>2</sub_x><sub_y>2</sub_y></mesh>"
    "<mesh id=\"13\" type=\"rect\" pitch=\"%s\"><sub_x>1</sub_x><sub_y>2</sub_y></mesh>"
    "<mesh id=\"14\" type=\"rect\" pitch=\"%s\"><sub_x>3</sub_x><sub_y>1</sub_y></mesh>"
    "<mesh id=\"15\" type=\"rect\" pitch=\"2.0\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>";
static const int NREG[] = {12, 4, 2, 3, 12};

static int material_at(int pin, double pitch, double x, double y)
{
    auto &m = PINS[pin].mats;
    double h = pitch / 2;
    switch (PINS[pin].mesh) {
    case 11:
        return std::hypot(x, y) < 0.3 ? m[0] : m[1];
    case 12: // listed from the upper left
        return y > 0 ? (x < 0 ? m[0] : m[1]) : (x < 0 ? m[2] : m[3]);
    case 13:
        return y > 0 ? m[0] : m[1];
    default:
        return x < -h + pitch / 3 ? m[0] : x < -h + 2 * pitch / 3 ? m[1] : m[2];
    }
}
static double area_at(int pin, double pitch, double x, double y)
{
    switch (PINS[pin].mesh) {
    case 11:
        return std::hypot(x, y) < 0.3 ? 3.14159265358979323846 * 0.09 / 8 : (pitch * pitch - 3.14159265358979323846 * 0.09) / 4;
    case 12:
        return pitch * pitch / 4;
    case 13:
        return pitch * pitch / 2;
    default:
        return pitch * pitch / 3;
    }
}

struct Layout {
    double pitch = 1.0;
    std::vector<std::vector<std::vector<int>>> lat; // [id][row from north][col] -> pin
    struct Asy {
        std::vector<int> lats; // top down
    };
    std::vector<Asy> asys;
    std::vector<double> hz; // top down
    bool scalar_hz = false;
    std::vector<int> groups; // sizes, top down
    std::vector<std::vector<int>> core; // [row from north][col] -> assembly
    std::string bc = ci::bcs("reflect", "vacuum", "reflect", "prescribed", "vacuum", "reflect");
};

static std::string pins_xml(double pitch)
{
    std::string p = fmt("%.17g", pitch);
    std::string s = fmt(MESHES, p.c_str(), p.c_str(), p.c_str(), p.c_str());
    for (size_t i = 0; i < PINS.size(); i++) {
        s += fmt("<pin id=\"%d\" mesh=\"%d\">", (int)i + 1, PINS[i].mesh);
        for (int m : PINS[i].mats) {
            s += fmt(" %d", m);
        }
        s += "</pin>";
    }
    s += "<pin id=\"6\" mesh=\"15\">1</pin>";
    return s;
}

static std::string xml_of(const Layout &l)
{
    std::string s;
    for (size_t i = 0; i < l.lat.size(); i++) {
        s += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", (int)i + 21, (int)l.lat[i][0].size(), (int)l.lat[i].size());
        for (auto &r : l.lat[i]) {
            for (int p : r) {
                s += fmt(" %d", p + 1);
            }
            s += "\n";
        }
        s += "</lattice>";
    }
    for (size_t i = 0; i < l.asys.size(); i++) {
        s += fmt("<assembly id=\"%d\" np=\"%d\"", (int)i + 31, (int)l.asys[i].lats.size());
        if (l.scalar_hz) {
            s += fmt(" hz=\"%g\">", l.hz[0]);
        } else {
            s += "><hz>";
            for (double h : l.hz) {
                s += fmt(" %g", h);
            }
            s += "</hz>";
        }
        s += "<lattices>";
        size_t k = 0;
        for (int g : l.groups) {
            s += g > 1 ? "{" : "";
            for (int j = 0; j < g; j++) {
                s += fmt(" %d", l.asys[i].lats[k++] + 21);
            }
            s += g > 1 ? " } " : " ";
        }
        s += "</lattices></assembly>";
    }
    s += fmt("<core nx=\"%d\" ny=\"%d\"", (int)l.core[0].size(), (int)l.core.size()) + l.bc + ">";
    for (auto &r : l.core) {
        for (int a : r) {
            s += fmt(" %d", a + 31);
        }
        s += "\n";
    }
    return s + "</core>";
}

static std::string whole(const std::string &pins, const std::string &rest)
{
    return "<mocc>" + pins + ci::lib_tag(library(), "lib.xsl") + rest + "</mocc>";
}

static void verify(Ctx &c, const Layout &l)
{
    ci::Doc doc(whole(pins_xml(l.pitch), xml_of(l)));
    std::unique_ptr<CoreMesh> mesh;
    try {
        mesh.reset(new CoreMesh(doc.root()));
    } catch (const mocc::Exception &e) {
        c.fail(std::string("valid layout rejected: ") + e.what());
        return;
    }
    const CoreMesh &m = *mesh;
    // expected pin map
    int nz = l.hz.size(), nx = 0, ny = 0;
    std::vector<std::vector<std::vector<int>>> pin(nz); // [z][y][x]
    for (int z = 0; z < nz; z++) {
        int zt = nz - 1 - z;
        for (int ry = (int)l.core.size() - 1; ry >= 0; ry--) {
            int rows = l.lat[l.asys[l.core[ry][0]].lats[zt]].size();
            for (int iy = rows - 1; iy >= 0; iy--) {
                std::vector<int> row;
                for (int a : l.core[ry]) {
                    auto &r = l.lat[l.asys[a].lats[zt]][iy];
                    row.insert(row.end(), r.begin(), r.end());
                }
                pin[z].push_back(row);
            }
        }
    }
    ny = pin[0].size();
    nx = pin[0][0].size();
    if (!c.expect((int)m.nx() == nx && (int)m.ny() == ny && (int)m.nz() == nz, fmt("%dx%dx%d pins", (int)m.nx(), (int)m.ny(), (int)m.nz()))) {
        return;
    }
    std::vector<double> dz(l.hz.rbegin(), l.hz.rend());
    double z0 = 0;
    for (int z = 0; z < nz; z++) {
        c.expect_eq(m.dz(z), dz[z], 1e-13, fmt("height of plane %d", z));
        c.expect_eq(m.z(z), z0, 1e-13, "plane bottom");
        z0 += dz[z];
    }
    for (int i = 0; i < nx; i++) {
        c.expect_eq(m.dx(i), l.pitch, 1e-13, "pin width");
    }
    for (int i = 0; i < ny; i++) {
        c.expect_eq(m.dy(i), l.pitch, 1e-13, "pin depth");
    }
    c.expect_eq(m.hx_core(), nx * l.pitch, 1e-12, "core width");
    c.expect_eq(m.hy_core(), ny * l.pitch, 1e-12, "core depth");
    c.expect(m.is_pin_modular(), "modularity");
    Boundary B[6] = {Boundary::VACUUM, Boundary::PRESCRIBED, Boundary::REFLECT, Boundary::REFLECT, Boundary::REFLECT, Boundary::VACUUM};
    for (int s = 0; s < 6; s++) {
        c.expect(m.boundary_condition((Surface)s) == B[s], fmt("boundary %d", s));
    }
    c.expect((int)m.n_group() == 1, "groups");

    // pins in iteration order
    std::vector<int> seen(nx * ny * nz, 0);
    int ip = 0, nreg = 0, nfuel = 0;
    std::vector<int> first(nx * ny * nz), fuel(nz, 0), plane_first(nz, -1), plane_n(nz, 0);
    for (const Pin *p : m) {
        Position pos = m.pin_position(ip);
        if (!c.expect(pos.x >= 0 && pos.x < nx && pos.y >= 0 && pos.y < ny && pos.z >= 0 && pos.z < nz, "pin position")) {
            return;
        }
        int cell = (pos.z * ny + pos.y) * nx + pos.x;
        seen[cell]++;
        int e = pin[pos.z][pos.y][pos.x];
        c.expect(p->id() == e + 1, fmt("pin %d at (%d,%d,%d), expected %d", p->id(), pos.x, pos.y, pos.z, e + 1));
        c.expect(p->mesh_id() == PINS[e].mesh && p->n_reg() == NREG[e], "pin mesh");
        bool isf = std::count(PINS[e].mats.begin(), PINS[e].mats.end(), 1);
        c.expect(p->is_fuel() == isf, "fuel flag");
        fuel[pos.z] += isf;
        c.expect_eq(m.pin_origin(ip).x, (pos.x + 0.5) * l.pitch, 1e-12, "pin origin x");
        c.expect_eq(m.pin_origin(ip).y, (pos.y + 0.5) * l.pitch, 1e-12, "pin origin y");
        first[cell] = nreg;
        if (plane_first[pos.z] < 0) {
            plane_first[pos.z] = nreg;
        }
        nreg += p->n_reg();
        plane_n[pos.z] += p->n_reg();
        ip++;
    }
    nfuel = *std::max_element(fuel.begin(), fuel.end());
    c.expect(ip == nx * ny * nz && std::count(seen.begin(), seen.end(), 1) == ip, "every position is visited once");
    c.expect_int(m.n_fuel_2d(), nfuel, "fuel pins per plane");
    c.expect_int((int)m.n_reg(MeshTreatment::TRUE), nreg, "regions");
    c.expect_int((int)m.n_reg(MeshTreatment::PIN), nx * ny * nz, "pins");
    for (int z = 0; z < nz; z++) {
        c.expect_int((int)m.first_reg_plane(z), plane_first[z], "first region of a plane");
        auto a = m.begin(z), b = m.end(z);
        c.expect(b - a == nx * ny && a - m.begin() == nx * ny * z, "pins of a plane");
        c.expect_int((int)m.get_plane_by_axial_index(z).n_reg(), plane_n[z], "regions of a plane");
        // planes share geometry exactly when all pin meshes agree
        for (int y = 0; y < z; y++) {
            bool same = true;
            for (int i = 0; i < ny && same; i++) {
                for (int j = 0; j < nx && same; j++) {
                    same = PINS[pin[z][i][j]].mesh == PINS[pin[y][i][j]].mesh;
                }
            }
            c.expect((m.unique_plane_id(y) == m.unique_plane_id(z)) == same, "planes with the same geometry");
        }
    }
    // macroplanes, bottom up
    std::vector<int> groups(l.groups.rbegin(), l.groups.rend());
    c.expect(m.subplane() == VecI(groups.begin(), groups.end()), "plane groups");
    bool uniform = true; // identical planes within each group
    int iz = 0;
    std::vector<double> mh;
    if (c.expect(m.macroplanes().size() == groups.size() && m.n_macroplanes() == (int)groups.size(), "number of macroplanes")) {
        for (size_t g = 0; g < groups.size(); g++) {
            auto &mp = m.macroplanes()[g];
            double h = 0;
            for (int k = 0; k < groups[g]; k++) {
                h += dz[iz + k];
                c.expect_int(m.macroplane_index(iz + k), (int)g, "macroplane index");
                uniform = uniform && pin[iz + k] == pin[iz];
            }
            mh.push_back(h);
            c.expect(mp.iz_min == iz && mp.iz_max == iz + groups[g] - 1, "macroplane range");
            c.expect_eq(mp.height, h, 1e-13, "macroplane height");
            c.expect_eq(m.macroplane_heights()[g], h, 1e-13, "macroplane height vector");
            c.expect((int)mp.size() == nx * ny, "macroplane pins");
            int k = iz * nx * ny;
            for (const Pin *p : mp) {
                Position pos = m.pin_position(k++);
                c.expect(p->id() == pin[iz][pos.y][pos.x] + 1, "pin of a macroplane");
            }
            iz += groups[g];
        }
        c.expect_int((int)m.n_reg(MeshTreatment::PIN_PLANE), nx * ny * (int)groups.size(), "macroplane pins in all");
    }
    // materials and volumes by position
    XSMesh xs(m, MeshTreatment::TRUE);
    std::vector<double> tot(nreg, -1);
    std::vector<int> owners(nreg, 0);
    for (auto &r : xs) {
        for (int i : r.reg()) {
            if (c.expect(i >= 0 && i < nreg, "region of a material")) {
                tot[i] = r.xsmactr(0);
                owners[i]++;
            }
        }
    }
    c.expect(xs.n_reg_expanded() == nreg && std::count(owners.begin(), owners.end(), 1) == nreg, "every region has one material");
    VecF vol = m.volumes(MeshTreatment::TRUE);
    VecF pv  = m.volumes(MeshTreatment::PIN), mpv = m.volumes(MeshTreatment::PIN_PLANE);
    c.expect((int)vol.size() == nreg && (int)pv.size() == nx * ny * nz && mpv.size() == nx * ny * groups.size(), "volume counts");
    c.expect_eq(std::accumulate(vol.begin(), vol.end(), 0.0), nx * ny * l.pitch * l.pitch * z0, 1e-11, "total volume");
    std::vector<double> ptot, pvol;
    int npl = 0;
    std::vector<int> mp_first;
    if (uniform) {
        iz = 0;
        for (int g : groups) {
            mp_first.push_back(npl);
            npl += plane_n[iz];
            iz += g;
        }
        c.expect_int((int)m.n_reg(MeshTreatment::PLANE), npl, "macroplane regions");
        XSMesh xp(m, MeshTreatment::PLANE);
        ptot.assign(npl, -1);
        for (auto &r : xp) {
            for (int i : r.reg()) {
                if (c.expect(i >= 0 && i < npl, "macroplane region of a material")) {
                    ptot[i] = r.xsmactr(0);
                }
            }
        }
        VecF v = m.volumes(MeshTreatment::PLANE);
        pvol.assign(v.begin(), v.end());
        c.expect((int)pvol.size() == npl, "macroplane volumes");
    }
    double zz = 0;
    for (int z = 0; z < nz; z++) {
        double zc = zz + 0.37 * dz[z];
        zz += dz[z];
        for (int y = 0; y < ny; y++) {
            for (int x = 0; x < nx; x++) {
                int e    = pin[z][y][x];
                int cell = (z * ny + y) * nx + x;
                c.expect_eq(pv[cell], l.pitch * l.pitch * dz[z], 1e-12, "pin volume");
                int mp = m.macroplane_index(z);
                c.expect_eq(mpv[(mp * ny + y) * nx + x], l.pitch * l.pitch * mh[mp], 1e-12, "macroplane pin volume");
                for (double fx : {-0.45, -0.1, 0.1, 0.21, 0.45}) {
                    for (double fy : {-0.45, -0.1, 0.1, 0.21, 0.45}) {
                        double lx = fx * l.pitch, ly = fy * l.pitch;
                        double gx = (x + 0.5) * l.pitch + lx, gy = (y + 0.5) * l.pitch + ly;
                        double et = 1.0 + material_at(e, l.pitch, lx, ly) / 8.0, ea = area_at(e, l.pitch, lx, ly);
                        Point2 p(gx, gy);
                        int fr = 1000;
                        auto t = m.get_pinmesh(p, m.unique_plane_id(z), fr);
                        std::string at = fmt("at (%g,%g,%g): ", gx, gy, zc);
                        c.expect(t.position.x == x && t.position.y == y && t.pm->id() == PINS[e].mesh, at + "pin mesh lookup");
                        c.expect_eq(p.x, (x + 0.5) * l.pitch, 1e-12, "pin mesh origin x");
                        c.expect_eq(p.y, (y + 0.5) * l.pitch, 1e-12, "pin mesh origin y");
                        int r = fr - 1000 + plane_first[z] + t.pm->find_reg(Point2(lx, ly));
                        if (!c.expect(r >= 0 && r < nreg, at + "region")) {
                            continue;
                        }
                        c.expect_int(fr - 1000 + plane_first[z], first[cell], at + "first region");
                        c.expect_eq(tot[r], et, 1e-13, at + "material");
                        c.expect_eq(vol[r], ea * dz[z], 1e-12, at + "region volume");
                        if (uniform) {
                            int q = r - plane_first[z] + mp_first[mp];
                            c.expect_eq(ptot[q], et, 1e-13, at + "macroplane material");
                            c.expect_eq(pvol[q], ea * mh[mp], 1e-12, at + "macroplane region volume");
                        }
                        c.expect_int(m.region_at_point(Point3(gx, gy, zc)), r, at + "region lookup");
                        for (double oz : {0.5, -0.5}) {
                            auto li = m.get_location_info(Point3(gx, gy, zc), Direction(0.6, 0.62449979983983983, oz));
                            c.expect(li.pos.x == x && li.pos.y == y && li.pos.z == z && li.pm->id() == PINS[e].mesh, at + "location lookup");
                            c.expect_int(li.reg_offset, first[cell], at + "location region offset");
                            c.expect_eq(li.local_point.x, lx, 1e-12, at + "local x");
                            c.expect_eq(li.local_point.y, ly, 1e-12, at + "local y");
                            c.expect_eq(li.pin_boundary[0].x, x * l.pitch, 1e-12, at + "pin west");
                            c.expect_eq(li.pin_boundary[1].x, (x + 1) * l.pitch, 1e-12, at + "pin east");
                            c.expect_eq(li.pin_boundary[0].y, y * l.pitch, 1e-12, at + "pin south");
                            c.expect_eq(li.pin_boundary[1].y, (y + 1) * l.pitch, 1e-12, at + "pin north");
                            c.expect_eq(li.pin_boundary[0].z, m.z(z), 1e-12, at + "pin bottom");
                            c.expect_eq(li.pin_boundary[1].z, m.z(z + 1), 1e-12, at + "pin top");
                        }
                    }
                }
            }
        }
    }
    // points on pin edges and corners belong to the pin ahead
    zz = 0;
    for (int z = 0; z < nz; z++) {
        for (int i = 0; i <= 2 * nx; i++) {
            for (int j = 0; j <= 2 * ny; j++) {
                if (i % 2 && j % 2) {
                    continue;
                }
                double gx = i * l.pitch / 2, gy = j * l.pitch / 2;
                for (int d = 0; d < 8; d++) {
                    double ox = d & 1 ? 0.6 : -0.6, oy = d & 2 ? 0.62449979983983983 : -0.62449979983983983;
                    bool up = d & 4;
                    auto ahead = [](int k, int n, bool fwd) { return k % 2 ? k / 2 : std::max(0, std::min(n - 1, fwd ? k / 2 : k / 2 - 1)); };
                    int x = ahead(i, nx, ox > 0), y = ahead(j, ny, oy > 0);
                    // on the top or bottom of the plane, moving into it
                    auto li = m.get_location_info(Point3(gx, gy, up ? zz : zz + dz[z]), Direction(ox, oy, up ? 0.5 : -0.5));
                    std::string at = fmt("at (%g,%g) direction %d: ", gx, gy, d);
                    c.expect(li.pos.x == x && li.pos.y == y && li.pos.z == z && li.pm->id() == PINS[pin[z][y][x]].mesh, at + "location on an edge");
                    c.expect_int(li.reg_offset, first[(z * ny + y) * nx + x], at + "region offset on an edge");
                    c.expect_eq(li.local_point.x, gx - (x + 0.5) * l.pitch, 1e-12, at + "local x on an edge");
                    c.expect_eq(li.local_point.y, gy - (y + 0.5) * l.pitch, 1e-12, at + "local y on an edge");
                    c.expect_eq(li.pin_boundary[0].x, x * l.pitch, 1e-12, at + "pin west on an edge");
                    c.expect_eq(li.pin_boundary[1].y, (y + 1) * l.pitch, 1e-12, at + "pin north on an edge");
                }
            }
        }
        zz += dz[z];
    }
    c.state(xml_of(l));
}

// every arrangement of pins in one lattice
static void lattices(Ctx &c)
{
    Layout l;
    static const int D[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}};
    int k   = c.choose(c.thorough() ? 8 : 6);
    int np  = D[k][0] * D[k][1] > 4 ? 3 : 5;
    l.pitch = c.choose(2) ? 1.26 : 1.0;
    std::vector<std::vector<int>> lat(D[k][1], std::vector<int>(D[k][0]));
    for (auto &r : lat) {
        for (int &p : r) {
            p = c.choose(np);
        }
    }
    l.lat  = {lat};
    l.asys = {{{0}}};
    l.hz   = {1.5};
    l.scalar_hz = c.choose(2);
    l.groups = {1};
    l.core = {{0}};
    if (c.leaf(xml_of(l))) {
        verify(c, l);
    }
}

// every arrangement of lattices in assemblies and plane groups, one or two assemblies
static void stacks(Ctx &c)
{
    Layout l;
    l.lat = {{{0, 1}}, {{2, 3}}, {{4, 1}}};
    int nz = 1 + c.choose(3);
    static const double H[][3] = {{1, 1, 1}, {1, 2, 3}, {2.5, 0.5, 2.5}};
    int h = c.choose(3);
    l.hz.assign(H[h], H[h] + nz);
    l.scalar_hz = h == 0 && c.choose(2);
    for (int left = nz; left > 0;) {
        int g = 1 + c.choose(left);
        l.groups.push_back(g);
        left -= g;
    }
    int na = 1 + c.choose(2);
    for (int a = 0; a < na; a++) {
        Layout::Asy s;
        for (int z = 0; z < nz; z++) {
            s.lats.push_back(c.choose(3));
        }
        l.asys.push_back(s);
    }
    if (na == 1) {
        l.core = {{0}};
    } else {
        l.core = c.choose(2) ? std::vector<std::vector<int>>{{0, 1}} : std::vector<std::vector<int>>{{0}, {1}};
    }
    if (c.leaf(xml_of(l))) {
        verify(c, l);
    }
}

// every arrangement of assemblies of matching shapes
static void cores(Ctx &c)
{
    Layout l;
    static const int D[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}};
    int k = c.choose(c.thorough() ? 7 : 6);
    l.pitch = 1.26;
    int lx = 1 + c.choose(2), ly = 1 + c.choose(2);
    for (int i = 0; i < 3; i++) {
        std::vector<std::vector<int>> lat(ly, std::vector<int>(lx));
        for (int y = 0; y < ly; y++) {
            for (int x = 0; x < lx; x++) {
                lat[y][x] = (i * 2 + y * 3 + x) % 5;
            }
        }
        l.lat.push_back(lat);
        l.asys.push_back({{i, (i + 1) % 3}});
    }
    l.hz     = {1, 2};
    l.groups = {1, 1};
    l.core.assign(D[k][1], std::vector<int>(D[k][0]));
    for (auto &r : l.core) {
        for (int &a : r) {
            a = c.choose(3);
        }
    }
    if (c.leaf(xml_of(l))) {
        verify(c, l);
    }
}

// assemblies of all shapes next to each other: only fitting ones are accepted
static void fitting(Ctx &c, const std::vector<std::vector<int>> &sh, bool same_planes)
{
    Layout l;
    int nx = sh[0].size(), ny = sh.size();
    // shapes 0-3: 1x1, 2x1, 1x2, 2x2 unit pins; 4: one pin of twice the pitch
    static const int SX[] = {1, 2, 1, 2, 1}, SY[] = {1, 1, 2, 2, 1};
    for (int i = 0; i < 4; i++) {
        std::vector<std::vector<int>> lat(SY[i], std::vector<int>(SX[i]));
        for (int y = 0; y < SY[i]; y++) {
            for (int x = 0; x < SX[i]; x++) {
                lat[y][x] = (i + 2 * y + x) % 5;
            }
        }
        l.lat.push_back(lat);
        l.asys.push_back({{i}});
    }
    l.lat.push_back({{5}});
    l.asys.push_back({{4}});
    l.hz     = {2};
    l.groups = {1};
    l.core   = sh;
    bool fit = true, big = false;
    for (int y = 0; y < ny; y++) {
        for (int x = 0; x < nx; x++) {
            int v = sh[y][x];
            big   = big || v == 4;
            fit   = fit && SX[v] == SX[sh[0][x]] && SY[v] == SY[sh[y][0]] && (v == 4) == (sh[0][0] == 4);
        }
    }
    if (!c.leaf(xml_of(l) + (same_planes ? "" : " with a different plane count in one assembly"))) {
        return;
    }
    if (same_planes && fit && !big) {
        verify(c, l);
        return;
    }
    std::string x = xml_of(l);
    if (!same_planes) {
        // one extra assembly with the shape of the last one but other planes
        int v = sh[ny - 1][nx - 1] + 21;
        x.insert(x.find("<core"), fmt("<assembly id=\"36\" np=\"2\" hz=\"1.0\"><lattices>%d %d</lattices></assembly>", v, v));
        size_t e = x.rfind(fmt(" %d\n", sh[ny - 1][nx - 1] + 31));
        x.replace(e, 3, " 36");
        fit = false;
    }
    bool ok = true;
    try {
        ci::Doc doc(whole(pins_xml(1.0), x));
        CoreMesh m(doc.root());
        if (fit) {
            c.expect((int)m.nx() == nx && (int)m.ny() == ny, "dimensions");
            c.expect_eq(m.dx(0), 2.0, 1e-13, "pin width");
        }
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == fit, ok ? "accepted assemblies that do not fit" : "rejected assemblies that fit");
    c.state(x);
}

static void shapes(Ctx &c)
{
    int nx = 1 + c.choose(2), ny = 1 + c.choose(2);
    std::vector<std::vector<int>> sh(ny, std::vector<int>(nx));
    for (auto &r : sh) {
        for (int &v : r) {
            v = c.choose(5);
        }
    }
    bool same_planes = nx * ny == 1 || c.choose(2) == 0;
    fitting(c, sh, same_planes);
}
// one assembly somewhere in a large core that may not fit
static void odd(Ctx &c)
{
    static const int NX[] = {7, 1, 5}, NY[] = {1, 7, 6};
    int k = c.choose(3), most = c.choose(5), one = c.choose(5), at = c.choose(NX[k] * NY[k]);
    std::vector<std::vector<int>> sh(NY[k], std::vector<int>(NX[k], most));
    sh[at / NX[k]][at % NX[k]] = one;
    fitting(c, sh, true);
}

// single defects in an otherwise valid description
static void defects(Ctx &c)
{
    Layout l;
    l.lat    = {{{0, 1}, {2, 3}}, {{1, 1}, {1, 1}}};
    l.asys   = {{{0, 1}}, {{1, 0}}};
    l.hz     = {1, 2};
    l.groups = {1, 1};
    l.core   = {{0, 1}, {1, 0}};
    std::string pins = pins_xml(1.0), rest = xml_of(l);
    // what to look for, what to put there (first occurrence), and whether it stays valid
    struct E {
        const char *what, *from, *to;
        bool ok;
    };
    static const std::vector<E> X = {
        {"unchanged", "nx=\"2\"", "nx=\"2\"", true},
        {"lattice too few pins", "> 1 2\n", "> 1\n", false},
        {"lattice too many pins", "> 1 2\n", "> 1 2 1\n", false},
        {"lattice unknown pin", "> 1 2\n", "> 1 77\n", false},
        {"lattice zero pin", "> 1 2\n", "> 1 0\n", false},
        {"lattice text pin", "> 1 2\n", "> 1 x\n", false},
        {"lattice empty", "> 1 2\n 3 4\n", ">", false},
        {"lattice no nx", "id=\"21\" nx=\"2\"", "id=\"21\"", false},
        {"lattice zero nx", "id=\"21\" nx=\"2\"", "id=\"21\" nx=\"0\"", false},
        {"lattice negative nx", "id=\"21\" nx=\"2\"", "id=\"21\" nx=\"-2\"", false},
        {"lattice negative dims", "id=\"21\" nx=\"2\" ny=\"2\"", "id=\"21\" nx=\"-2\" ny=\"-2\"", false},
        {"lattice zero id", "lattice id=\"21\"", "lattice id=\"0\"", false},
        {"lattice no id", "lattice id=\"21\"", "lattice", false},
        {"lattice duplicate id", "lattice id=\"22\"", "lattice id=\"21\"", false},
        {"lattice mixed pitch", "> 1 2\n", "> 1 6\n", false},
        {"assembly unknown lattice", "<lattices> 21", "<lattices> 99", false},
        {"assembly text lattice", "<lattices> 21", "<lattices> a", false},
        {"assembly few lattices", "<lattices> 21", "<lattices> ", false},
        {"assembly many lattices", "<lattices> 21", "<lattices> 21 21", false},
        {"assembly unbalanced group", "<lattices> 21", "<lattices> {21", false},
        {"assembly no lattices", "<lattices> 21  22 </lattices>", "", false},
        {"assembly zero planes", "np=\"2\"", "np=\"0\"", false},
        {"assembly negative planes", "np=\"2\"", "np=\"-2\"", false},
        {"assembly no planes", "np=\"2\"", "", false},
        {"assembly wrong planes", "np=\"2\"", "np=\"3\"", false},
        {"assembly both heights", "np=\"2\"", "np=\"2\" hz=\"1.0\"", false},
        {"assembly no heights", "<hz> 1 2</hz>", "", false},
        {"assembly few heights", "<hz> 1 2</hz>", "<hz> 1</hz>", false},
        {"assembly many heights", "<hz> 1 2</hz>", "<hz> 1 2 3</hz>", false},
        {"assembly zero height", "<hz> 1 2</hz>", "<hz> 0 2</hz>", false},
        {"assembly negative height", "<hz> 1 2</hz>", "<hz> 1 -2</hz>", false},
        {"assembly text height", "<hz> 1 2</hz>", "<hz> 1 b</hz>", false},
        {"assembly other heights", "<hz> 1 2</hz>", "<hz> 1 3</hz>", false},
        {"assembly other groups", "<lattices> 21  22 ", "<lattices> {21 22}", false},
        {"assembly zero id", "assembly id=\"31\"", "assembly id=\"0\"", false},
        {"assembly duplicate id", "assembly id=\"32\"", "assembly id=\"31\"", false},
        {"core unknown assembly", "31 32\n", "31 39\n", false},
        {"core text assembly", "31 32\n", "31 z\n", false},
        {"core few assemblies", "31 32\n", "31\n", false},
        {"core many assemblies", "31 32\n", "31 32 31\n", false},
        {"core zero nx", "core nx=\"2\"", "core nx=\"0\"", false},
        {"core negative dims", "core nx=\"2\" ny=\"2\"", "core nx=\"-2\" ny=\"-2\"", false},
        {"core no ny", "core nx=\"2\" ny=\"2\"", "core nx=\"2\"", false},
        {"core no west", "west=\"reflect\"", "", false},
        {"core bad east", "east=\"vacuum\"", "east=\"vacum\"", false},
        {"core bad top", "top=\"reflect\"", "top=\"\"", false},
        {"core disabled", "<core", "<core enabled=\"f\"", false},
        {"core enabled", "<core", "<core enabled=\"t\"", true},
        {"no core", "<core", "<kore/><core enabled=\"false\"", false},
        {"disabled extra core", "<core", "<core enabled=\"f\" nx=\"1\" ny=\"1\">31</core><core", true},
        {"two cores", "<core", "<core nx=\"1\" ny=\"1\" west=\"vacuum\" east=\"vacuum\" north=\"vacuum\" south=\"vacuum\" top=\"vacuum\" bottom=\"vacuum\">31</core><core", false},
        {"pin unknown mesh", "<pin id=\"1\" mesh=\"11\"", "<pin id=\"1\" mesh=\"99\"", false},
        {"pin no mesh", "<pin id=\"1\" mesh=\"11\"", "<pin id=\"1\"", false},
        {"pin no id", "<pin id=\"1\"", "<pin", false},
        {"pin duplicate id", "<pin id=\"2\"", "<pin id=\"1\"", false},
        {"pin unknown material", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 9 2", false},
        {"pin unknown later material", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 1 9", false},
        {"pin zero material", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 1 0", false},
        {"pin few materials", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 1", false},
        {"pin many materials", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 1 2 2", false},
        {"pin text material", "<pin id=\"1\" mesh=\"11\"> 1 2", "<pin id=\"1\" mesh=\"11\"> 1 q", false},
        {"mesh duplicate id", "<mesh id=\"12\"", "<mesh id=\"11\"", false},
    };
    const E &e = X[c.choose((int)X.size())];
    if (!c.leaf(e.what)) {
        return;
    }
    std::string w = pins + "@LIB@" + rest;
    size_t at     = w.find(e.from);
    if (at == std::string::npos) {
        c.fail(std::string("harness: cannot find ") + e.from);
        return;
    }
    w.replace(at, strlen(e.from), e.to);
    w.replace(w.find("@LIB@"), 5, ci::lib_tag(library(), "lib.xsl"));
    bool ok = true;
    try {
        ci::Doc doc("<mocc>" + w + "</mocc>");
        CoreMesh m(doc.root());
        c.expect((int)m.nx() == 4, "dimensions");
    } catch (const mocc::Exception &) {
        ok = false;
    }
    c.expect(ok == e.ok, ok ? "accepted an invalid description" : "rejected a valid description");
    c.state(e.what);
}

// fuel override and order of definitions
static void fuel(Ctx &c)
{
    int a = c.choose(4), b = c.choose(4), fl = c.choose(3), sh = c.choose(3);
    std::string desc = fmt("materials %d %d fuel %d planes %d", a + 1, b + 1, fl, sh);
    if (!c.leaf(desc)) {
        return;
    }
    const char *F[] = {"", " fuel=\"t\"", " fuel=\"f\""};
    std::string pin = fmt("<pin id=\"7\" mesh=\"11\"%s>%d %d</pin>", F[fl], a + 1, b + 1);
    std::string rest = "<lattice id=\"1\" nx=\"2\" ny=\"1\">7 7</lattice><lattice id=\"2\" nx=\"2\" ny=\"1\">2 3</lattice>";
    const char *S[] = {"<assembly id=\"1\" np=\"1\" hz=\"1\"><lattices>1</lattices></assembly>", "<assembly id=\"1\" np=\"2\" hz=\"1\"><lattices>1 2</lattices></assembly>",
                       "<assembly id=\"1\" np=\"3\" hz=\"1\"><lattices>2 1 2</lattices></assembly>"};
    rest += S[sh];
    std::string bc = ci::bcs("reflect", "reflect", "reflect", "reflect", fl ? "reflect" : "vacuum", "reflect");
    rest += "<core nx=\"1\" ny=\"1\"" + bc + ">1</core>";
    ci::Doc doc(whole(pins_xml(1.0) + pin, rest));
    CoreMesh m(doc.root());
    bool isf  = fl == 1 || (fl == 0 && (a == 0 || b == 0));
    int n1    = isf ? 2 : 0, n2 = 1; // pin 2 contains material 1
    c.expect(m.pins().at(7)->is_fuel() == isf, "fuel flag");
    c.expect_int(m.n_fuel_2d(), sh == 0 ? n1 : std::max(n1, n2), "fuel pins per plane");
    c.expect(m.is_2d() == (sh == 0 && fl != 0), "two-dimensional");
    c.state(desc);
}

// more pins, planes and assemblies than the others
static void large(Ctx &c)
{
    Layout l;
    static const int D[][2] = {{3, 2}, {2, 3}, {5, 1}, {4, 4}, {8, 1}, {2, 8}}, L[][2] = {{3, 2}, {2, 4}, {7, 1}, {5, 5}, {1, 9}, {8, 2}};
    static const std::vector<std::vector<int>> G = {{1, 1, 1, 1, 1, 1}, {2, 1, 3}, {1, 4, 1}, {6}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {7, 1, 2}};
    int d = c.choose(6), s = c.choose(6), g = c.choose(6), pat = c.choose(8);
    l.hz     = {1, 2.5, 0.5, 3, 1.5, 0.75, 2, 0.25, 1.25, 3.5};
    l.groups = G[g];
    l.hz.resize(std::accumulate(l.groups.begin(), l.groups.end(), 0));
    for (int i = 0; i < 9; i++) {
        std::vector<std::vector<int>> lat(L[s][1], std::vector<int>(L[s][0]));
        for (int y = 0; y < L[s][1]; y++) {
            for (int x = 0; x < L[s][0]; x++) {
                lat[y][x] = (i * (1 + pat) + y * (3 + i) + x * (x + 1 + pat)) % 5;
            }
        }
        l.lat.push_back(lat);
    }
    for (int a = 0; a < D[d][0] * D[d][1]; a++) {
        Layout::Asy asy;
        for (size_t m = 0; m < l.groups.size(); m++) {
            for (int z = 0; z < l.groups[m]; z++) {
                asy.lats.push_back((a * (pat | 1) + 4 * m) % 9);
            }
        }
        l.asys.push_back(asy);
    }
    for (int y = 0; y < D[d][1]; y++) {
        l.core.emplace_back();
        for (int x = 0; x < D[d][0]; x++) {
            l.core.back().push_back((y * D[d][0] + x + pat) % l.asys.size());
        }
    }
    if (c.leaf(xml_of(l))) {
        verify(c, l);
    }
}
int main(int argc, char **argv)
{
    return mc::run(argc, argv, "G01",
                   {{"lattices", lattices, 30, "all pin arrangements of lattices up to 2x2 (5 pins) and 3x1/1x3 (5 pins), both height forms, two pitches"},
                    {"stacks", stacks, 30, "all stacks of up to 3 planes over 3 lattices, all plane groupings, 3 height patterns, 1-2 assemblies"},
                    {"cores", cores, 30, "all arrangements of up to 2x2 and 3x1 assemblies over 3 kinds and lattice shapes"},
                    {"shapes", shapes, 30, "all assignments of 5 assembly shapes to cores up to 2x2, with equal and unequal plane counts"},
                    {"odd", odd, 30, "one assembly of 5 shapes at every place of cores of up to 5x6 assemblies of 5 shapes"},
                    {"large", large, 60, "6 core shapes up to 8 assemblies long of 6 lattice shapes up to 9 pins long, up to 10 planes in 6 groupings, 8 patterns"},
                    {"defects", defects, 30, "60 single defects of a valid description"},
                    {"fuel", fuel, 30, "all material pairs, fuel overrides and plane stacks"}});
}
