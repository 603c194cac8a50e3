// N04: CMFD solves the coarse balance it was given.
#include <omp.h>
#include "isolated.hpp"
#include "box.hpp"
#include "eigen_run.hpp"
#include "core/cmfd.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using namespace mocc;

struct Case {
    box::Box b;
    bool radial, axial; // currents are known
    int seed;           // pattern of flux and currents
    int solves;
    double k0;
    int limit        = 3000;
    double loose     = 0; // tolerance, unless tight
    int unlit        = 0; // cells with no flux to start with
    bool negative    = false;
};
// inverse by elimination with pivoting
typedef std::vector<std::vector<double>> Matrix;
static Matrix inverse(Matrix a)
{
    int n = a.size();
    Matrix y(n, std::vector<double>(n, 0.0));
    for (int i = 0; i < n; i++) {
        y[i][i] = 1.0;
    }
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int j = i + 1; j < n; j++) {
            p = std::abs(a[j][i]) > std::abs(a[p][i]) ? j : p;
        }
        std::swap(a[i], a[p]);
        std::swap(y[i], y[p]);
        double r = 1.0 / a[i][i];
        for (int m = 0; m < n; m++) {
            a[i][m] *= r;
            y[i][m] *= r;
        }
        for (int j = 0; j < n; j++) {
            double f = a[j][i];
            for (int m = 0; j != i && f && m < n; m++) {
                a[j][m] -= f * a[i][m];
                y[j][m] -= f * y[i][m];
            }
        }
    }
    return y;
}
// coarse faces: direction, cells on either side or none, and the fine faces
// with their heights
struct Face {
    int dir, left, right;
    double area;
    std::vector<std::pair<int, double>> fine;
};
static void check(Ctx &c, const Case &k)
{
    auto &b  = k.b;
    auto lib = cp::library(b.ng);
    int ng = b.ng, nx = b.nx, ny = b.ny, np = nx * ny, nm = b.groups.size(), n = np * nm;
    ci::Doc doc("<mocc>" + b.xml() + ci::lib_tag(lib, "lib.xsl") + fmt("<cmfd k_tol=\"%g\" psi_tol=\"%g\" dump_current=\"t\" residual_reduction=\"1e-7\" max_iter=\"%d\" %s/></mocc>", k.loose ? k.loose : 1e-12, k.loose ? 10 * k.loose : 1e-12, k.limit, k.negative ? "negative_fixup=\"t\"" : ""));
    CoreMesh mesh(doc.root());
    auto xs = std::make_shared<XSMeshHomogenized>(mesh);
    CMFD cmfd(doc.root().child("cmfd"), &mesh, xs);
    auto &d = cmfd.coarse_data();
    if (!c.expect_int(d.flux.extent(0), n, "coarse cells")) {
        return;
    }
    std::vector<int> first(nm + 1, 0);
    std::vector<double> h(nm, 0.0);
    for (int m = 0; m < nm; m++) {
        first[m + 1] = first[m] + b.groups[m];
        for (int z = first[m]; z < first[m + 1]; z++) {
            h[m] += b.hz[z];
        }
    }
    auto mat = [&](int i) -> const ci::Mat & { return lib[b.mat[i / np][i % np]]; };
    auto vol = [&](int i) { return b.pitch * b.pitch * h[i / np]; };
    std::vector<Face> faces;
    std::set<int> covered;
    for (int m = 0; m < nm; m++) {
        for (int y = 0; y < ny; y++) {
            for (int x = 0; x <= nx; x++) {
                Face f{0, x ? m * np + y * nx + x - 1 : -1, x < nx ? m * np + y * nx + x : -1, b.pitch * h[m], {}};
                for (int z = first[m]; z < first[m + 1]; z++) {
                    int cell = z * np + y * nx;
                    f.fine.push_back({x ? mesh.coarse_surf(cell + x - 1, Surface::EAST) : mesh.coarse_surf(cell, Surface::WEST), b.hz[z]});
                }
                faces.push_back(f);
            }
        }
        for (int y = 0; y <= ny; y++) {
            for (int x = 0; x < nx; x++) {
                Face f{1, y ? m * np + (y - 1) * nx + x : -1, y < ny ? m * np + y * nx + x : -1, b.pitch * h[m], {}};
                for (int z = first[m]; z < first[m + 1]; z++) {
                    int cell = z * np + x;
                    f.fine.push_back({y ? mesh.coarse_surf(cell + (y - 1) * nx, Surface::NORTH) : mesh.coarse_surf(cell, Surface::SOUTH), b.hz[z]});
                }
                faces.push_back(f);
            }
        }
    }
    for (int m = 0; m <= nm; m++) {
        for (int i = 0; i < np; i++) {
            int z = first[m];
            faces.push_back({2, m ? (m - 1) * np + i : -1, m < nm ? m * np + i : -1, b.pitch * b.pitch, {{m ? mesh.coarse_surf((z - 1) * np + i, Surface::TOP) : mesh.coarse_surf(i, Surface::BOTTOM), 1.0}}});
        }
    }
    for (auto &f : faces) {
        for (auto &s : f.fine) {
            covered.insert(s.first);
        }
    }
    // flux and currents to start with
    auto vary = [&](int i, int g, int s) { return (double)((i * 37 + g * 11 + s * 5 + k.seed * 17) % 23) / 23; };
    for (int g = 0; g < ng; g++) {
        for (int i = 0; i < n; i++) {
            d.flux(i, g) = k.unlit >> (i % 8) & 1 ? 0.0 : 1.0 + vary(i, g, 0);
        }
    }
    d.set_has_radial_data(k.radial);
    d.set_has_axial_data(k.axial);
    double keff = k.k0;
    for (int turn = 0; turn < k.solves; turn++) {
        std::string at = fmt("solution %d: ", turn + 1);
        // other currents on every fine face: what is inside a group of planes
        // does not count
        if (turn != 1) { // the second continues where the first ended
            for (int g = 0; g < ng; g++) {
                for (int f = 0; f < (int)mesh.n_surf(); f++) {
                    d.current(f, g)      = 7.0 + f; // inside a group
                    d.surface_flux(f, g) = 9.0 + f;
                }
                for (auto &f : faces) {
                    double l = d.flux(f.left < 0 ? f.right : f.left, g), r = d.flux(f.right < 0 ? f.left : f.right, g);
                    for (auto &s : f.fine) {
                        double way = vary(s.first, g, 1 + turn) - 0.5;
                        if (f.left < 0 || f.right < 0) {
                            // out of the core, or nothing at all
                            bool vac = b.bc >> (2 * f.dir + (f.right < 0)) & 1;
                            way      = vac ? (f.left < 0 ? -1 : 1) * (way + 0.6) : 0.0;
                        }
                        // less than diffusion could carry
                        d.current(s.first, g) = 0.1 * way * std::min(l, r);
                        if (l == 0 || r == 0) { // into the cell without flux
                            d.current(s.first, g) = f.left < 0 || f.right < 0 ? 0.0 : 0.05 * (l - r) + (l == r ? 0.01 : 0.0);
                        }
                        d.surface_flux(s.first, g) = (l + r) * (0.3 + vary(s.first, g, 3));
                    }
                }
            }
        }
        std::vector<double> start(d.flux.begin(), d.flux.end());
        if (k.negative && turn == 0) {
            for (double &v : d.flux) {
                v = v == 0.0 ? -0.4 : v;
            }
        }
        auto flux = [&](int i, int g) { return i < 0 ? 0.0 : start[i * ng + g]; };
        // what couples the cells
        int nf = faces.size();
        std::vector<std::vector<double>> dt(nf, std::vector<double>(ng)), dh = dt, st = dt, sh = dt;
        for (int fi = 0; fi < nf; fi++) {
            auto &f = faces[fi];
            for (int g = 0; g < ng; g++) {
                auto diff = [&](int cell, int side) {
                    if (cell < 0) {
                        return b.bc >> (2 * f.dir + side) & 1 ? 0.25 : 0.0;
                    }
                    return 1.0 / (3 * mat(cell).tr(g)) / (f.dir == 2 ? h[cell / np] : b.pitch);
                };
                double a = diff(f.left, 0), e = diff(f.right, 1);
                dt[fi][g] = 2 * a * e / (a + e);
                st[fi][g] = a / (a + e); // weight of the cell on the left
                double J = 0, S = 0, hh = 0;
                for (auto &s : f.fine) {
                    J += d.current(s.first, g) * s.second;
                    S += d.surface_flux(s.first, g) * s.second;
                    hh += s.second;
                }
                double l = flux(f.left, g), r = flux(f.right, g);
                bool known = (f.dir == 2 ? k.axial : k.radial) && l + r > 0;
                dh[fi][g]  = known ? (J / hh + dt[fi][g] * (r - l)) / (l + r) : 0.0;
                sh[fi][g]  = known ? (S / hh - st[fi][g] * l - (1 - st[fi][g]) * r) / (l + r) : 0.0;
            }
        }
        std::vector<std::vector<std::vector<double>>> A(ng, std::vector<std::vector<double>>(n, std::vector<double>(n, 0.0)));
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < n; i++) {
                A[g][i][i] = (mat(i).tr(g) - mat(i).sc[g][g]) * vol(i);
            }
            for (int fi = 0; fi < nf; fi++) {
                auto &f = faces[fi];
                // J = (dh + dt) left + (dh - dt) right
                for (int side = 0; side < 2; side++) {
                    int cell = side ? f.right : f.left;
                    double s = (side ? -1 : 1) * f.area;
                    if (cell >= 0 && f.left >= 0) {
                        A[g][cell][f.left] += s * (dh[fi][g] + dt[fi][g]);
                    }
                    if (cell >= 0 && f.right >= 0) {
                        A[g][cell][f.right] += s * (dh[fi][g] - dt[fi][g]);
                    }
                }
            }
        }
        std::vector<std::vector<std::array<double, 2>>> part(mesh.n_surf(), std::vector<std::array<double, 2>>(ng));
        for (int f = 0; f < (int)mesh.n_surf(); f++) {
            for (int g = 0; g < ng; g++) {
                part[f][g] = d.partial_current(f, g);
            }
        }
        double lit = 0;
        for (int i = 0; i < n * ng; i++) {
            lit += mat(i % n).nf[i / n] * flux(i % n, i / n);
        }
        if (lit == 0.0) {
            return; // nothing to start from
        }
        double k_in = keff;
        cmfd.solve(keff);
        c.steps(n * ng);
        for (int i = 0; i < n * ng; i++) {
            if (!(d.flux(i % n, i / n) > 0)) {
                c.fail(at + "flux that is not positive");
                return;
            }
        }
        if (k.limit < 3000) {
            return;
        }
        // the same by power iteration
        double lam = k_in;
        for (auto &m : A) {
            m = inverse(m);
        }
        std::vector<double> phi(n * ng, 1.0);
        auto fission = [&](int i) {
            double s = 0;
            for (int g = 0; g < ng; g++) {
                s += mat(i).nf[g] * phi[g * n + i];
            }
            return s * vol(i);
        };
        for (int it = 0; it < 20000; it++) {
            std::vector<double> fs(n);
            double before = 0, after = 0;
            for (int i = 0; i < n; i++) {
                fs[i] = fission(i);
                before += fs[i];
            }
            for (int g = 0; g < ng; g++) {
                std::vector<double> y(n);
                for (int i = 0; i < n; i++) {
                    y[i] = mat(i).chi[g] * fs[i] / lam;
                    for (int f = 0; f < ng; f++) {
                        y[i] += f == g ? 0.0 : mat(i).sc[g][f] * phi[f * n + i] * vol(i);
                    }
                }
                for (int i = 0; i < n; i++) {
                    phi[g * n + i] = 0;
                    for (int j = 0; j < n; j++) {
                        phi[g * n + i] += A[g][i][j] * y[j];
                    }
                }
            }
            for (int i = 0; i < n; i++) {
                after += fission(i);
            }
            double next = lam * after / before, err = std::abs(next - lam);
            lam = next;
            double norm = 0;
            for (double v : phi) {
                norm += v;
            }
            for (double &v : phi) {
                v /= norm;
            }
            if (err < 1e-14 && it > 50) {
                break;
            }
        }
        if (!c.expect_eq(keff, lam, k.loose ? 30 * k.loose : 1e-7, at + "eigenvalue")) {
            return;
        }
        double total = 0;
        for (int i = 0; i < n * ng; i++) {
            total += d.flux(i % n, i / n);
        }
        for (int i = 0; i < n * ng; i++) {
            if (!c.expect_eq(d.flux(i % n, i / n) / total, phi[i], k.loose ? 300 * k.loose : 1e-6, at + fmt("flux of cell %d, group %d", i % n, i / n))) {
                return;
            }
        }
        c.expect(d.has_old_partial() == (turn > 0), at + "partial currents of the solution before wrongly marked");
        // currents and face fluxes that go with the flux
        std::vector<double> leak(n * ng, 0.0);
        for (int fi = 0; fi < nf; fi++) {
            auto &f = faces[fi];
            for (int g = 0; g < ng; g++) {
                double l = f.left < 0 ? 0 : d.flux(f.left, g), r = f.right < 0 ? 0 : d.flux(f.right, g);
                double J = dh[fi][g] * (l + r) - dt[fi][g] * (r - l);
                double S = st[fi][g] * l + (1 - st[fi][g]) * r + sh[fi][g] * (l + r);
                for (auto &s : f.fine) {
                    std::string name = fmt("%s face %d between cells %d and %d, group %d", f.dir == 2 ? "axial" : "radial", s.first, f.left, f.right, g);
                    bool ok = c.expect_eq(d.current(s.first, g), J, 1e-11, at + "current on " + name) &&
                              c.expect_eq(d.surface_flux(s.first, g), S, 1e-11, at + "flux on " + name) &&
                              c.expect_eq(d.partial_current(s.first, g)[0], S / 4 + J / 2, 1e-11, at + "partial current on " + name) &&
                              c.expect_eq(d.partial_current(s.first, g)[1], S / 4 - J / 2, 1e-11, at + "other partial current on " + name) &&
                              c.expect_eq(d.partial_current_old(s.first, g)[0], part[s.first][g][0], 0.0, at + "kept partial current on " + name) &&
                              c.expect_eq(d.partial_current_old(s.first, g)[1], part[s.first][g][1], 0.0, at + "other kept partial current on " + name);
                    if (!ok) {
                        return;
                    }
                }
                double Jc = d.current(f.fine[0].first, g) * f.area;
                if (f.left >= 0) {
                    leak[g * n + f.left] += Jc;
                }
                if (f.right >= 0) {
                    leak[g * n + f.right] -= Jc;
                }
            }
        }
        // the balance, from what is reported
        for (int i = 0; i < n; i++) {
            for (int g = 0; g < ng; g++) {
                double rem = (mat(i).tr(g) - mat(i).sc[g][g]) * d.flux(i, g) * vol(i), src = 0;
                for (int f = 0; f < ng; f++) {
                    src += (mat(i).chi[g] * mat(i).nf[f] / keff + (f == g ? 0.0 : mat(i).sc[g][f])) * d.flux(i, f) * vol(i);
                }
                c.expect_eq(leak[g * n + i] + rem, src, (k.loose ? 300 * k.loose : 1e-5) * total / n, at + fmt("balance of cell %d, group %d", i, g));
            }
        }
        // what is written to the file
        if (turn == 0 && n % 2 == 0) {
            {
                H5Node out("cmfd.h5", H5Access::WRITE);
                cmfd.output(out);
            }
            H5Node in("cmfd.h5", H5Access::READ);
            const char *SIDE[]   = {"east", "north", "west", "south", "top", "bottom"};
            const Surface SURF[] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
            for (int g = 0; g < ng; g++) {
                for (int s = 0; s < 6; s++) {
                    ArrayB1 J;
                    std::stringstream name;
                    name << "current/" << g + 1 << "/" << SURF[s];
                    in.read_1d(name.str(), J);
                    if (!c.expect_int(J.size(), b.nz() * np, "written currents")) {
                        return;
                    }
                    for (int i = 0; i < b.nz() * np; i++) {
                        c.expect_eq(J(i), d.current(mesh.coarse_surf(i, SURF[s]), g), 0.0, at + fmt("written current %s of cell %d, group %d", SIDE[s], i, g));
                    }
                }
            }
        }
        // axial faces inside a group of planes are not claimed
        for (int f = 0; f < (int)mesh.n_surf(); f++) {
            for (int g = 0; g < ng && !covered.count(f); g++) {
                c.expect_eq(d.current(f, g), 0.0, 0.0, at + fmt("current on face %d inside a group of planes", f));
            }
        }
    }
}
static const std::vector<std::vector<int>> GROUPS = {{1}, {1, 1}, {2}, {1, 1, 1}, {2, 1}, {1, 2}, {3}, {2, 2}, {1, 3, 1, 2}};
static box::Box make(int ng, int nx, int ny, int groups, int pat)
{
    static const double HZ[] = {0.5, 1.4, 0.8, 2.9, 1.1, 0.7, 1.9};
    box::Box b;
    b.ng     = ng;
    b.nx     = nx;
    b.ny     = ny;
    b.groups = GROUPS[groups];
    int z    = 0;
    for (size_t g = 0; g < b.groups.size(); g++) {
        b.mat.push_back({});
        for (int i = 0; i < nx * ny; i++) {
            int m = ((pat >> (i % 3)) + i + (int)g) % 4;
            b.mat.back().push_back(i == 0 && g == 0 ? 0 : m); // something fissile
        }
        for (int p = 0; p < b.groups[g]; p++) {
            b.hz.push_back(HZ[z++]);
        }
    }
    return b;
}
static void meshes(Ctx &c)
{
    int nx = 1 + c.choose(3), ny = 1 + c.choose(3), gr = c.choose(8);
    int ng   = 1 + c.choose(2);
    int pat  = c.choose(c.thorough() ? 4 : 2);
    int data = c.choose(4);
    int bc   = c.pick(std::vector<int>{0x0a, 0x35});
    if (!c.leaf(fmt("%d by %d, planes %d, %d groups, pattern %d, data %d, boundary %d", nx, ny, gr, ng, pat, data, bc))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(ng, nx, ny, gr, pat), (bool)(data & 1), (bool)(data & 2), pat, 3, 1.0};
        k.b.bc = bc;
        check(c, k);
    });
}
// more cells, planes and groups than the others
static void large(Ctx &c)
{
    static const int NX[] = {5, 1, 4, 2}, NY[] = {2, 6, 3, 4};
    int shape = c.choose(4), gr = c.pick(std::vector<int>{0, 8});
    int ng    = c.pick(std::vector<int>{3, 7});
    int data  = c.choose(4);
    int bc    = c.pick(std::vector<int>{0x0a, 0x35});
    if (!c.leaf(fmt("%d by %d, planes %d, %d groups, data %d, boundary %d", NX[shape], NY[shape], gr, ng, data, bc))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        Case k{make(ng, NX[shape], NY[shape], gr, 1), (bool)(data & 1), (bool)(data & 2), 1, 2, 1.0};
        k.b.bc = bc;
        check(c, k);
    });
}
static void boundaries(Ctx &c)
{
    int shape = c.choose(4);
    int bc    = c.choose(64);
    int data  = c.choose(4);
    int seed  = c.choose(c.thorough() ? 5 : 2);
    double k0 = c.pick(std::vector<double>{1.0, 0.4});
    if (!c.leaf(fmt("shape %d, boundary %d, data %d, currents %d, k %g", shape, bc, data, seed, k0))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        static const int NX[] = {2, 1, 2, 3}, NY[] = {1, 2, 2, 1}, G[] = {0, 1, 5, 4};
        Case k{make(2, NX[shape], NY[shape], G[shape], 1), (bool)(data & 1), (bool)(data & 2), seed, 3, k0};
        k.b.bc = bc;
        check(c, k);
    });
}
static void options(Ctx &c)
{
    int shape    = c.choose(4);
    int data     = c.choose(4);
    int unlit    = c.choose(16);
    int how      = c.choose(5);
    int bc       = c.pick(std::vector<int>{0x00, 0x0a, 0x35});
    if (!c.leaf(fmt("shape %d, data %d, cells without flux %d, option %d, boundary %d", shape, data, unlit, how, bc))) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        static const int NX[] = {2, 1, 2, 3}, NY[] = {2, 3, 2, 1}, G[] = {0, 1, 4, 0};
        Case k{make(2, NX[shape], NY[shape], G[shape], 1), (bool)(data & 1), (bool)(data & 2), shape, 2, 1.0};
        k.b.bc     = bc;
        k.unlit    = unlit == 15 ? 0x33 : unlit;
        k.negative = how == 1;
        k.loose    = how == 2 ? 1e-5 : how == 3 ? 1e-3 : 0;
        k.limit    = how == 4 ? 0 : 3000;
        check(c, k);
    });
}
// where the iterations stop: every iterate, got by limiting their number,
// against where they end by themselves
static void stopping(Ctx &c)
{
    static const int NX[] = {2, 1, 2, 3}, NY[] = {2, 3, 2, 1}, G[] = {0, 1, 4, 0}, LAST = 60;
    int shape  = c.choose(4);
    int bc     = c.pick(std::vector<int>{0x00, 0x0a, 0x35});
    double red = c.pick(std::vector<double>{1e-2, 1e-3, 1e-5});
    if (!c.leaf(fmt("shape %d, boundary %d, residual reduction %g", shape, bc, red))) {
        return;
    }
    c.state(::mc::hash_str(c.desc_));
    auto b   = make(2, NX[shape], NY[shape], G[shape], 1);
    b.bc     = bc;
    auto lib = cp::library(2);
    int np = b.nx * b.ny, n = np * b.groups.size();
    auto start = [&](int i, int g) { return 1.0 + ((i * 37 + g * 11) % 23) / 23.0; };
    auto solve = [&](const std::string &opt, int times) {
        return er::apart(c, [&](er::Results &r) {
            ci::Doc doc("<mocc>" + b.xml() + ci::lib_tag(lib, "lib.xsl") + fmt("<cmfd residual_reduction=\"%g\" %s/></mocc>", red, opt.c_str()));
            CoreMesh mesh(doc.root());
            auto xs = std::make_shared<XSMeshHomogenized>(mesh);
            CMFD cmfd(doc.root().child("cmfd"), &mesh, xs);
            auto &d = cmfd.coarse_data();
            d.set_has_radial_data(false);
            d.set_has_axial_data(false);
            for (int i = 0; i < n * 2; i++) {
                d.flux(i / 2, i % 2) = start(i / 2, i % 2);
            }
            double k = 0.8;
            for (int t = 0; t < times; t++) {
                cmfd.solve(k);
            }
            r["k"] = {k};
            for (int i = 0; i < n * 2; i++) {
                r["flux"].push_back(d.flux(i / 2, i % 2));
            }
        });
    };
    auto apart = [&](const er::Results &x, const er::Results &y) {
        double e = std::abs(x.at("k")[0] - y.at("k")[0]);
        for (int i = 0; i < 2 * n; i++) {
            double d = std::abs(x.at("flux")[i] - y.at("flux")[i]);
            e        = d <= e ? e : d;
            if (!std::isfinite(e)) {
                return std::numeric_limits<double>::infinity();
            }
        }
        return e;
    };
    std::vector<er::Results> seq(1);
    seq[0]["k"] = {0.8};
    for (int i = 0; i < n * 2; i++) {
        seq[0]["flux"].push_back(start(i / 2, i % 2));
    }
    for (int j = 0; j < LAST; j++) {
        seq.push_back(solve(fmt("k_tol=\"1e-20\" psi_tol=\"1e-20\" max_iter=\"%d\"", j), 1));
        if (!c.fails.empty()) {
            return;
        }
        c.steps(1);
    }
    // as many iterations as asked for, or one more; one at a time is the same
    auto once = [&](int times) { return solve("k_tol=\"1e-20\" psi_tol=\"1e-20\" max_iter=\"0\"", times); };
    for (int j = 1; j < 8; j++) {
        auto x = once(j), y = once(j + 1);
        if (!c.fails.empty()) {
            return;
        }
        // solved as well as the residual asks for
        double move = apart(y, x) / 3, e = std::min(apart(seq[j + 1], x), apart(seq[j + 1], y));
        c.expect(e <= move || e < 3 * red, fmt("a limit of %d iterations is not that many iterations: %g apart, one iteration moves by %g", j, e, 3 * move));
    }
    auto source = [&](const er::Results &x, int i) {
        auto &m = lib[b.mat[i / np][i % np]];
        return (m.nf[0] * x.at("flux")[2 * i] + m.nf[1] * x.at("flux")[2 * i + 1]) / x.at("k")[0];
    };
    auto moved = [&](int j, bool flux) {
        double e = 0;
        for (int i = 0; j > 0 && i < (flux ? 2 * n : n); i++) {
            double d = flux ? seq[j].at("flux")[i] - seq[j - 1].at("flux")[i] : source(seq[j], i) - source(seq[j - 1], i);
            e += d * d;
        }
        return std::sqrt(e);
    };
    for (double kt : {1e-2, 1e-4, 1e-6}) {
        for (double pt : {1e-1, 1e-3, 1e-5}) {
            auto x         = solve(fmt("k_tol=\"%g\" psi_tol=\"%g\" max_iter=\"1000\"", kt, pt), 1);
            std::string at = fmt("tolerances %g on k, %g on fission: ", kt, pt);
            if (!c.fails.empty()) {
                return;
            }
            int s = 1;
            while (s <= LAST && apart(seq[s], x) > 1e-12) {
                s++;
            }
            for (int j = 2; j < std::min(s, LAST + 1); j++) {
                bool due = std::abs(seq[j].at("k")[0] - seq[j - 1].at("k")[0]) < kt / 2 && moved(j, false) < pt / 2 && moved(j - 1, false) < pt / 2 && moved(j, true) < moved(1, true) * red / 10 &&
                           moved(j, false) < moved(1, false) * red / 10;
                if (!c.expect(!due, at + fmt("goes on after %d iterations, when all is met", j))) {
                    return;
                }
            }
            if (s > LAST) {
                continue; // more iterations than followed
            }
            c.steps(1);
            while (s < LAST && apart(seq[s + 1], x) <= 1e-12) {
                s++; // nothing moves any more
            }
            double dk = std::abs(seq[s].at("k")[0] - seq[s - 1].at("k")[0]);
            c.expect(dk < kt * 1.0001, at + fmt("stops after %d iterations while k still moves by %g", s, dk));
            double dp = std::min(moved(s, false), s > 1 ? moved(s - 1, false) : 1e10);
            c.expect(dp < pt * 1.01, at + fmt("stops after %d iterations while the fission source still moves by %g", s, dp));
            c.expect(moved(s, true) < moved(1, true) * red * 30, at + fmt("stops after %d iterations while the flux still moves by %g", s, moved(s, true)));
        }
    }
}
static void rejected(Ctx &c)
{
    static const char *BAD[] = {"k_tol=\"0\"", "k_tol=\"-1\"", "k_tol=\"x\"", "psi_tol=\"0\"", "psi_tol=\"-1\"", "psi_tol=\"x\"", "residual_reduction=\"0\"", "residual_reduction=\"-0.1\"",
                                "residual_reduction=\"x\"", "max_iter=\"-1\""};
    int i = c.choose(11);
    if (!c.leaf(i < 10 ? BAD[i] : "defaults")) {
        return;
    }
    iso::run(c, [&](Ctx &c) {
        auto b = make(1, 2, 1, 0, 1);
        ci::Doc doc("<mocc>" + b.xml() + ci::lib_tag(cp::library(1), "lib.xsl") + "<cmfd " + (i < 10 ? BAD[i] : "") + "/></mocc>");
        CoreMesh mesh(doc.root());
        auto xs = std::make_shared<XSMeshHomogenized>(mesh);
        bool no = false;
        try {
            CMFD cmfd(doc.root().child("cmfd"), &mesh, xs);
        } catch (Exception &) {
            no = true;
        }
        c.expect(no == (i < 10), no ? "valid options refused" : "invalid options accepted");
    });
}
int main(int argc, char **argv)
{
    omp_set_num_threads(1);
    return ::mc::run(argc, argv, "N04",
                     {{"meshes", meshes, 120, "all meshes up to 3x3 with 8 groupings of planes, with and without known currents, three solutions in a row each"},
                      {"boundaries", boundaries, 120, "all 64 boundaries on 4 meshes, with and without known currents"},
                      {"large", large, 300, "4 meshes of up to 12 cells in up to 4 groups of planes, 3 and 7 groups"},
                      {"options", options, 120, "cells without flux, negative flux, loose tolerances, no iterations"},
                      {"stopping", stopping, 120, "4 meshes, 3 boundaries, 3 residual reductions: limits 0 to 59, and 9 pairs of tolerances against the iterates"},
                      {"rejected", rejected, 60, "options out of range"}});
}
