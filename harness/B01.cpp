// B01: boundary conditions route each outgoing flux to its place and nowhere else.
#include "mc.hpp"
#include "pugixml.hpp"
#include "util/error.hpp"
#include "core/angular_quadrature.hpp"
#include "core/boundary_condition.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static AngularQuadrature quad(int kind)
{
    static const char *X[] = {"<ang_quad type=\"ls\" order=\"2\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"1\"/>", "<ang_quad type=\"ls\" order=\"4\"/>",
                              "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"2\"/>"};
    pugi::xml_document d;
    d.load_string(X[kind]);
    return AngularQuadrature(d.first_child());
}
static const Normal NORM[3] = {Normal::X_NORM, Normal::Y_NORM, Normal::Z_NORM};
static double comp(const Angle &a, int n)
{
    return n == 0 ? a.ox : n == 1 ? a.oy : a.oz;
}
// the face through which direction a enters along normal n
static Surface entry(const Angle &a, int n)
{
    static const Surface P[3] = {Surface::WEST, Surface::SOUTH, Surface::BOTTOM}, M[3] = {Surface::EAST, Surface::NORTH, Surface::TOP};
    return comp(a, n) > 0 ? P[n] : M[n];
}
// angle index with component n flipped, by search
static int mirror(const AngularQuadrature &q, int i, int n)
{
    for (int j = 0; j < q.ndir(); j++) {
        bool ok = true;
        for (int k = 0; k < 3; k++) {
            ok = ok && std::fabs(comp(q[j], k) - (k == n ? -1 : 1) * comp(q[i], k)) < 1e-12;
        }
        if (ok) {
            return j;
        }
    }
    return -1;
}

typedef std::vector<std::vector<std::vector<std::vector<double>>>> Slots; // group, angle, normal, slot
static Slots read(const BoundaryCondition &b, int ng, int na)
{
    Slots s(ng, std::vector<std::vector<std::vector<double>>>(na, std::vector<std::vector<double>>(3)));
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int n = 0; n < 3; n++) {
                auto f = b.get_face(g, a, NORM[n]);
                s[g][a][n].assign(f.second, f.second + f.first);
            }
        }
    }
    return s;
}
static void fill(BoundaryCondition &b, int ng, int na, double base)
{
    double v = base;
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int n = 0; n < 3; n++) {
                auto f = b.get_face(g, a, NORM[n]);
                for (int i = 0; i < f.first; i++) {
                    f.second[i] = v;
                    v += 1.0;
                }
            }
        }
    }
}
static void compare(Ctx &c, const Slots &x, const Slots &y, const std::string &what)
{
    for (size_t g = 0; g < x.size(); g++) {
        for (size_t a = 0; a < x[g].size(); a++) {
            for (int n = 0; n < 3; n++) {
                for (size_t i = 0; i < x[g][a][n].size(); i++) {
                    c.expect(x[g][a][n][i] == y[g][a][n][i],
                             fmt("%s: group %d angle %d normal %d slot %d is %g, expected %g", what.c_str(), (int)g, (int)a, n, (int)i, x[g][a][n][i], y[g][a][n][i]));
                }
            }
        }
    }
}

// reference: the update caused by outgoing angle a
static void model(Slots &in, const Slots &out, const AngularQuadrature &q, const BC_Type_t &bc, int g, int a)
{
    for (int n = 0; n < 3; n++) {
        if (out[0][a][n].empty()) {
            continue;
        }
        int r = mirror(q, a, n);
        switch (bc[(int)entry(q[r], n)]) {
        case Boundary::VACUUM:
            for (auto &v : in[g][r][n]) {
                v = 0;
            }
            break;
        case Boundary::REFLECT:
            in[g][r][n] = out[0][a][n];
            break;
        default:
            break;
        }
    }
}

static const char *BN[] = {"vac", "refl", "presc"};
static const Boundary BT[] = {Boundary::VACUUM, Boundary::REFLECT, Boundary::PRESCRIBED};

static void check(Ctx &c, int kind, int dim, int ng, const BC_Type_t &bc, const std::vector<BC_Size_t> &sz, bool perms)
{
    AngularQuadrature q = quad(kind);
    int na = sz.size();
    BoundaryCondition in(ng, q, bc, sz, dim), out(1, q, bc, sz, dim);
    int per = 0;
    for (auto &s : sz) {
        per += s[0] + s[1] + s[2];
    }
    c.expect(in.size() == per * ng && out.size() == per, fmt("size %d, expected %d", in.size(), per * ng));
    // face access: sizes, no overlaps, faces of an angle consecutive
    fill(in, ng, na, 100.0);
    std::set<double *> seen;
    Slots s = read(in, ng, na);
    double v = 100;
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            auto all = in.get_boundary(g, a);
            c.expect(all.first == sz[a][0] + sz[a][1] + sz[a][2], "size of all faces of an angle");
            int k = 0;
            for (int n = 0; n < 3; n++) {
                auto f = in.get_face(g, a, NORM[n]);
                if (!c.expect(f.first == sz[a][n], fmt("face size %d, expected %d", f.first, sz[a][n]))) {
                    return;
                }
                std::vector<double> cp(f.first + 1, -7.0);
                in.copy_face(g, a, NORM[n], cp.data());
                for (int i = 0; i < f.first; i++) {
                    c.expect(seen.insert(f.second + i).second, "two faces share a slot");
                    c.expect(f.second[i] == v && all.second[k] == v && cp[i] == v, fmt("group %d angle %d normal %d slot %d", g, a, n, i));
                    v += 1;
                    k++;
                }
                c.expect(cp[f.first] == -7.0, "face copy wrote past the face");
            }
        }
    }
    // copies are equal and independent
    {
        BoundaryCondition cp(in);
        compare(c, read(cp, ng, na), s, "copy");
        fill(cp, ng, na, -5.0);
        compare(c, read(in, ng, na), s, "original after writing to a copy");
        // and keep their kind
        cp.initialize_scalar(7.25);
        BoundaryCondition fresh(ng, q, bc, sz, dim);
        fresh.initialize_scalar(7.25);
        compare(c, read(cp, ng, na), read(fresh, ng, na), "copy after initialisation");
    }
    // initialisation
    const double fpi = 12.566370614359172953850573533118;
    in.initialize_scalar(7.25);
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int n = 0; n < 3; n++) {
                auto f   = in.get_face(g, a, NORM[n]);
                Boundary b = bc[(int)entry(q[a], n)];
                double e = b == Boundary::VACUUM ? 0.0 : b == Boundary::PRESCRIBED ? (dim == 2 ? 2.0 : 1.0) / fpi : 7.25;
                for (int i = 0; i < f.first; i++) {
                    c.expect_eq(f.second[i], e, 1e-14, fmt("initial value, angle %d normal %d", a, n));
                }
            }
        }
    }
    ArrayB1 sp(ng);
    for (int g = 0; g < ng; g++) {
        sp(g) = 3.5 + g;
    }
    in.initialize_spectrum(sp);
    Slots t = read(in, ng, na);
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int n = 0; n < 3; n++) {
                for (double x : t[g][a][n]) {
                    c.expect(x == 3.5 + g, "spectrum value");
                }
            }
        }
    }
    // updates of every group, all at once; two rounds with different outgoing flux
    for (int g = 0; g < ng; g++) {
        fill(in, ng, na, 1000.0);
        Slots ref = read(in, ng, na);
        for (int round = 0; round < 2; round++) {
            fill(out, 1, na, 50000.0 + 7000.0 * round);
            Slots o = read(out, 1, na);
            in.update(g, out);
            for (int a = 0; a < na; a++) {
                model(ref, o, q, bc, g, a);
            }
            compare(c, read(in, ng, na), ref, fmt("update of group %d round %d", g, round));
            compare(c, read(out, 1, na), o, "outgoing flux after update");
        }
        Slots final = ref;
        // one angle at a time, in several orders
        std::vector<int> ord(na);
        for (int i = 0; i < na; i++) {
            ord[i] = i;
        }
        std::vector<std::vector<int>> orders;
        if (perms && na == 4) {
            do {
                orders.push_back(ord);
            } while (std::next_permutation(ord.begin(), ord.end()));
        } else {
            orders.push_back(ord);
            orders.push_back(std::vector<int>(ord.rbegin(), ord.rend()));
            for (int k = 1; k < na; k++) {
                std::rotate(ord.begin(), ord.begin() + 1, ord.end());
                orders.push_back(ord);
            }
        }
        for (size_t io = 0; io < orders.size(); io++) {
            fill(in, ng, na, 1000.0);
            fill(out, 1, na, 57000.0);
            Slots o = read(out, 1, na), r = read(in, ng, na);
            for (int a : orders[io]) {
                in.update(g, a, out);
                model(r, o, q, bc, g, a);
                if (io < 2) {
                    compare(c, read(in, ng, na), r, fmt("update of angle %d group %d", a, g));
                }
            }
            compare(c, read(in, ng, na), final, fmt("angle-wise update, order %d", (int)io));
        }
    }
}

static void faces3d(Ctx &c)
{
    BC_Type_t bc;
    std::string d;
    for (int i = 0; i < 6; i++) {
        int k = c.choose(3);
        bc[i] = BT[k];
        d += std::string(BN[k]) + " ";
    }
    int kind = c.choose(2), ng = c.pick(std::vector<int>{1, 2, 4});
    int nx = 1 + c.choose(2), ny = 1 + c.choose(2), nz = 1 + c.choose(2);
    int dim = 3 - c.choose(2); // all angles can also be kept for a two-dimensional problem
    if (!c.leaf(fmt("all angles %d-D quad %d groups %d sizes %d %d %d faces %s", dim, kind, ng, nx, ny, nz, d.c_str()))) {
        return;
    }
    BC_Size_t s = {{nx, ny, nz}};
    check(c, kind, dim, ng, bc, std::vector<BC_Size_t>(quad(kind).ndir(), s), false);
    // the constructor with one size for all angles is the same thing
    AngularQuadrature q = quad(kind);
    BoundaryCondition b(ng, q, bc, s, dim);
    c.expect(b.size() == q.ndir() * (nx + ny + nz) * ng, "size with one size for all angles");
    c.state(d + fmt("%d %d %d %d %d %d", dim, kind, ng, nx, ny, nz));
}

static void faces2d(Ctx &c)
{
    BC_Type_t bc;
    std::string d;
    for (int i = 0; i < 4; i++) {
        int k = c.choose(3);
        bc[i] = BT[k];
        d += std::string(BN[k]) + " ";
    }
    bc[4] = bc[5] = c.choose(2) ? Boundary::REFLECT : Boundary::VACUUM;
    int kind = c.choose(3), ng = c.pick(std::vector<int>{1, 2, 4});
    AngularQuadrature q = quad(kind);
    int n = q.ndir_oct();
    std::vector<BC_Size_t> sz(4 * n);
    // per-angle sizes, equal in all octants; the first angles take all values
    int maxs = kind == 2 ? 2 : 4;
    std::string t;
    for (int i = 0; i < n; i++) {
        int a = 1 + c.choose(maxs - 1), b = i == 0 ? c.choose(maxs) : maxs - a;
        for (int o = 0; o < 4; o++) {
            sz[o * n + i] = BC_Size_t{{a, b, 0}};
        }
        t += fmt("%d/%d ", a, b);
    }
    if (!c.leaf(fmt("2-D quad %d groups %d sizes %s faces %s", kind, ng, t.c_str(), d.c_str()))) {
        return;
    }
    check(c, kind, 2, ng, bc, sz, true);
    c.state(d + t + fmt("%d %d", kind, ng));
}

// a face without slots does not hide the next one
static void empty_faces(Ctx &c)
{
    int nx = c.choose(3), ny = c.choose(3), nz = c.choose(3), three = c.choose(2), bt = c.choose(3);
    if (!c.leaf(fmt("sizes %d %d %d %s %s", nx, ny, nz, three ? "3-D" : "2-D", BN[bt]))) {
        return;
    }
    if (nx + ny + nz == 0 || (!three && nz)) {
        return;
    }
    BC_Type_t bc;
    bc.fill(BT[bt]);
    check(c, 1, three ? 3 : 2, 2, bc, std::vector<BC_Size_t>(three ? 16 : 8, BC_Size_t{{nx, ny, nz}}), false);
    c.state(fmt("%d %d %d %d %d", nx, ny, nz, three, bt));
}

// kinds that have no implementation must not be taken for another kind
static void unsupported(Ctx &c)
{
    int f = c.choose(6), k = c.choose(3);
    static const Boundary B[] = {Boundary::PERIODIC, Boundary::PARALLEL, Boundary::INVALID};
    if (!c.leaf(fmt("face %d kind %d", f, k))) {
        return;
    }
    BC_Type_t bc;
    bc.fill(Boundary::REFLECT);
    bc[f]               = B[k];
    AngularQuadrature q = quad(0);
    BoundaryCondition in(1, q, bc, BC_Size_t{{1, 1, 1}}, 3), out(1, q, bc, BC_Size_t{{1, 1, 1}}, 3);
    in.initialize_scalar(1.0);
    out.initialize_scalar(2.0);
    int thrown = 0;
    for (int a = 0; a < 8; a++) {
        try {
            in.update(0, a, out);
        } catch (const mocc::Exception &) {
            thrown++;
        }
    }
    c.expect(thrown == 4, fmt("%d of 8 angles rejected, 4 enter through the face", thrown));
    c.state((uint64_t)(f * 3 + k));
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "B01",
                   {{"faces-3d", faces3d, 20, "all 3^6 face assignments, two quadratures, 1, 2 and 4 groups, all sizes in {1,2}^3, two- and three-dimensional scaling"},
                    {"faces-2d", faces2d, 20, "all 3^4 face assignments, three quadratures, per-angle sizes, all update orders of 4 angles"},
                    {"empty-faces", empty_faces, 20, "all face sizes in {0,1,2}^3"},
                    {"unsupported", unsupported, 20, "each unsupported kind on each face"}});
}
