// A method-of-characteristics sweep by definition, on the rays of the code
// under test (which G03 checks).
#pragma once
#include "core_problem.hpp"
#include "core/boundary_condition.hpp"
#include "core/core_mesh.hpp"
#include "sweepers/moc/ray_data.hpp"

namespace ref {
using namespace mocc;
const double PI_ = 3.14159265358979323846;

// what the core looks like, worked out from its description
struct Layout {
    int nx, ny, nz, nm, n_pin, n_reg = 0;
    std::vector<int> group_of;   // plane -> group of planes
    std::vector<int> first_z;    // group -> lowest plane
    std::vector<int> first_reg;  // group -> first region
    std::vector<double> height;  // group -> height
    std::vector<int> mat, cell;  // region -> material, cell of its plane
    std::vector<double> area;    // region -> area
    std::vector<double> x, y;    // pin boundaries

    explicit Layout(const cp::Problem &p)
    {
        nx = p.nx * p.ax;
        ny = p.ny * p.ay;
        nz = p.hz.size();
        nm = p.groups.size();
        n_pin = nx * ny;
        int z = 0;
        for (int m = 0; m < nm; m++) {
            first_z.push_back(z);
            first_reg.push_back(n_reg);
            double h = 0;
            for (int k = 0; k < p.groups[m]; k++, z++) {
                h += p.hz[z];
                group_of.push_back(m);
            }
            height.push_back(h);
            for (int i = 0; i < n_pin; i++) {
                auto &d = p.pins[m][i];
                auto a  = cp::areas(d.geo);
                for (size_t r = 0; r < a.size(); r++) {
                    mat.push_back(cp::mat_of(d, r));
                    cell.push_back(cp::pin_cell(p, i));
                    area.push_back(a[r]);
                    n_reg++;
                }
            }
        }
        for (int i = 0; i <= nx; i++) {
            x.push_back(1.2 * i);
        }
        for (int i = 0; i <= ny; i++) {
            y.push_back(1.2 * i);
        }
    }
};

// faces of a plane: x faces of column boundary i, row j, and y faces
struct Faces {
    int nx, ny;
    std::vector<double> x, y;     // [(nx+1)*ny], [nx*(ny+1)]
    Faces(int nx, int ny) : nx(nx), ny(ny), x((nx + 1) * ny, 0.0), y(nx * (ny + 1), 0.0) {}
    double &fx(int i, int j)
    {
        return x[j * (nx + 1) + i];
    }
    double &fy(int i, int j)
    {
        return y[j * nx + i];
    }
};

struct Moc {
    const Layout &lay;
    const CoreMesh &mesh;
    moc::RayData rays;
    const AngularQuadrature &quad;
    int ng;
    std::vector<BoundaryCondition> in, out;
    std::vector<std::vector<double>> flux; // [region][group]
    // of the last sweep: net current and flux on the faces of every group of
    // planes, and faces next to a corner a ray went through
    std::vector<Faces> J, S, doubt;
    // sums over the cells for one direction, if wanted
    struct CellSums {
        std::vector<double> vol, len, sig;   // psi t, t, sigma psi t
        Faces face;                          // sum of psi over rays that cross
        CellSums(int nx, int ny) : vol(nx * ny, 0.0), len(nx * ny, 0.0), sig(nx * ny, 0.0), face(nx, ny) {}
    };
    std::vector<std::vector<CellSums>> sums; // [group of planes][direction]
    bool want_sums = false;

    static std::vector<BC_Size_t> sizes(const moc::RayData &r)
    {
        std::vector<BC_Size_t> s(r.ang_quad().ndir_oct() * 4);
        for (int a = 0; a < (int)r.begin()->size(); a++) {
            s[a] = s[r.ang_quad().reverse(a)] = {{(int)r.ny(a), (int)r.nx(a), 0}};
        }
        return s;
    }
    Moc(const Layout &lay, const CoreMesh &mesh, const pugi::xml_node &sweeper, const AngularQuadrature &user, int ng)
        : lay(lay), mesh(mesh), rays(sweeper.child("rays"), user, mesh), quad(rays.ang_quad()), ng(ng), in(lay.nm, BoundaryCondition(ng, quad, mesh.boundary(), sizes(rays))), out(lay.nm, BoundaryCondition(1, quad, mesh.boundary(), sizes(rays))), flux(lay.n_reg, std::vector<double>(ng, 1.0))
    {
        for (auto &b : in) {
            b.initialize_scalar(1.0 / (4 * PI_));
        }
        for (auto &b : out) {
            b.initialize_scalar(0.0);
        }
    }
    // a ray that ends where cells meet on the boundary may be said to enter
    // either
    void corner(int a, int m, int bc, bool first, bool east)
    {
        if (bc < (int)rays.ny(a)) {
            double y = (bc + 0.5) * lay.y.back() / rays.ny(a);
            int j    = std::lround(y / 1.2), i = east != first ? lay.nx : 0;
            if (std::abs(y - 1.2 * j) < 1e-6) {
                doubt[m].fx(i, j - 1) = doubt[m].fx(i, j) = 1;
                doubt[m].fy(i ? i - 1 : 0, j) = 1;
            }
        } else {
            double x = (bc - (int)rays.ny(a) + 0.5) * lay.x.back() / rays.nx(a);
            int i    = std::lround(x / 1.2), j = first ? 0 : lay.ny;
            if (std::abs(x - 1.2 * i) < 1e-6) {
                doubt[m].fy(i - 1, j) = doubt[m].fy(i, j) = 1;
                doubt[m].fx(i, j ? j - 1 : 0) = 1;
            }
        }
    }
    // one sweep of group g; q: what a unit of volume emits, t: cross sections
    void sweep(int g, const std::vector<double> &q, const std::vector<double> &t, bool gs, const std::vector<double> *true_t = nullptr)
    {
        std::vector<double> sum(lay.n_reg, 0.0);
        J.assign(lay.nm, Faces(lay.nx, lay.ny));
        S = doubt = J;
        sums.assign(lay.nm, std::vector<CellSums>(want_sums ? quad.ndir_oct() * 4 : 0, CellSums(lay.nx, lay.ny)));
        for (int m = 0; m < lay.nm; m++) {
            auto &plane = rays[mesh.unique_plane_ids()[lay.first_z[m]]];
            for (int a = 0; a < (int)plane.size(); a++) {
                int back     = quad.reverse(a);
                auto ang     = quad[a];
                double st    = std::sqrt(ang.ox * ang.ox + ang.oy * ang.oy);
                double w     = ang.weight * PI_ * st * rays.spacing(a);
                const double *in1 = in[m].get_boundary(g, a).second, *in2 = in[m].get_boundary(g, back).second;
                std::vector<std::pair<int, double>> out1, out2;
                for (auto &ray : plane[a]) {
                    int n = ray.nseg();
                    std::vector<double> psi(n + 1), phi(n + 1);
                    psi[0] = in1[ray.bc(0)];
                    phi[n] = in2[ray.bc(1)];
                    auto reg = [&](int i) { return (int)ray.seg_index(i) + lay.first_reg[m]; };
                    for (int i = 0; i < n; i++) {
                        int r    = reg(i);
                        double e = std::exp(-t[r] * ray.seg_len(i) / st), s = q[r] / (4 * PI_ * t[r]);
                        psi[i + 1] = psi[i] * e + s * (1 - e);
                    }
                    for (int i = n - 1; i >= 0; i--) {
                        int r    = reg(i);
                        double e = std::exp(-t[r] * ray.seg_len(i) / st), s = q[r] / (4 * PI_ * t[r]);
                        phi[i] = phi[i + 1] * e + s * (1 - e);
                    }
                    for (int i = 0; i < n; i++) {
                        sum[reg(i)] += w * (psi[i] - psi[i + 1] + phi[i + 1] - phi[i]);
                    }
                    out1.push_back({ray.bc(1), psi[n]});
                    out2.push_back({ray.bc(0), phi[0]});
                    // faces
                    auto cx = [&](int i) { return lay.cell[reg(i)] % lay.nx; };
                    auto cy = [&](int i) { return lay.cell[reg(i)] / lay.nx; };
                    auto cross = [&](bool xface, int fi, int fj, int i) {
                        double width = 1.2;
                        double sg    = xface ? (ang.ox > 0 ? 1.0 : -1.0) : 1.0;
                        double inc   = xface ? std::abs(ang.ox) / st : std::abs(ang.oy) / st;
                        auto at      = [&](Faces &f) -> double & { return xface ? f.fx(fi, fj) : f.fy(fi, fj); };
                        at(J[m]) += sg * w * (psi[i] - phi[i]) / width;
                        at(S[m]) += w / st / inc * (psi[i] + phi[i]) / width;
                        if (want_sums) {
                            at(sums[m][a].face) += psi[i] * rays.spacing(a) / inc / width;
                            at(sums[m][back].face) += phi[i] * rays.spacing(a) / inc / width;
                        }
                    };
                    auto border = [&](int bc, bool first) {
                        int i = first ? 0 : n - 1;
                        if (bc < (int)rays.ny(a)) {
                            bool east = (ang.ox > 0) != first;
                            cross(true, cx(i) + (east ? 1 : 0), cy(i), first ? 0 : n);
                        } else {
                            cross(false, cx(i), cy(i) + (first ? 0 : 1), first ? 0 : n);
                        }
                    };
                    border(ray.bc(0), true);
                    border(ray.bc(1), false);
                    corner(a, m, ray.bc(0), true, ang.ox > 0);
                    corner(a, m, ray.bc(1), false, ang.ox > 0);
                    for (int i = 1; i < n; i++) {
                        int dx = cx(i) - cx(i - 1), dy = cy(i) - cy(i - 1);
                        if (dx && dy) {
                            int fx = std::max(cx(i), cx(i - 1)), fy = std::max(cy(i), cy(i - 1));
                            for (int k = 0; k < 2; k++) {
                                doubt[m].fx(fx, fy - k) = 1;
                                doubt[m].fy(fx - k, fy) = 1;
                            }
                        } else if (dx) {
                            cross(true, std::max(cx(i), cx(i - 1)), cy(i), i);
                        } else if (dy) {
                            cross(false, cx(i), std::max(cy(i), cy(i - 1)), i);
                        }
                    }
                    if (want_sums) {
                        for (int i = 0; i < n; i++) {
                            int r     = reg(i);
                            double l  = ray.seg_len(i) / st, s = q[r] / (4 * PI_ * t[r]);
                            double b1 = s * l + (psi[i] - psi[i + 1]) / t[r], b2 = s * l + (phi[i + 1] - phi[i]) / t[r];
                            double tt = (*true_t)[r];
                            auto &f = sums[m][a], &bk = sums[m][back];
                            int cl  = lay.cell[r];
                            f.vol[cl] += b1;
                            f.len[cl] += l;
                            f.sig[cl] += tt * b1;
                            bk.vol[cl] += b2;
                            bk.len[cl] += l;
                            bk.sig[cl] += tt * b2;
                        }
                    }
                }
                double *o1 = out[m].get_boundary(0, a).second, *o2 = out[m].get_boundary(0, back).second;
                for (auto &v : out1) {
                    o1[v.first] = v.second;
                }
                for (auto &v : out2) {
                    o2[v.first] = v.second;
                }
                if (gs) {
                    in[m].update(g, a, out[m]);
                    in[m].update(g, back, out[m]);
                }
            }
            if (!gs) {
                in[m].update(g, out[m]);
            }
        }
        for (int m = 0; m < lay.nm; m++) {
            int end = m + 1 < lay.nm ? lay.first_reg[m + 1] : lay.n_reg;
            for (int r = lay.first_reg[m]; r < end; r++) {
                flux[r][g] = (sum[r] / lay.area[r] + q[r]) / t[r];
            }
        }
    }
};
} // namespace ref
