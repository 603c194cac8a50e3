// Small cores of two pin geometries, with what is needed to work out their
// homogenised cross sections by hand.
#pragma once
#include "core_input.hpp"
#include "mc.hpp"
#include "util/blitz_typedefs.hpp"

namespace cp {
using mc::fmt;

const double PI_ = 3.14159265358979323846;

inline std::vector<ci::Mat> library(int ng)
{
    auto m = ci::mats(ng);
    // tables of different sparsity: the absorber has no transfers between
    // groups, the moderator has all of them
    for (int t = 0; t < ng; t++) {
        for (int g = 0; g < ng; g++) {
            m[1].sc[t][g] += t < g ? 0.013 : 0.0;
            m[2].sc[t][g] *= t != g ? 0.0 : 1.0;
        }
    }
    // a second fissile material with another spectrum
    ci::Mat f = m[0];
    f.name    = "mox";
    for (int g = 0; g < ng; g++) {
        f.abs[g] += 0.11;
        f.nf[g] = 0.3 + 0.1 * g;
        f.f[g]  = 0.1 + 0.02 * g;
        f.chi[g] = ng == 1 ? 1.0 : g == 0 ? 0.5 : 0.5 / (ng - 1);
    }
    if (ng > 1) {
        f.sc[0][0] = -0.02; // as transport corrections give
    }
    m.push_back(f);
    return m;
}
// four more fuels
inline std::vector<ci::Mat> many(int ng)
{
    auto m = library(ng);
    for (int i = 0; i < 4; i++) {
        auto f = m[i % 2 ? 3 : 0];
        f.name += fmt("%d", i);
        for (int g = 0; g < ng; g++) {
            f.nf[g] *= 0.7 + 0.2 * i;
            f.abs[g] += 0.02 * i;
        }
        m.push_back(f);
    }
    return m;
}

// pins over two geometries: ring of two radii with four sectors, and 2x1
// halves; and two finely divided ones: 300 columns, and 16 rings with eight sectors
struct PinDef {
    int geo;
    std::vector<int> mats;
};
inline std::vector<double> areas(int geo)
{
    if (geo == 0) {
        std::vector<double> a;
        double r1 = PI_ * 0.09, r2 = PI_ * 0.16;
        for (double x : {r1, r2 - r1, 1.44 - r2}) {
            for (int i = 0; i < 4; i++) {
                a.push_back(x / 4);
            }
        }
        return a;
    }
    if (geo == 2) {
        return std::vector<double>(300, 1.44 / 300);
    }
    if (geo == 3) {
        std::vector<double> a;
        double r1 = PI_ * 0.09, r2 = PI_ * 0.16;
        for (int ring = 0; ring < 17; ring++) {
            a.insert(a.end(), 8, (ring < 8 ? r1 / 8 : ring < 16 ? (r2 - r1) / 8 : 1.44 - r2) / 8);
        }
        return a;
    }
    return {0.72, 0.72};
}
inline int mat_of(const PinDef &p, int r)
{
    return p.geo == 0 ? p.mats[r / 4] : p.geo == 3 ? p.mats[r / 64] : p.mats[r];
}
inline const char *const MESHES = "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.3 0.4</radii><sub_azi>4</sub_azi><sub_radii>1 1</sub_radii></mesh>"
                            "<mesh id=\"2\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>";
inline const char *const FINE = "<mesh id=\"3\" type=\"rect\" pitch=\"1.2\"><sub_x>300</sub_x><sub_y>1</sub_y></mesh>"
                          "<mesh id=\"4\" type=\"cyl\" pitch=\"1.2\"><radii>0.3 0.4</radii><sub_azi>8</sub_azi><sub_radii>8 8</sub_radii></mesh>";

struct Problem {
    int ng, nx, ny; // pins of one assembly
    int ax = 1, ay = 1; // assemblies
    std::vector<int> groups;                // plane groups, bottom up
    std::vector<std::vector<PinDef>> pins;  // [group][pin, from the lower left]
    std::vector<double> hz;                 // per plane, bottom up
    std::string xml;
};
// pins of one plane, in all
inline int n_pin(const Problem &p)
{
    return p.nx * p.ny * p.ax * p.ay;
}
// column and row of a pin; assemblies count from the lower left, pins within them too
inline int pin_x(const Problem &p, int i)
{
    int n = p.nx * p.ny;
    return (i / n) % p.ax * p.nx + i % n % p.nx;
}
inline int pin_y(const Problem &p, int i)
{
    int n = p.nx * p.ny;
    return (i / n) / p.ax * p.ny + i % n / p.nx;
}
inline int pin_cell(const Problem &p, int i)
{
    return pin_y(p, i) * p.nx * p.ax + pin_x(p, i);
}
inline void finish(Problem &p)
{
    std::string pins, lats, assys;
    int id = 1, lid = 1, n = p.nx * p.ny;
    bool fine = false;
    for (int a = 0; a < p.ax * p.ay; a++) {
        std::string stack, hz;
        size_t z = 0;
        for (size_t g = 0; g < p.groups.size(); g++) {
            std::vector<std::string> rows(p.ny);
            for (int i = 0; i < n; i++) {
                auto &d = p.pins[g][a * n + i];
                fine = fine || d.geo > 1;
                pins += fmt("<pin id=\"%d\" mesh=\"%d\">", id, d.geo + 1);
                for (int m : d.mats) {
                    pins += fmt(" %d", m + 1);
                }
                pins += "</pin>";
                rows[i / p.nx] += fmt(" %d", id++);
            }
            lats += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", lid, p.nx, p.ny);
            for (int y = p.ny - 1; y >= 0; y--) {
                lats += rows[y];
            }
            lats += "</lattice>";
            std::string blk = p.groups[g] > 1 ? "{" : "";
            for (int k = 0; k < p.groups[g]; k++, z++) {
                blk += fmt(" %d", lid);
                hz = fmt(" %g", p.hz[z]) + hz;
            }
            stack = blk + (p.groups[g] > 1 ? " } " : " ") + stack;
            lid++;
        }
        assys += fmt("<assembly id=\"%d\" np=\"%d\"><hz>", a + 1, (int)z) + hz + "</hz><lattices>" + stack + "</lattices></assembly>";
    }
    p.xml = std::string(MESHES) + (fine ? FINE : "") + pins + lats + assys + fmt("<core nx=\"%d\" ny=\"%d\"", p.ax, p.ay) +
            ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect") + ">";
    for (int y = p.ay - 1; y >= 0; y--) {
        for (int x = 0; x < p.ax; x++) {
            p.xml += fmt(" %d", y * p.ax + x + 1);
        }
    }
    p.xml += "</core>";
}
typedef std::vector<std::vector<double>> Flux; // [region][group]

inline int n_regions(const Problem &p)
{
    int n = 0;
    for (auto &g : p.pins) {
        for (auto &d : g) {
            n += areas(d.geo).size();
        }
    }
    return n;
}
// flux patterns; kind 0 is flat
inline Flux flux_of(int n, int ng, int kind)
{
    Flux f(n, std::vector<double>(ng));
    for (int r = 0; r < n; r++) {
        for (int g = 0; g < ng; g++) {
            f[r][g] = kind == 0 ? 2.0 : kind == 1 ? 1.0 + r + 0.5 * g : kind == 2 ? 1.0 / (1 + (r * 7 + g * 3) % 5) : kind == 3 ? (r % 2 == g % 2 ? 1.0 : 0.0) : (r == (kind - 4) % n ? 50.0 : 0.5);
        }
    }
    return f;
}
inline void assign(mocc::ArrayB2 &a, const Flux &f)
{
    for (size_t r = 0; r < f.size(); r++) {
        for (size_t g = 0; g < f[r].size(); g++) {
            a((int)r, (int)g) = f[r][g];
        }
    }
}
}
