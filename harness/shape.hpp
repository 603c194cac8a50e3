// Cores of one assembly whose pins have one of several meshes each.
#pragma once
#include "core_input.hpp"

namespace sh {
using mc::fmt;

struct Fuel {
    int sx, sy;            // columns and rows of a rectangular mesh, 0 for rings
    std::vector<int> mats; // by row from the lower left, or by ring from the inside
};
struct Shape {
    int nx, ny;
    std::vector<int> groups;           // planes in each group, bottom up
    std::vector<double> hz;            // per plane, bottom up
    std::vector<std::vector<Fuel>> pin; // [group][cell from the lower left]
    int bc = 0;                        // vacuum: bits west east south north bottom top
    double unit = 1;                   // length
    int nz() const
    {
        return hz.size();
    }
    std::string xml() const
    {
        std::string meshes = fmt("<mesh id=\"1\" type=\"cyl\" pitch=\"%.17g\"><radii>%.17g %.17g</radii><sub_azi>4</sub_azi><sub_radii>1 1</sub_radii></mesh>", 1.2 * unit, 0.3 * unit, 0.4 * unit), pins, lats, stack, h;
        int id = 1, mesh = 2, z = 0;
        for (size_t g = 0; g < groups.size(); g++) {
            lats += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", (int)g + 1, nx, ny);
            for (int y = ny - 1; y >= 0; y--) {
                for (int x = 0; x < nx; x++) {
                    auto &p = pin[g][y * nx + x];
                    if (p.sx) {
                        meshes += fmt("<mesh id=\"%d\" type=\"rect\" pitch=\"%.17g\"><sub_x>%d</sub_x><sub_y>%d</sub_y></mesh>", mesh, 1.2 * unit, p.sx, p.sy);
                    }
                    pins += fmt("<pin id=\"%d\" mesh=\"%d\">", id, p.sx ? mesh++ : 1);
                    for (size_t i = 0; i < p.mats.size(); i++) {
                        // rows are written from the top
                        int at = p.sx ? (p.sy - 1 - (int)i / p.sx) * p.sx + (int)i % p.sx : (int)i;
                        pins += fmt(" %d", p.mats[at] + 1);
                    }
                    pins += "</pin>";
                    lats += fmt(" %d", id++);
                }
            }
            lats += "</lattice>";
            std::string blk = groups[g] > 1 ? "{" : "";
            for (int k = 0; k < groups[g]; k++, z++) {
                blk += fmt(" %d", (int)g + 1);
                h = fmt(" %.17g", hz[z] * unit) + h;
            }
            stack = blk + (groups[g] > 1 ? " } " : " ") + stack;
        }
        auto b = [&](int i) { return bc >> i & 1 ? "vacuum" : "reflect"; };
        return meshes + pins + lats + fmt("<assembly id=\"1\" np=\"%d\"><hz>", z) + h + "</hz><lattices>" + stack + "</lattices></assembly><core nx=\"1\" ny=\"1\"" + ci::bcs(b(0), b(1), b(2), b(3), b(4), b(5)) + "> 1</core>";
    }
};
} // namespace sh
