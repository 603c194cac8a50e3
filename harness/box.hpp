// Cores of pins with one material each: boxes of nx by ny by nz cells.
#pragma once
#include "core_problem.hpp"

namespace box {
using mc::fmt;

struct Box {
    int nx, ny, ng = 1;
    double pitch = 1.2;
    std::vector<int> groups;           // planes in each group, bottom up
    std::vector<double> hz;            // per plane, bottom up
    std::vector<std::vector<int>> mat; // [group of planes][cell]
    int bc = 0;                        // vacuum: bits west east south north bottom top
    int incoming = 0;                  // prescribed: bits as above
    int nz() const
    {
        return hz.size();
    }
    int n() const
    {
        return nx * ny * nz();
    }
    int group_of(int z) const
    {
        int g = 0;
        while (z >= groups[g]) {
            z -= groups[g++];
        }
        return g;
    }
    // material of a cell, counted x first, then y, then z
    int at(int i) const
    {
        return mat[group_of(i / (nx * ny))][i % (nx * ny)];
    }
    double vol(int i) const
    {
        return pitch * pitch * hz[i / (nx * ny)];
    }
    std::string xml() const
    {
        std::string s = fmt("<mesh id=\"1\" type=\"rect\" pitch=\"%.17g\"><sub_x>1</sub_x><sub_y>1</sub_y></mesh>", pitch);
        int kinds = 4;
        for (auto &v : mat) {
            for (int m : v) {
                kinds = std::max(kinds, m + 1);
            }
        }
        for (int m = 0; m < kinds; m++) {
            s += fmt("<pin id=\"%d\" mesh=\"1\"> %d</pin>", m + 1, m + 1);
        }
        std::string stack, h;
        int z = 0;
        for (size_t g = 0; g < groups.size(); g++) {
            s += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", (int)g + 1, nx, ny);
            for (int y = ny - 1; y >= 0; y--) {
                for (int x = 0; x < nx; x++) {
                    s += fmt(" %d", mat[g][y * nx + x] + 1);
                }
            }
            s += "</lattice>";
            std::string blk = groups[g] > 1 ? "{" : "";
            for (int k = 0; k < groups[g]; k++, z++) {
                blk += fmt(" %d", (int)g + 1);
                h = fmt(" %.17g", hz[z]) + h;
            }
            stack = blk + (groups[g] > 1 ? " } " : " ") + stack;
        }
        auto b = [&](int i) { return incoming >> i & 1 ? "prescribed" : bc >> i & 1 ? "vacuum" : "reflect"; };
        s += fmt("<assembly id=\"1\" np=\"%d\"><hz>", z) + h + "</hz><lattices>" + stack + "</lattices></assembly>";
        s += "<core nx=\"1\" ny=\"1\"" + ci::bcs(b(0), b(1), b(2), b(3), b(4), b(5)) + "> 1</core>";
        return s;
    }
};
} // namespace box
