// Helpers to write problem inputs: material libraries and core descriptions.
#pragma once
#include <pugixml.hpp>
#include <fstream>
#include <map>
#include "mc.hpp"

namespace ci {
struct Mat {
    std::string name;
    std::vector<double> abs, nf, f, chi;
    std::vector<std::vector<double>> sc; // sc[to][from]
    int ng() const
    {
        return (int)abs.size();
    }
    double out(int g) const
    {
        double s = 0;
        for (int t = 0; t < ng(); t++) {
            s += sc[t][g];
        }
        return s;
    }
    double tr(int g) const
    {
        return abs[g] + out(g);
    }
};

inline std::string library_text(const std::vector<Mat> &m)
{
    int ng        = m[0].ng();
    std::string s = "test library\n" + mc::fmt("%d %d\n", ng, (int)m.size());
    for (int g = 0; g < ng; g++) {
        s += mc::fmt("%g ", 1e7 / (g + 1));
    }
    s += "\n";
    int k = 1;
    for (auto &x : m) {
        s += mc::fmt("XSMACRO %s %d\n", x.name.c_str(), k++);
        for (int g = 0; g < ng; g++) {
            s += mc::fmt("%.17g %.17g %.17g %.17g\n", x.abs[g], x.nf[g], x.f[g], x.chi[g]);
        }
        for (int t = 0; t < ng; t++) {
            for (int g = 0; g < ng; g++) {
                s += mc::fmt("%.17g ", x.sc[t][g]);
            }
            s += "\n";
        }
    }
    return s;
}

inline void write_file(const std::string &path, const std::string &text)
{
    std::ofstream f(path);
    f << text;
    f.close();
    if (!f) {
        throw std::runtime_error("cannot write " + path);
    }
}

// material_lib tag that names the materials 1, 2, ... in order
inline std::string lib_tag(const std::vector<Mat> &m, const std::string &path)
{
    write_file(path, library_text(m));
    std::string s = "<material_lib path=\"" + path + "\">";
    for (size_t i = 0; i < m.size(); i++) {
        s += mc::fmt("<material id=\"%d\" name=\"%s\"/>", (int)i + 1, m[i].name.c_str());
    }
    return s + "</material_lib>";
}

// A fissile, a weakly absorbing and a strongly absorbing material
inline std::vector<Mat> mats(int ng)
{
    Mat f, m, a;
    f.name = "fuel";
    m.name = "mod";
    a.name = "abs";
    for (int g = 0; g < ng; g++) {
        f.abs.push_back(0.08 + 0.12 * g);
        f.nf.push_back(0.05 + 0.20 * g);
        f.f.push_back(0.02 + 0.08 * g);
        f.chi.push_back(ng == 1 ? 1.0 : g == 0 ? 0.75 : 0.25 / (ng - 1));
        m.abs.push_back(0.004 + 0.015 * g);
        a.abs.push_back(0.5 + 0.4 * g);
    }
    for (auto *x : {&m, &a}) {
        x->nf = x->f = x->chi = std::vector<double>(ng, 0.0);
    }
    int k = 0;
    for (auto *x : {&f, &m, &a}) {
        x->sc.assign(ng, std::vector<double>(ng, 0.0));
        for (int t = 0; t < ng; t++) {
            for (int g = 0; g < ng; g++) {
                double v = t == g ? 0.35 + 0.3 * k + 0.1 * g : t == g + 1 ? 0.03 + 0.05 * k : t == g + 2 ? 0.007 : t + 1 == g ? 0.002 * (k + 1) : 0.0;
                x->sc[t][g] = v;
            }
        }
        k = (k + 1) % 3;
    }
    return {f, m, a};
}

struct Doc {
    pugi::xml_document d;
    explicit Doc(const std::string &text)
    {
        auto r = d.load_string(text.c_str());
        if (!r) {
            throw std::runtime_error(std::string("harness xml: ") + r.description() + " in " + text);
        }
    }
    pugi::xml_node root()
    {
        return d.first_child();
    }
};

inline std::string bcs(const std::string &w, const std::string &e, const std::string &s, const std::string &n, const std::string &b, const std::string &t)
{
    return " west=\"" + w + "\" east=\"" + e + "\" south=\"" + s + "\" north=\"" + n + "\" bottom=\"" + b + "\" top=\"" + t + "\"";
}
} // namespace ci
