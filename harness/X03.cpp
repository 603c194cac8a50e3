// X03: the material library is read faithfully or rejected.
#include "mc.hpp"
#include "core_input.hpp"
#include "util/error.hpp"
#include "core/material_lib.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

static void check_material(Ctx &c, const Material &m, const ci::Mat &w, const std::string &at)
{
    int ng = w.ng();
    if (!c.expect((int)m.xsab().size() == ng && m.xssc().n_group() == ng, at + "groups")) {
        return;
    }
    double cs = 0;
    for (double x : w.chi) {
        cs += x;
    }
    bool fis = false;
    for (int g = 0; g < ng; g++) {
        fis = fis || w.nf[g] > 0;
        c.expect_eq(m.xsab(g), w.abs[g], 0.0, at + "absorption");
        c.expect_eq(m.xsnf(g), w.nf[g], 0.0, at + "production");
        c.expect_eq(m.xsf(g), w.f[g], 0.0, at + "fission");
        c.expect_eq(m.xsch(g), cs > 0 ? w.chi[g] / cs : 0.0, 1e-15, at + "spectrum");
        c.expect_eq(m.xssc().out(g), w.out(g), 1e-15, at + "out-scatter");
        c.expect_eq(m.xstr(g), w.tr(g), 1e-15, at + "transport");
        for (int t = 0; t < ng; t++) {
            auto &r  = m.xssc().to(t);
            bool in  = g >= r.min_g && g <= r.max_g;
            double v = in ? r[g] : 0.0;
            c.expect_eq(v, w.sc[t][g], 0.0, at + fmt("scattering %d to %d", g, t));
            c.expect(in || g != t, at + "self-scatter outside the bounds");
            c.expect_eq(m.xssc().as_vector()[t * ng + g], w.sc[t][g], 0.0, at + "dense scattering");
        }
        c.expect_eq(m.xssc().self_scat(g), w.sc[g][g], 0.0, at + "self-scatter");
        if (w.out(g) > 0) {
            auto cdf = m.xssc().out_cdf(g);
            double s = 0;
            for (int t = 0; t < ng; t++) {
                s += w.sc[t][g] / w.out(g);
                c.expect_eq(cdf[t], s, 1e-14, at + "out-scatter distribution");
            }
        }
    }
    for (int t = 0; t < ng; t++) {
        auto &r = m.xssc().to(t);
        // the bounds are tight around the nonzero transfers and the diagonal
        int lo = t, hi = t;
        for (int g = 0; g < ng; g++) {
            if (w.sc[t][g] != 0) {
                lo = std::min(lo, g);
                hi = std::max(hi, g);
            }
        }
        c.expect_int(r.min_g, lo, at + "lower transfer bound");
        c.expect_int(r.max_g, hi, at + "upper transfer bound");
        c.expect((int)(r.end() - r.begin()) == r.max_g - r.min_g + 1, at + "row length");
    }
    c.expect(m.is_fissile() == fis, at + "fissile flag");
}

static ci::Mat material(int ng, const std::string &name, int salt, unsigned zero, int fis, int neg)
{
    ci::Mat m;
    m.name = name;
    for (int g = 0; g < ng; g++) {
        m.abs.push_back(0.1 + 0.03 * g + 0.01 * salt);
        bool f = fis == 3 || fis == g + 1;
        m.nf.push_back(f ? 0.2 + 0.05 * g + 0.02 * salt : 0.0);
        m.f.push_back(f ? 0.08 + 0.02 * g + 0.01 * salt : 0.0);
        // not normalised on purpose
        m.chi.push_back(fis ? 1.5 / (g + 1) : 0.0);
    }
    for (int t = 0; t < ng; t++) {
        m.sc.emplace_back();
        for (int g = 0; g < ng; g++) {
            double v = 0.3 + 0.07 * t + 0.011 * g + 0.005 * salt;
            m.sc.back().push_back(zero >> (t * ng + g) & 1 ? 0.0 : v);
        }
    }
    if (neg == 1) {
        m.sc[0][0] = -0.05;
    } else if (neg == 2) {
        m.sc[0][ng - 1] = -0.05;
    }
    return m;
}

static void patterns(Ctx &c)
{
    int ng     = 1 + c.choose(c.thorough() ? 4 : 3);
    unsigned z = c.choose(1 << (ng * ng));
    int fis = c.choose(4), neg = ng == 4 ? 0 : c.choose(3);
    if (!c.leaf(fmt("%d groups, zero transfers %x, fission %d, negative scatter %d", ng, z, fis, neg))) {
        return;
    }
    std::vector<ci::Mat> lib = {material(ng, "m", 0, z, fis, neg)};
    ci::Doc d(ci::lib_tag(lib, "lib.xsl"));
    MaterialLib ml(d.root());
    check_material(c, ml[1], lib[0], "");
    // a copy is independent of its source and equal to it
    ScatteringMatrix *src = new ScatteringMatrix(ml[1].xssc());
    ScatteringMatrix a(*src), b;
    b = *src;
    c.expect(a == *src && b == *src, "a copy of the scattering matrix is not equal");
    delete src;
    for (int t = 0; t < ng; t++) {
        for (int g = 0; g < ng; g++) {
            c.expect_eq(a.as_vector()[t * ng + g], lib[0].sc[t][g], 0.0, "copied scattering");
            c.expect_eq(b.as_vector()[t * ng + g], lib[0].sc[t][g], 0.0, "assigned scattering");
        }
    }
    c.state(fmt("%d %x %d %d", ng, z, fis, neg));
}

// two matrices compare equal only if all their transfers are
static void equality(Ctx &c)
{
    int ng = 1 + c.choose(2);
    std::vector<VecF> a(ng, VecF(ng)), b = a;
    std::string d;
    for (auto *m : {&a, &b}) {
        for (auto &r : *m) {
            for (auto &v : r) {
                v = 0.25 * c.choose(3);
                d += fmt("%g ", v);
            }
        }
    }
    if (!c.leaf(d)) {
        return;
    }
    ScatteringMatrix x(a), y(b);
    c.expect((x == y) == (a == b), "equality");
    c.expect((x != y) == (a != b), "inequality");
    c.state(d);
}

static void mappings(Ctx &c)
{
    int nm = 1 + c.choose(3), ng = 2;
    std::vector<ci::Mat> lib;
    for (int i = 0; i < nm; i++) {
        lib.push_back(material(ng, fmt("mat-%d_%c", i, 'a' + i), i, i * 3, i, 0));
    }
    static const int IDS[] = {1, 7, 4, 100};
    int k = c.choose(4);
    std::string tag = "<material_lib path=\"lib.xsl\">";
    std::vector<std::pair<int, int>> map; // id, material
    bool ok = true;
    for (int i = 0; i < k; i++) {
        int id = IDS[c.choose(4)], m = c.choose(nm + 1);
        for (auto &p : map) {
            ok = ok && p.first != id;
        }
        ok = ok && m < nm;
        map.push_back({id, m});
        tag += fmt("<material id=\"%d\" name=\"%s\"/>", id, m < nm ? lib[m].name.c_str() : "mat-9_z");
    }
    tag += "</material_lib>";
    if (!c.leaf(fmt("%d materials: ", nm) + tag)) {
        return;
    }
    ci::write_file("lib.xsl", ci::library_text(lib));
    ci::Doc d(tag);
    try {
        MaterialLib ml(d.root());
        if (!c.expect(ok, "a bad mapping was accepted")) {
            return;
        }
        c.expect_int(ml.n_group(), ng, "groups");
        c.expect_int(ml.n_materials(), k, "mapped materials");
        c.expect_int((int)ml.materials().size(), nm, "materials in the library");
        for (int g = 0; g < ng; g++) {
            c.expect_rel(ml.g_bounds()[g], 1e7 / (g + 1), 1e-5, "group bound");
        }
        auto it = ml.begin();
        for (int i = 0; i < k; i++, ++it) {
            check_material(c, ml[map[i].first], lib[map[i].second], fmt("ID %d: ", map[i].first));
            check_material(c, *it, lib[map[i].second], fmt("mapping %d: ", i));
            c.expect_int(ml.get_index_by_id(map[i].first), i, "index of the mapping");
        }
        c.expect(it == ml.end(), "mappings listed");
        for (int id = 0; id < 102; id++) {
            bool has = false;
            for (auto &p : map) {
                has = has || p.first == id;
            }
            c.expect(ml.has(id) == has, fmt("ID %d known", id));
        }
    } catch (Exception e) {
        c.expect(!ok, std::string("refused: ") + e.what());
    }
    c.state(fmt("%d", nm) + tag);
}

typedef std::vector<std::vector<std::string>> Lines;
static std::vector<ci::Mat> small()
{
    std::vector<ci::Mat> l = {material(2, "fuel", 0, 0, 3, 0), material(2, "water", 1, 4, 0, 0)};
    // short numbers
    return l;
}
static Lines tokens(const std::string &t)
{
    Lines l;
    std::stringstream ss(t);
    std::string s;
    while (std::getline(ss, s)) {
        l.emplace_back();
        std::stringstream ls(s);
        std::string x;
        while (ls >> x) {
            l.back().push_back(x);
        }
    }
    return l;
}
static std::string text(const Lines &l, const std::string &sep = " ")
{
    std::string s;
    for (auto &x : l) {
        for (size_t i = 0; i < x.size(); i++) {
            s += (i ? sep : "") + x[i];
        }
        s += "\n";
    }
    return s;
}
static const char *TAG = "<material_lib path=\"lib.xsl\"><material id=\"1\" name=\"fuel\"/><material id=\"2\" name=\"water\"/></material_lib>";

// layouts that mean the same
static void layouts(Ctx &c)
{
    auto lib  = small();
    Lines ls  = tokens(ci::library_text(lib));
    int n     = (int)ls.size();
    int sep   = c.choose(4);
    int lead  = c.choose(4);
    int trail = c.choose(6);
    int ins1 = c.choose(n + 2), kind1 = ins1 == n + 1 ? 0 : c.choose(5);
    int ins2 = (sep || lead) && !c.thorough() ? n + 1 : c.choose(n + 2), kind2 = ins2 == n + 1 ? 0 : c.choose(5);
    static const char *SEP[]   = {" ", "  ", "\t", " \t "};
    static const char *LEAD[]  = {"", " ", "\t", "    "};
    static const char *TRAIL[] = {"", " ", "! note", " ! 1.0 2.0", "\t", " !"};
    static const char *INS[]   = {"", "! comment", "   ", "  ! XSMACRO x 1", "\t!"};
    if (!c.leaf(fmt("separator %d, leading %d, trailing %d, line kind %d before %d, line kind %d before %d", sep, lead, trail, kind1, ins1, kind2, ins2))) {
        return;
    }
    std::string s;
    for (int i = 0; i <= n; i++) {
        if (ins1 == i) {
            s += std::string(INS[kind1]) + "\n";
        }
        if (ins2 == i) {
            s += std::string(INS[kind2]) + "\n";
        }
        if (i < n) {
            s += i == 0 ? ls[i][0] + "\n" : LEAD[lead] + text({ls[i]}, SEP[sep]);
            s.pop_back();
            s += std::string(TRAIL[trail]) + "\n";
        }
    }
    ci::write_file("lib.xsl", s);
    ci::Doc d(TAG);
    MaterialLib ml(d.root());
    c.expect_int((int)ml.materials().size(), 2, "materials");
    check_material(c, ml[1], lib[0], "fuel: ");
    check_material(c, ml[2], lib[1], "water: ");
    // the other way to read a library
    FileScrubber f("lib.xsl", "!");
    MaterialLib m2(f);
    m2.assignID(5, "water");
    m2.assignID(1, "fuel");
    check_material(c, m2[1], lib[0], "assigned fuel: ");
    check_material(c, m2[5], lib[1], "assigned water: ");
    c.state(s);
}

// damaged files
static void damages(Ctx &c)
{
    auto lib = small();
    Lines ls = tokens(ci::library_text(lib));
    int line = 1 + c.choose((int)ls.size() - 1);
    int tok  = c.choose((int)ls[line].size());
    int how  = c.choose(13);
    static const char *HOW[] = {"token left out", "token not a number", "token with a letter", "token twice", "text ends before the line", "text ends before the token", "line left out", "line twice",
                                "token negative sign only", "tokens joined", "two signs", "comment before the token", "comma"};
    if (!c.leaf(fmt("%s: line %d, token %d", HOW[how], line, tok))) {
        return;
    }
    auto &l = ls[line];
    bool may = false; // a reader may accept it
    switch (how) {
    case 0:
        l.erase(l.begin() + tok);
        break;
    case 1:
        l[tok] = "zz";
        break;
    case 2:
        l[tok] += "x";
        break;
    case 3:
        l.insert(l.begin() + tok, l[tok]);
        break;
    case 4:
        ls.resize(line);
        break;
    case 5:
        l.resize(tok);
        ls.resize(line + 1);
        break;
    case 6:
        ls.erase(ls.begin() + line);
        break;
    case 7: {
        auto copy = l;
        ls.insert(ls.begin() + line, copy);
        // text after the last line of the last material is not read
        may = line >= (int)ls.size() - 3;
        break;
    }
    case 8:
        l[tok] = "-";
        break;
    case 9:
        if (tok + 1 < (int)l.size()) {
            l[tok] += l[tok + 1];
            l.erase(l.begin() + tok + 1);
        } else {
            l[tok] += ".5.5";
        }
        break;
    case 10:
        l[tok] = "--" + l[tok];
        break;
    case 11:
        l[tok] = "!" + l[tok];
        break;
    default:
        l[tok] += ",";
    }
    ci::write_file("lib.xsl", text(ls));
    for (int via = 0; via < 2; via++) {
        ci::Doc d(TAG);
        bool acc = true;
        try {
            if (via == 0) {
                MaterialLib ml(d.root());
                c.steps(ml.n_group());
            } else {
                FileScrubber f("lib.xsl", "!");
                MaterialLib ml(f);
                ml.assignID(1, "fuel");
                ml.assignID(2, "water");
            }
        } catch (Exception) {
            acc = false;
        }
        c.expect(!acc || may, fmt("a damaged library was accepted%s:\n", via ? " by the file reader" : "") + text(ls));
    }
    c.state(text(ls));
}

static void sources(Ctx &c)
{
    static const char *IN[] = {"<material_lib/>", "<material_lib path=\"\"/>", "<material_lib path=\"nosuch.xsl\"/>", "<material_lib path=\"empty.xsl\"/>", "<material_lib path=\"dup.xsl\"/>",
                               "<material_lib path=\"neg.xsl\"/>", "<material_lib path=\"zero.xsl\"/>"};
    int i = c.choose(8);
    if (!c.leaf(i < 7 ? IN[i] : "no tag")) {
        return;
    }
    auto lib = small();
    ci::write_file("empty.xsl", "");
    std::string t = ci::library_text(lib);
    size_t p      = t.find("water");
    ci::write_file("dup.xsl", t.substr(0, p) + "fuel" + t.substr(p + 5));
    p = t.find("2 2\n");
    ci::write_file("neg.xsl", t.substr(0, p) + "-2 2\n" + t.substr(p + 4));
    ci::write_file("zero.xsl", t.substr(0, p) + "0 2\n" + t.substr(p + 4));
    ci::Doc d(i < 7 ? IN[i] : "<x/>");
    try {
        MaterialLib ml(i < 7 ? d.root() : d.root().child("material_lib"));
        c.fail("accepted");
    } catch (Exception) {
    }
    c.state(fmt("%d", i));
}

// more groups and materials than the others
static void large(Ctx &c)
{
    int ng = 4 + c.choose(5), nm = c.pick(std::vector<int>{1, 5, 12}), z = c.choose(16), fis = c.choose(4), neg = c.choose(3);
    if (!c.leaf(fmt("%d groups, %d materials, zero transfers %d, fission %d, negative scatter %d", ng, nm, z, fis, neg))) {
        return;
    }
    std::vector<ci::Mat> lib;
    for (int i = 0; i < nm; i++) {
        lib.push_back(material(ng, fmt("mat%d", i), i % 4, (unsigned)(z * 0x11111111u) >> i, (fis + i) % 4, neg));
    }
    ci::Doc d(ci::lib_tag(lib, "lib.xsl"));
    MaterialLib ml(d.root());
    c.expect_int(ml.n_group(), ng, "groups");
    c.expect_int(ml.n_materials(), nm, "mapped materials");
    for (int i = 0; i < nm; i++) {
        check_material(c, ml[i + 1], lib[i], fmt("material %d: ", i));
    }
    c.state(fmt("%d %d %d %d %d", ng, nm, z, fis, neg));
}
int main(int argc, char **argv)
{
    return mc::run(argc, argv, "X03",
                   {{"patterns", patterns, 30, "all zero patterns of the scattering table for 1-3 groups (4 thorough), all fission patterns"},
                    {"equality", equality, 30, "all pairs of 1- and 2-group scattering tables over three values"},
                    {"mappings", mappings, 30, "all mappings of up to 3 IDs to up to 3 materials, incl. unknown and repeated ones"},
                    {"large", large, 30, "4-8 groups, up to 12 materials, 16 repeated zero patterns"},
                    {"layouts", layouts, 30, "all separators, indents and trailing comments crossed with all pairs of inserted comment or blank lines"},
                    {"damages", damages, 30, "every token and line of a library with thirteen kinds of damage"},
                    {"sources", sources, 30, "libraries that are missing, empty, duplicated or of impossible size"}});
}
