// X04: correction factors written to a file come back unchanged.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "sweepers/cmdo/correction_data.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;
using namespace cp;

static const int SHAPES[][4] = {{2, 1, 1, 1}, {1, 2, 2, 1}, {2, 1, 1, 2}, {1, 2, 1, 1}, {1, 1, 2, 2}, {1, 1, 1, 1}};

struct Bench {
    Problem p;
    std::unique_ptr<ci::Doc> doc;
    std::unique_ptr<CoreMesh> mesh;
};
static Bench build(const int *shape, const std::vector<int> &groups)
{
    Bench r;
    Problem &p = r.p;
    p.ng       = 1;
    p.nx       = shape[0];
    p.ny       = shape[1];
    p.ax       = shape[2];
    p.ay       = shape[3];
    p.groups   = groups;
    for (size_t g = 0; g < groups.size(); g++) {
        p.pins.emplace_back();
        for (int i = 0; i < groups[g]; i++) {
            p.hz.push_back(1.0 + 0.5 * g);
        }
        for (int i = 0; i < n_pin(p); i++) {
            PinDef d;
            d.geo  = 1;
            d.mats = {0, (int)(g % 2)};
            p.pins.back().push_back(d);
        }
    }
    finish(p);
    r.doc.reset(new ci::Doc("<mocc>" + p.xml + ci::lib_tag(library(1), "lib.xsl") + "</mocc>"));
    r.mesh.reset(new CoreMesh(r.doc->root()));
    return r;
}
// Cores are kept: the factors only refer to them
static Bench &bench(int shape, const std::vector<int> &groups)
{
    static std::map<std::pair<int, std::vector<int>>, Bench> all;
    auto k = std::make_pair(shape, groups);
    if (!all.count(k)) {
        all[k] = build(SHAPES[shape], groups);
    }
    return all[k];
}
// factors that differ over everything they depend on
static double value(int seed, int which, int g, int a, int i)
{
    return 0.25 + 0.001 * i + 0.03 * a + 0.2 * g + which + 10.0 * seed;
}
static void fill(CorrectionData &d, int seed, int ng, int na, int n)
{
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int i = 0; i < n; i++) {
                d.alpha(i, a, g, Normal::X_NORM) = value(seed, 0, g, a, i);
                d.alpha(i, a, g, Normal::Y_NORM) = value(seed, 1, g, a, i);
                d.beta(i, a, g)                  = value(seed, 2, g, a, i);
            }
        }
    }
}
// what the factors of a cell should be; from: the cell of the file, -1 for none
static void check(Ctx &c, const CorrectionData &d, int ng, int na, int n, const std::function<std::pair<int, int>(int)> &from, const std::string &at)
{
    if (!c.expect(d.n_cell() == n, at + "number of cells")) {
        return;
    }
    for (int g = 0; g < ng; g++) {
        for (int a = 0; a < na; a++) {
            for (int i = 0; i < n; i++) {
                auto f = from(i);
                for (int w = 0; w < 3; w++) {
                    double x = w == 0 ? d.alpha(i, a, g, Normal::X_NORM) : w == 1 ? d.alpha(i, a, g, Normal::Y_NORM) : d.beta(i, a, g);
                    double y = f.second < 0 ? (w == 2 ? 1.0 : 0.5) : value(f.first, w, g, a, f.second);
                    c.expect_eq(x, y, 0.0, at + fmt("%s of cell %d, angle %d, group %d", w == 0 ? "alpha_x" : w == 1 ? "alpha_y" : "beta", i, a, g));
                }
            }
        }
    }
}
static std::vector<int> groupings(Ctx &c, int max)
{
    std::vector<int> g;
    int nz = 1 + c.choose(max);
    for (int left = nz; left > 0;) {
        int k = 1 + c.choose(left);
        g.push_back(k);
        left -= k;
    }
    return g;
}
static std::string list(const std::vector<int> &v)
{
    std::string s;
    for (int x : v) {
        s += fmt(" %d", x);
    }
    return s;
}

// one file for the whole core; written again and read again
static void whole(Ctx &c)
{
    int shape = c.choose(6);
    auto g    = groupings(c, c.thorough() ? 5 : 4);
    int ng = c.pick(std::vector<int>{1, 2, 5}), na = 1 + c.choose(c.thorough() ? 6 : 3);
    int np  = g.size();
    int bot = c.choose(4) - 2, top = c.choose(6) - 2; // -2: absent
    std::string d = "<data file=\"whole.h5\"";
    if (bot != -2) {
        d += fmt(" bottom_plane=\"%d\"", bot);
    }
    if (top != -2) {
        d += fmt(" top_plane=\"%d\"", top);
    }
    d += "/>";
    if (!c.leaf(fmt("shape %d, plane groups%s, %d groups, %d angles, %s", shape, list(g).c_str(), ng, na, d.c_str()))) {
        return;
    }
    bool ok  = (bot == -2 || bot == 0) && (top == -2 || top == np - 1);
    Bench &b = bench(shape, g);
    int n    = b.mesh->nx() * b.mesh->ny() * np;
    {
        CorrectionData src(*b.mesh, na, ng);
        fill(src, 1, ng, na, n);
        H5Node h("whole.h5", H5Access::WRITE);
        src.output(h);
    }
    auto same = [](int i) { return std::make_pair(1, i); };
    CorrectionData dst(*b.mesh, na, ng);
    ci::Doc in("<mesh>" + d + "</mesh>");
    try {
        dst.from_data(in.root());
    } catch (Exception e) {
        c.expect(!ok, std::string("refused: ") + e.what());
        return;
    }
    c.expect(ok, "a plane range that does not match was accepted");
    if (!ok) {
        return;
    }
    check(c, dst, ng, na, n, same, "");
    {
        H5Node h("again.h5", H5Access::WRITE);
        dst.output(h);
    }
    CorrectionData dst2(*b.mesh, na, ng);
    ci::Doc in2("<mesh><data file=\"again.h5\"/></mesh>");
    dst2.from_data(in2.root());
    check(c, dst2, ng, na, n, same, "second generation: ");
    c.state(fmt("%d", shape) + list(g) + d + fmt("%d %d", ng, na));
}

// one-plane files for ranges of planes
static void ranges(Ctx &c)
{
    int np  = 1 + c.choose(3);
    int shp = c.choose(2);
    int n   = 1 + c.choose(c.thorough() ? 3 : 2);
    struct E {
        int file, bot, top;
    };
    std::vector<E> es;
    std::string d;
    for (int i = 0; i < n; i++) {
        E e;
        e.file = i == 2 ? 0 : c.choose(2);
        e.bot  = i == 2 ? c.choose(3) : c.choose(6) - 2;
        e.top  = i == 2 ? c.choose(3) : c.choose(6) - 2;
        es.push_back(e);
        d += fmt("<data file=\"plane%d%d.h5\"", shp, e.file);
        if (e.bot != -2) {
            d += fmt(" bottom_plane=\"%d\"", e.bot);
        }
        if (e.top != -2) {
            d += fmt(" top_plane=\"%d\"", e.top);
        }
        d += "/>";
    }
    if (!c.leaf(fmt("shape %d, %d planes: ", shp, np) + d)) {
        return;
    }
    const int ng = 2, na = 3;
    Bench &one = bench(shp, {1});
    int m      = one.mesh->nx() * one.mesh->ny();
    static bool written[2];
    if (!written[shp]) {
        written[shp] = true;
        for (int f = 0; f < 2; f++) {
            CorrectionData src(*one.mesh, na, ng);
            fill(src, f, ng, na, m);
            H5Node h(fmt("plane%d%d.h5", shp, f), H5Access::WRITE);
            src.output(h);
        }
    }
    std::vector<int> grp(np, 1);
    grp.back()  = 2; // the top group has two planes
    Bench &core = bench(shp, grp);
    std::vector<int> from(np, -1);
    bool ok = true;
    for (auto &e : es) {
        int b = e.bot == -2 ? 0 : e.bot, t = e.top == -2 ? np - 1 : e.top;
        if (b < 0 || t < 0 || b >= np || t >= np || b > t) {
            ok = false;
            continue;
        }
        for (int z = b; z <= t; z++) {
            if (from[z] >= 0) {
                ok = false;
            }
            from[z] = e.file;
        }
    }
    CorrectionData dst(*core.mesh, na, ng);
    ci::Doc in("<mesh>" + d + "</mesh>");
    try {
        dst.from_data(in.root());
    } catch (Exception e) {
        c.expect(!ok, std::string("refused: ") + e.what());
        c.state("refused");
        return;
    }
    if (!c.expect(ok, "bad plane ranges were accepted")) {
        return;
    }
    check(c, dst, ng, na, np * m, [&](int i) { return std::make_pair(from[i / m], from[i / m] < 0 ? -1 : i % m); }, "");
    std::string key = fmt("%d", shp);
    for (int f : from) {
        key += fmt(" %d", f);
    }
    c.state(key);
}

// files of another core
static void mismatched(Ctx &c)
{
    int mode = c.choose(2); // one whole-core file, or one plane of several
    int a = c.choose(6), b = c.choose(6);
    int nga = 1 + c.choose(2), ngb = 1 + c.choose(2);
    int naa = 1 + c.choose(2), nab = 1 + c.choose(2);
    int za = 1 + c.choose(3), zb = 1 + c.choose(3);
    // files with more groups or angles than needed are not judged
    if (nga > ngb || naa > nab) {
        return;
    }
    if (!c.leaf(fmt("file of shape %d, %d planes, %d groups, %d angles read into shape %d, %d planes, %d groups, %d angles%s", a, za, nga, naa, b, zb, ngb, nab, mode ? ", as ranges" : ""))) {
        return;
    }
    Bench &src = bench(a, std::vector<int>(za, 1)), &dst = bench(b, std::vector<int>(zb, 1));
    int m  = src.mesh->nx() * src.mesh->ny();
    int md = dst.mesh->nx() * dst.mesh->ny();
    {
        CorrectionData d(*src.mesh, naa, nga);
        fill(d, 1, nga, naa, m * za);
        H5Node h("m.h5", H5Access::WRITE);
        d.output(h);
    }
    std::string d;
    if (mode == 0) {
        d = "<data file=\"m.h5\"/>";
    } else {
        for (int z = 0; z < zb; z++) {
            d += fmt("<data file=\"m.h5\" bottom_plane=\"%d\" top_plane=\"%d\"/>", z, z);
        }
    }
    bool dims = src.mesh->nx() == dst.mesh->nx() && src.mesh->ny() == dst.mesh->ny() && nga == ngb && naa == nab;
    bool ok   = dims && (za == 1 || (za == zb && mode == 0));
    ci::Doc in("<mesh>" + d + "</mesh>");
    CorrectionData r(*dst.mesh, nab, ngb);
    bool acc = true;
    try {
        r.from_data(in.root());
    } catch (Exception) {
        acc = false;
    }
    c.state(fmt("%d %d %d %d %d %d %d %d %d", mode, a, b, nga, ngb, za, zb, naa, nab));
    c.expect(acc == ok, acc ? "data of the wrong size were accepted" : "matching data were refused");
    if (acc && ok) {
        check(c, r, ngb, nab, md * zb, [&](int i) { return std::make_pair(1, za == 1 ? i % m : i); }, "");
    }
}

// damaged files: every dataset left out or of another size
static void damaged(Ctx &c)
{
    int mode = c.choose(2), ds = c.choose(12), how = c.choose(6), zb = 1 + c.choose(2);
    if (!c.leaf(fmt("dataset %d, damage %d, %d planes%s", ds, how, zb, mode ? ", as ranges" : ""))) {
        return;
    }
    int np     = mode ? 1 : zb;
    Bench &dst = bench(0, std::vector<int>(zb, 1));
    bool ok    = how == 5;
    {
        H5Node h("d.h5", H5Access::WRITE);
        int k = 0;
        for (auto s : {"alpha_x", "alpha_y", "beta"}) {
            h.create_group(s);
            for (int g = 0; g < 2; g++) {
                h.create_group(fmt("%s/%03d", s, g));
                for (int a = 0; a < 2; a++) {
                    VecI dims = {np, 1, 2};
                    bool hit  = k++ == ds;
                    if (hit && how == 0) {
                        continue;
                    }
                    if (hit && how == 1) {
                        dims[0] += 1;
                    }
                    if (hit && how == 2) {
                        dims.back() -= 1;
                    }
                    if (hit && how == 3) {
                        dims.push_back(2);
                    }
                    if (hit && how == 4) {
                        std::swap(dims[1], dims[2]);
                    }
                    int tot = 1;
                    for (int x : dims) {
                        tot *= x;
                    }
                    VecF v(tot, 0.75);
                    h.write(fmt("%s/%03d/%03d", s, g, a), v, dims);
                }
            }
        }
    }
    std::string d;
    if (mode == 0) {
        d = "<data file=\"d.h5\"/>";
    } else {
        for (int z = 0; z < zb; z++) {
            d += fmt("<data file=\"d.h5\" bottom_plane=\"%d\" top_plane=\"%d\"/>", z, z);
        }
    }
    ci::Doc in("<mesh>" + d + "</mesh>");
    CorrectionData r(*dst.mesh, 2, 2);
    bool acc = true;
    try {
        r.from_data(in.root());
    } catch (Exception) {
        acc = false;
    }
    c.expect(acc == ok, acc ? "a damaged file was accepted" : "a good file was refused");
    c.state(fmt("%d %d %d %d", mode, ds, how, zb));
}

// entries without what is needed; without any entry the factors stay neutral
static void incomplete(Ctx &c)
{
    static const char *IN[] = {"<mesh></mesh>", "<mesh><data/></mesh>", "<mesh><data file=\"\"/></mesh>", "<mesh><data file=\"nosuch.h5\"/></mesh>",
                               "<mesh><data file=\"nosuch.h5\" bottom_plane=\"0\" top_plane=\"0\"/><data file=\"nosuch.h5\" bottom_plane=\"1\" top_plane=\"1\"/></mesh>",
                               "<mesh><data bottom_plane=\"0\" top_plane=\"0\"/><data bottom_plane=\"1\" top_plane=\"1\"/></mesh>", "<mesh><data file=\"text.h5\"/></mesh>"};
    int i  = c.choose(7);
    int np = 1 + c.choose(3);
    if (!c.leaf(fmt("%d planes: ", np) + IN[i])) {
        return;
    }
    ci::write_file("text.h5", "not a data file\n");
    Bench &dst = bench(0, std::vector<int>(np, 1));
    ci::Doc in(IN[i]);
    CorrectionData r(*dst.mesh, 2, 2);
    try {
        r.from_data(in.root());
        c.expect(i == 0, "incomplete data were accepted");
        check(c, r, 2, 2, 2 * np, [](int) { return std::make_pair(0, -1); }, "");
    } catch (Exception e) {
        c.expect(i != 0, std::string("refused: ") + e.what());
    }
    c.state(fmt("%d %d", i, np));
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "X04",
                   {{"whole", whole, 30, "one file for the whole core over all shapes, groupings, group and angle counts and plane attributes; two generations"},
                    {"ranges", ranges, 30, "all one- and two-entry plane ranges (three thorough) over up to 3 planes, incl. absent and out-of-range bounds"},
                    {"mismatched", mismatched, 30, "all pairs of file and core over shapes, planes, group and angle counts"},
                    {"damaged", damaged, 30, "every dataset missing, longer, shorter, of another rank or shape"},
                    {"incomplete", incomplete, 30, "entries without a usable file"}});
}
