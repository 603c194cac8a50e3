// X02: homogenised cross sections written to a file come back unchanged.
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;
using namespace cp;

static const int SHAPES[][4] = {{2, 1, 1, 1}, {1, 2, 2, 1}, {2, 1, 1, 2}, {2, 2, 1, 1}, {1, 1, 2, 2}, {1, 1, 1, 1}};

struct Bench {
    Problem p;
    std::unique_ptr<ci::Doc> doc;
    std::unique_ptr<CoreMesh> mesh;
    std::unique_ptr<XSMeshHomogenized> xs;
    ArrayB2 flux;
};
// a core with its own pins and flux
static Bench build(const int *shape, const std::vector<int> &groups, int ng, int seed, bool weighted)
{
    Bench r;
    Problem &p = r.p;
    p.ng = ng;
    p.nx = shape[0];
    p.ny = shape[1];
    p.ax = shape[2];
    p.ay = shape[3];
    p.groups = groups;
    int q    = 0;
    for (size_t g = 0; g < groups.size(); g++) {
        p.pins.emplace_back();
        for (int i = 0; i < groups[g]; i++) {
            p.hz.push_back(1.0 + 0.5 * g);
        }
        for (int i = 0; i < n_pin(p); i++, q++) {
            PinDef d;
            d.geo = (q + seed) % 2;
            for (int j = 0; j < (d.geo == 0 ? 3 : 2); j++) {
                d.mats.push_back((q * (seed + 1) + j * j + seed) % 4);
            }
            p.pins.back().push_back(d);
        }
    }
    finish(p);
    r.doc.reset(new ci::Doc("<mocc>" + p.xml + ci::lib_tag(library(ng), "lib.xsl") + "</mocc>"));
    r.mesh.reset(new CoreMesh(r.doc->root()));
    r.xs.reset(new XSMeshHomogenized(*r.mesh));
    if (weighted) {
        int n = n_regions(p);
        r.flux.resize(n, ng);
        assign(r.flux, flux_of(n, ng, 1 + seed % 2));
        r.xs->set_flux(r.flux);
        r.xs->update();
    }
    return r;
}
static void write(const Bench &r, const std::string &file)
{
    H5Node h(file, H5Access::WRITE);
    r.xs->output(h);
}
static void same(Ctx &c, const XSMeshRegion &a, const XSMeshRegion &b, const std::string &at)
{
    if (!c.expect(a.n_group() == b.n_group(), at + "groups")) {
        return;
    }
    for (int g = 0; g < b.n_group(); g++) {
        c.expect_eq(a.xsmactr(g), b.xsmactr(g), 0.0, at + fmt("transport in group %d", g));
        c.expect_eq(a.xsmacnf(g), b.xsmacnf(g), 0.0, at + fmt("production in group %d", g));
        c.expect_eq(a.xsmacf(g), b.xsmacf(g), 0.0, at + fmt("fission in group %d", g));
        c.expect_eq(a.xsmacch(g), b.xsmacch(g), 0.0, at + fmt("spectrum in group %d", g));
        c.expect_eq(a.xsmacrm(g), b.xsmacrm(g), 0.0, at + fmt("removal in group %d", g));
        c.expect_eq(a.xsmacsc().out(g), b.xsmacsc().out(g), 0.0, at + fmt("out-scatter in group %d", g));
        for (int t = 0; t < b.n_group(); t++) {
            auto &x = a.xsmacsc(t);
            auto &y = b.xsmacsc(t);
            c.expect_eq(g >= x.min_g && g <= x.max_g ? x[g] : 0.0, g >= y.min_g && g <= y.max_g ? y[g] : 0.0, 0.0, at + fmt("scattering %d to %d", g, t));
        }
    }
}
static std::vector<int> groupings(Ctx &c, int max, bool any)
{
    std::vector<int> g;
    int nz = 1 + c.choose(max);
    for (int left = nz; left > 0;) {
        int k = any ? 1 + c.choose(left) : 1;
        g.push_back(k);
        left -= k;
    }
    return g;
}
static std::string list(const std::vector<int> &v)
{
    std::string s;
    for (int x : v) {
        s += fmt(" %d", x);
    }
    return s;
}

// one file for the whole core, read into a core with other pins
static void whole(Ctx &c)
{
    int shape = c.choose(6);
    auto g    = groupings(c, 3, true);
    int ng = c.pick(std::vector<int>{1, 2, 5}), seed = c.choose(4), w = c.choose(2);
    // how the planes are named: not at all, exactly, partly, wrongly
    int np = g.size();
    int bot = c.choose(4) - 2, top = c.choose(5) - 2; // -2: absent
    std::string d = "<data file=\"whole.h5\"";
    if (bot != -2) {
        d += fmt(" bottom_plane=\"%d\"", bot);
    }
    if (top != -2) {
        d += fmt(" top_plane=\"%d\"", top);
    }
    d += "/>";
    if (!c.leaf(fmt("shape %d, plane groups%s, %d groups, pins %d, %s, %s", shape, list(g).c_str(), ng, seed, w ? "flux" : "volume", d.c_str()))) {
        return;
    }
    bool ok  = (bot == -2 || bot == 0) && (top == -2 || top == np - 1);
    Bench src = build(SHAPES[shape], g, ng, seed, w);
    write(src, "whole.h5");
    Bench dst = build(SHAPES[shape], g, ng, seed + 1, false);
    ci::Doc in("<mesh>" + d + "</mesh>");
    try {
        XSMeshHomogenized xs(*dst.mesh, in.root());
        c.expect(ok, "a plane range that does not match was accepted");
        if (!c.expect(xs.size() == src.xs->size(), "size")) {
            return;
        }
        for (size_t i = 0; i < xs.size(); i++) {
            same(c, xs[i], (*src.xs)[i], fmt("pin %d: ", (int)i));
            c.expect(xs[i].reg() == (*dst.xs)[i].reg(), fmt("cells of pin %d", (int)i));
        }
        // the second generation is the same too
        H5Node h("again.h5", H5Access::WRITE);
        xs.output(h);
        // reading must not have disturbed the source
        c.expect(xs.eubounds() == src.xs->eubounds(), "group bounds");
    } catch (Exception e) {
        c.expect(!ok, std::string("refused: ") + e.what());
        return;
    }
    Bench dst2 = build(SHAPES[shape], g, ng, seed + 2, false);
    ci::Doc in2("<mesh><data file=\"again.h5\"/></mesh>");
    XSMeshHomogenized xs(*dst2.mesh, in2.root());
    for (size_t i = 0; i < xs.size(); i++) {
        same(c, xs[i], (*src.xs)[i], fmt("second generation, pin %d: ", (int)i));
    }
    c.state(fmt("%d", shape) + list(g) + d + fmt("%d %d %d", ng, seed, w));
}

// several one-plane files for ranges of planes
static void ranges(Ctx &c)
{
    int np  = c.pick(std::vector<int>{1, 2, 3, 5});
    int shp = c.choose(2);
    int n   = 1 + c.choose(c.thorough() ? 3 : 2);
    struct E {
        int file, bot, top;
    };
    std::vector<E> es;
    std::string d;
    for (int i = 0; i < n; i++) {
        E e;
        // the third entry of thorough runs takes a smaller alphabet
        e.file = i == 2 ? 0 : c.choose(2);
        e.bot  = i == 2 ? c.choose(4) - 1 : c.choose(np == 5 ? 8 : 6) - 2;
        e.top  = i == 2 ? c.choose(4) - 1 : c.choose(np == 5 ? 8 : 6) - 2;
        if (i == 2) {
            e.bot++;
            e.top++;
        }
        es.push_back(e);
        d += fmt("<data file=\"plane%d%d.h5\"", shp, e.file);
        if (e.bot != -2) {
            d += fmt(" bottom_plane=\"%d\"", e.bot);
        }
        if (e.top != -2) {
            d += fmt(" top_plane=\"%d\"", e.top);
        }
        d += "/>";
    }
    if (!c.leaf(fmt("shape %d, %d planes: ", shp, np) + d)) {
        return;
    }
    static std::map<int, Bench> srcs, dsts;
    for (int f = 0; f < 2; f++) {
        if (!srcs.count(shp * 2 + f)) {
            srcs[shp * 2 + f] = build(SHAPES[shp], {1}, 2, f, f);
            write(srcs[shp * 2 + f], fmt("plane%d%d.h5", shp, f));
        }
    }
    if (!dsts.count(shp * 8 + np)) {
        dsts[shp * 8 + np] = build(SHAPES[shp], std::vector<int>(np, 1), 2, 3, false);
    }
    Bench &dst = dsts[shp * 8 + np];
    // the reference: each plane belongs to at most one entry
    std::vector<int> from(np, -1);
    bool ok = true;
    for (auto &e : es) {
        int b = e.bot == -2 ? 0 : e.bot, t = e.top == -2 ? 0 : e.top;
        if (b < 0 || t < 0 || b >= np || t >= np || b > t) {
            ok = false;
            continue;
        }
        for (int z = b; z <= t; z++) {
            if (from[z] >= 0) {
                ok = false;
            }
            from[z] = e.file;
        }
    }
    ci::Doc in("<mesh>" + d + "</mesh>");
    try {
        XSMeshHomogenized xs(*dst.mesh, in.root());
        if (!c.expect(ok, "bad plane ranges were accepted")) {
            return;
        }
        int m = n_pin(dst.p);
        for (int i = 0; i < np * m; i++) {
            int f = from[i / m];
            same(c, xs[i], f < 0 ? (*dst.xs)[i] : (*srcs[shp * 2 + f].xs)[i % m], fmt("plane %d pin %d: ", i / m, i % m));
        }
        std::string key = fmt("%d", shp);
        for (int f : from) {
            key += fmt(" %d", f);
        }
        c.state(key);
    } catch (Exception e) {
        c.expect(!ok, std::string("refused: ") + e.what());
        c.state("refused");
    }
}

// files that do not belong to the core
static void mismatched(Ctx &c)
{
    int mode = c.choose(2); // one whole-core file, or one plane of several
    int a = c.choose(6), b = c.choose(6);
    int nga = 1 + c.choose(3), ngb = 1 + c.choose(3);
    int za = 1 + c.choose(3), zb = 1 + c.choose(3);
    if (!c.leaf(fmt("file of shape %d, %d planes, %d groups read into shape %d, %d planes, %d groups%s", a, za, nga, b, zb, ngb, mode ? ", as ranges" : ""))) {
        return;
    }
    Bench src = build(SHAPES[a], std::vector<int>(za, 1), nga, 1, true);
    write(src, "m.h5");
    Bench dst = build(SHAPES[b], std::vector<int>(zb, 1), ngb, 2, false);
    std::string d;
    if (mode == 0) {
        d = "<data file=\"m.h5\"/>";
    } else {
        for (int z = 0; z < zb; z++) {
            d += fmt("<data file=\"m.h5\" bottom_plane=\"%d\" top_plane=\"%d\"/>", z, z);
        }
    }
    // one-plane files may be put on the bottom plane of a taller core
    bool dims = src.mesh->nx() == dst.mesh->nx() && src.mesh->ny() == dst.mesh->ny() && nga == ngb;
    bool ok   = dims && (za == 1 || (za == zb && mode == 0));
    ci::Doc in("<mesh>" + d + "</mesh>");
    bool acc = true;
    try {
        XSMeshHomogenized xs(*dst.mesh, in.root());
        c.steps(xs.size());
    } catch (Exception) {
        acc = false;
    }
    c.expect(acc == ok, acc ? "data of the wrong size were accepted" : "matching data were refused");
    c.state(fmt("%d %d %d %d %d %d %d", mode, a, b, nga, ngb, za, zb));
}

// damaged files: every dataset left out or of another size
static void damaged(Ctx &c)
{
    int mode = c.choose(2), ds = c.choose(10), how = c.choose(5), zb = 1 + c.choose(2);
    if (!c.leaf(fmt("dataset %d, damage %d, %d planes%s", ds, how, zb, mode ? ", as ranges" : ""))) {
        return;
    }
    int np = mode ? 1 : zb;
    Bench dst = build(SHAPES[0], std::vector<int>(zb, 1), 2, 2, false);
    int n = 2 * np;
    bool ok = how == 4;
    {
        H5Node h("d.h5", H5Access::WRITE);
        auto g = h.create_group("xsmesh");
        for (auto s : {"xstr", "xsnf", "xsf", "xsch"}) {
            g.create_group(s);
        }
        int k    = 0;
        auto put = [&](const std::string &name, VecI dims) {
            bool hit = k++ == ds;
            if (hit && how == 0) {
                return;
            }
            if (hit && how == 1) {
                dims[0] += 1;
            }
            if (hit && how == 2) {
                dims.back() -= 1;
            }
            if (hit && how == 3) {
                dims.push_back(2);
            }
            int tot = 1;
            for (int x : dims) {
                tot *= x;
            }
            VecF v(tot);
            for (int i = 0; i < tot; i++) {
                v[i] = 0.5 + 0.25 * i;
            }
            g.write(name, v, dims);
        };
        put("eubounds", {2});
        for (auto s : {"xstr", "xsnf", "xsf", "xsch"}) {
            for (int i = 0; i < 2; i++) {
                put(fmt("%s/%d", s, i), {np, 1, 2});
            }
        }
        put("xssc", {n, 2, 2});
    }
    std::string d;
    if (mode == 0) {
        d = "<data file=\"d.h5\"/>";
    } else {
        for (int z = 0; z < zb; z++) {
            d += fmt("<data file=\"d.h5\" bottom_plane=\"%d\" top_plane=\"%d\"/>", z, z);
        }
    }
    ci::Doc in("<mesh>" + d + "</mesh>");
    bool acc = true;
    try {
        XSMeshHomogenized xs(*dst.mesh, in.root());
        c.steps(xs.size());
    } catch (Exception) {
        acc = false;
    }
    c.expect(acc == ok, acc ? "a damaged file was accepted" : "a good file was refused");
    c.state(fmt("%d %d %d %d", mode, ds, how, zb));
}

// entries without what is needed
static void incomplete(Ctx &c)
{
    static const char *IN[] = {"<mesh></mesh>", "<mesh><data/></mesh>", "<mesh><data file=\"\"/></mesh>", "<mesh><data file=\"nosuch.h5\"/></mesh>",
                               "<mesh><data file=\"nosuch.h5\" bottom_plane=\"0\" top_plane=\"0\"/><data file=\"nosuch.h5\" bottom_plane=\"1\" top_plane=\"1\"/></mesh>",
                               "<mesh><data bottom_plane=\"0\" top_plane=\"0\"/><data bottom_plane=\"1\" top_plane=\"1\"/></mesh>", "<mesh><data file=\"text.h5\"/></mesh>"};
    int i  = c.choose(7);
    int np = 1 + c.choose(3);
    if (!c.leaf(fmt("%d planes: ", np) + IN[i])) {
        return;
    }
    ci::write_file("text.h5", "not a data file\n");
    Bench dst = build(SHAPES[0], std::vector<int>(np, 1), 2, 2, false);
    ci::Doc in(IN[i]);
    try {
        XSMeshHomogenized xs(*dst.mesh, in.root());
        c.fail("incomplete data were accepted");
    } catch (Exception) {
    }
    c.state(fmt("%d %d", i, np));
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "X02",
                   {{"whole", whole, 30, "one file for the whole core over all shapes, groupings, group counts and plane attributes; two generations"},
                    {"ranges", ranges, 30, "all one- and two-entry plane ranges (three thorough) over 1-3 and 5 planes, incl. absent and out-of-range bounds"},
                    {"mismatched", mismatched, 30, "all pairs of file and core over shapes, planes and group counts"},
                    {"damaged", damaged, 30, "every dataset missing, longer, shorter or of another rank"},
                    {"incomplete", incomplete, 30, "entries without a usable file"}});
}
