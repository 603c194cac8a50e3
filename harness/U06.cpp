// U06: inputs that say the same give the same results, and what they say counts.
#include <fcntl.h>
#include <omp.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <functional>
#include <set>
#include "core_problem.hpp"
#include "h5_dump.hpp"
#include "mc.hpp"
#include "driver.hpp"

using ::mc::Ctx;
using ::mc::fmt;
using h5::File;
using pugi::xml_attribute;
using pugi::xml_document;
using pugi::xml_node;

// --- inputs that give every option the value it has when it is left out
static const std::vector<const char *> KINDS = {"Sn", "MoC", "2D3D", "Monte Carlo", "fixed source", "fixed source by MoC"};
static std::vector<ci::Mat> library()
{
    auto lib = cp::library(2);
    lib[3].sc[0][0] = 0.02;
    return lib;
}
static std::string input(int kind)
{
    const char *bc = kind == 3 ? "reflect" : "vacuum";
    std::string core =
        "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.3 0.4</radii><sub_radii>2 1</sub_radii><sub_azi>4</sub_azi></mesh>"
        "<mesh id=\"2\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
        "<pin id=\"1\" mesh=\"1\">1 4 2</pin><pin id=\"2\" mesh=\"2\">4 1</pin><pin id=\"3\" mesh=\"1\">4 1 2</pin>"
        "<lattice id=\"1\" nx=\"2\" ny=\"1\">1 2</lattice><lattice id=\"2\" nx=\"2\" ny=\"1\">3 2</lattice>"
        "<assembly id=\"1\" np=\"2\" hz=\"1.5\"><lattices>2 1</lattices></assembly>" +
        fmt("<core enabled=\"t\" nx=\"1\" ny=\"1\" west=\"reflect\" east=\"%s\" south=\"reflect\" north=\"%s\" bottom=\"reflect\" top=\"vacuum\">1</core>", bc, bc);
    std::string cg = "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"1\"/>", cy = "<ang_quad type=\"cy\" n_azimuthal=\"2\" n_polar=\"3\"/>", ls = "<ang_quad type=\"ls\" order=\"4\"/>";
    std::string rays = "<rays spacing=\"0.15\" modularity=\"core\" volume_correction=\"flat\" modularization=\"rational_fraction\"/>", P0 = "<source scattering=\"P0\"/>";
    std::string cmfd = "<cmfd enabled=\"t\" k_tol=\"1e-6\" psi_tol=\"1e-5\" residual_reduction=\"0.001\" max_iter=\"100\" negative_fixup=\"f\" dump_current=\"f\"/>";
    std::string s;
    switch (kind) {
    case 0:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"3\" min_iter=\"0\" cmfd=\"t\"><sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\" axial=\"dd\" boundary_update=\"gs\">" + ls + "</sweeper>" + P0 + cmfd + "</solver>";
        break;
    case 1:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"3\" min_iter=\"0\" cmfd=\"f\"><sweeper type=\"moc\" n_inner=\"3\" boundary_update=\"gs\" dump_rays=\"f\" dump_fsr_flux=\"f\" tl_splitting=\"f\">" + cy + rays + "</sweeper>" +
            P0 + "</solver>";
        break;
    case 2:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"4\" min_iter=\"0\" cmfd=\"t\"><sweeper type=\"2d3d\" expose_sn=\"f\" sn_project=\"f\" moc_project=\"f\" tl=\"t\" inactive_moc=\"0\" moc_modulo=\"1\" preserve_sn_quadrature=\"f\" relax=\"1.0\" "
            "discrepant_flux_update=\"f\" dump_corrections=\"f\" cycle=\"saw\">" + cg + "<moc_sweeper n_inner=\"3\" tl_splitting=\"f\" boundary_update=\"gs\">" + rays + "</moc_sweeper>"
            "<sn_sweeper equation=\"cdd\" axial=\"dd\" n_inner=\"3\" boundary_update=\"gs\"/></sweeper>" + P0 + cmfd + "</solver>";
        break;
    case 3:
        s = "<solver type=\"eigenvalue_mc\" cycles=\"4\" inactive_cycles=\"1\" particles_per_cycle=\"50\" seed=\"1\" dump_sites=\"f\"><fission_box x_min=\"0\" x_max=\"2.4\" y_min=\"0\" y_max=\"1.2\" z_min=\"0\" z_max=\"3\" fissile_rejection=\"t\"/></solver>";
        break;
    case 4:
        s = "<solver type=\"fixed_source\" max_iter=\"3\" flux_tol=\"1e-9\"><sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\" axial=\"dd\" boundary_update=\"gs\">" + cg + "</sweeper><source scattering=\"P0\" file=\"source.h5\"/></solver>";
        break;
    default:
        s = "<solver type=\"fixed_source\" max_iter=\"3\" flux_tol=\"1e-9\"><sweeper type=\"moc\" n_inner=\"3\" boundary_update=\"gs\" dump_rays=\"f\" dump_fsr_flux=\"f\" tl_splitting=\"f\">" + cg + rays + "</sweeper><source scattering=\"P0\" file=\"source.h5\"/></solver>";
    }
    std::string mats = "<material_lib path=\"lib.xsl\">";
    auto lib = library();
    for (size_t i = 0; i < lib.size(); i++) {
        mats += fmt("<material id=\"%d\" name=\"%s\"/>", (int)i + 1, lib[i].name.c_str());
    }
    return "<case_name>in</case_name><parallel num_threads=\"1\"/>" + s + core + mats + "</material_lib>";
}
static void files(int kind)
{
    ci::write_file("lib.xsl", ci::library_text(library()));
    int n = 2 * (kind == 4 ? 2 : 18);
    std::vector<double> q;
    for (int i = 0; i < 2 * n; i++) {
        q.push_back(1.0 + 0.1 * i);
    }
    unlink("source.h5");
    H5::H5File f("source.h5", H5F_ACC_TRUNC);
    hsize_t dims[] = {2, (hsize_t)n};
    f.createDataSet("source", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dims)).write(q.data(), H5::PredType::NATIVE_DOUBLE);
}
// --- runs of the whole program
static std::string print(const xml_document &d)
{
    std::stringstream ss;
    for (auto k : d.child("r").children()) {
        k.print(ss, "", pugi::format_raw);
    }
    return ss.str();
}
static std::string go(const std::string &text, File &data, const char *out = "in.h5")
{
    unlink(out);
    ci::write_file("in.xml", text);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int f = open("screen.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(f, 1);
        dup2(f, 2);
        rlimit t{20, 20};
        setrlimit(RLIMIT_CPU, &t);
        omp_set_num_threads(1);
        exit(run(std::vector<std::string>{"mocc", "in.xml"}));
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(st)) {
        return fmt("dies of signal %d", WTERMSIG(st));
    }
    if (WEXITSTATUS(st)) {
        std::ifstream e("screen.txt");
        std::string l, last;
        while (std::getline(e, l)) {
            last = l.empty() ? last : l;
        }
        return fmt("ends with status %d, ", WEXITSTATUS(st)) + last;
    }
    return h5::read(out, data) ? "" : "leaves no results";
}
static std::string differ(const File &a, const File &b)
{
    for (auto &x : a) {
        if (!b.count(x.first)) {
            return x.first + " is missing";
        }
    }
    for (auto &x : b) {
        auto y = a.find(x.first);
        if (y == a.end()) {
            return x.first + " is there";
        }
        if (x.first.find("time") != std::string::npos || x.first.find("abscissae") != std::string::npos) {
            continue;
        }
        if (y->second.size() != x.second.size()) {
            return x.first + fmt(" has %d values, not %d", (int)x.second.size(), (int)y->second.size());
        }
        for (size_t i = 0; i < x.second.size(); i++) {
            double p = x.second[i], q = y->second[i];
            if (!(std::abs(p - q) <= 1e-10 * std::abs(q) + 1e-300) && !(std::isnan(p) && std::isnan(q)) && !(std::isinf(p) && p == q)) {
                return x.first + fmt("[%d] is %.12g, not %.12g", (int)i, p, q);
            }
        }
    }
    return "";
}
// --- other ways to say the same
struct Way {
    std::string name;
    std::function<bool(xml_node)> apply; // false if there is no occasion
};
typedef std::function<void(xml_node)> Visit;
static void each(xml_node n, const Visit &f)
{
    f(n);
    for (auto k : n.children()) {
        if (k.type() == pugi::node_element) {
            each(k, f);
        }
    }
}
static const std::vector<const char *> OPTIONAL = {
    "enabled", "modularity", "volume_correction", "modularization", "residual_reduction", "negative_fixup", "dump_current", "min_iter", "equation", "axial", "boundary_update", "dump_rays", "dump_fsr_flux",
    "tl_splitting", "expose_sn", "sn_project", "moc_project", "tl", "inactive_moc", "moc_modulo", "preserve_sn_quadrature", "relax", "discrepant_flux_update", "dump_corrections", "cycle", "seed", "dump_sites",
    "fissile_rejection"};
// an element written out once more under another name, in the order read
static bool rename_ids(xml_node r, const char *what, const char *by_node, const char *by_attr, std::function<int(int)> f)
{
    for (auto n : r.children(what)) {
        n.attribute("id") = f(n.attribute("id").as_int());
    }
    for (auto n : r.children(by_node)) {
        if (by_attr) {
            n.attribute(by_attr) = f(n.attribute(by_attr).as_int());
            continue;
        }
        auto t = std::string(by_node) == "assembly" ? n.child("lattices") : n;
        std::stringstream ss(t.text().get());
        std::string s;
        for (int i; ss >> i;) {
            s += fmt("%d ", f(i));
        }
        t.text().set(s.c_str());
    }
    return true;
}
static std::vector<Way> ways()
{
    std::vector<Way> v;
    for (auto a : OPTIONAL) {
        std::string n = a;
        v.push_back({"no " + n, [n](xml_node r) {
                         bool any = false;
                         each(r, [&](xml_node k) { any = k.remove_attribute(n.c_str()) || any; });
                         return any;
                     }});
    }
    for (std::string n : {"k_tol", "psi_tol", "max_iter"}) {
        v.push_back({"no " + n + " of the acceleration", [n](xml_node r) { return r.child("solver").child("cmfd").remove_attribute(n.c_str()); }});
    }
    v.push_back({"no options of the acceleration", [](xml_node r) { return r.child("solver").remove_child("cmfd"); }});
    v.push_back({"no case name", [](xml_node r) { return r.remove_child("case_name"); }});
    v.push_back({"no number of threads", [](xml_node r) { return r.remove_child("parallel"); }});
    // names
    auto set = [&](std::string name, const char *attr, std::string from, std::string to) {
        std::string a = attr;
        v.push_back({name, [=](xml_node r) {
                         bool any = false;
                         each(r, [&](xml_node k) {
                             auto x = k.attribute(a.c_str());
                             if (x && from == x.value()) {
                                 x   = to.c_str();
                                 any = true;
                             }
                         });
                         return any;
                     }});
    };
    for (auto &s : std::vector<std::vector<std::string>>{{"type", "ls", "level-symmetric"}, {"type", "cg", "chebyshev-gauss"}, {"type", "cy", "chebyshev-yamamoto"}, {"type", "cg", "CG"}, {"type", "ls", " LS "},
                                                         {"type", "cg", "chebychev-gauss"}, {"type", "cy", "chebychev-yamamoto"},
                                                         {"modularity", "core", " Core"}, {"volume_correction", "flat", "FLAT "}, {"modularization", "rational_fraction", "Rational_Fraction"}, {"boundary_update", "gs", " GS"},
                                                         {"scattering", "P0", "p0"}, {"cycle", "saw", "sawtooth"}, {"spacing", "0.15", "1.5e-1"}, {"pitch", "1.2", "+1.20"}, {"hz", "1.5", " 1.50"}, {"n_inner", "3", "03"}}) {
        set(s[0] + " " + s[2], s[0].c_str(), s[1], s[2]);
    }
    for (std::string t : {"true", "1", "T", "yes"}) {
        v.push_back({t + " for t", [t](xml_node r) {
                         bool any = false;
                         each(r, [&](xml_node k) {
                             for (auto x : k.attributes()) {
                                 if (std::string("t") == x.value()) {
                                     x   = t.c_str();
                                     any = true;
                                 }
                             }
                         });
                         return any;
                     }});
    }
    for (std::string t : {"false", "0", "F", "no"}) {
        v.push_back({t + " for f", [t](xml_node r) {
                         bool any = false;
                         each(r, [&](xml_node k) {
                             for (auto x : k.attributes()) {
                                 if (std::string("f") == x.value()) {
                                     x   = t.c_str();
                                     any = true;
                                 }
                             }
                         });
                         return any;
                     }});
    }
    // layout
    v.push_back({"sections the other way round", [](xml_node r) {
                     for (auto k : std::vector<xml_node>(r.begin(), r.end())) {
                         r.prepend_move(k);
                     }
                     return true;
                 }});
    v.push_back({"parts of the solver the other way round", [](xml_node r) {
                     each(r.child("solver"), [](xml_node n) {
                         for (auto k : std::vector<xml_node>(n.begin(), n.end())) {
                             n.prepend_move(k);
                         }
                     });
                     return true;
                 }});
    v.push_back({"lists on several lines", [](xml_node r) {
                     each(r, [](xml_node n) {
                         std::string t = n.text().get(), u;
                         if (std::string(n.name()) == "case_name") {
                             return;
                         }
                         for (char c : t) {
                             u += c == ' ' ? "\n \t" : std::string(1, c);
                         }
                         if (!t.empty()) {
                             n.text().set(("\n " + u + " \n").c_str());
                         }
                     });
                     return true;
                 }});
    v.push_back({"comments", [](xml_node r) {
                     each(r, [](xml_node n) {
                         if (!n.text()) {
                             n.prepend_child(pugi::node_comment).set_value("nothing");
                         }
                     });
                     return true;
                 }});
    // geometry
    v.push_back({"a list of heights", [](xml_node r) {
                     auto a = r.child("assembly");
                     if (!a.remove_attribute("hz")) {
                         return false;
                     }
                     a.prepend_child("hz").text().set("1.5 1.5");
                     return true;
                 }});
    v.push_back({"another core, not enabled", [](xml_node r) {
                     auto k = r.insert_copy_before(r.child("core"), r.child("core"));
                     k.remove_attribute("enabled");
                     k.append_attribute("enabled") = "f";
                     k.attribute("west")           = "vacuum";
                     return true;
                 }});
    v.push_back({"parts that are not used", [](xml_node r) {
                     for (const char *n : {"mesh", "pin", "lattice", "assembly"}) {
                         auto k = r.insert_copy_before(r.child(n), r.child(n));
                         k.attribute("id") = 77;
                     }
                     return true;
                 }});
    v.push_back({"a material that is not used", [](xml_node r) {
                     auto l = r.child("material_lib");
                     auto k = l.insert_copy_before(l.child("material"), l.child("material"));
                     k.attribute("id") = 77;
                     return true;
                 }});
    for (int turn = 0; turn < 2; turn++) {
        auto f   = [turn](int i) { return turn ? 100 - i : i + 7; };
        auto how = turn ? ", backwards" : ", higher";
        v.push_back({std::string("other mesh numbers") + how, [f](xml_node r) { return rename_ids(r, "mesh", "pin", "mesh", f); }});
        v.push_back({std::string("other pin numbers") + how, [f](xml_node r) { return rename_ids(r, "pin", "lattice", nullptr, f); }});
        v.push_back({std::string("other lattice numbers") + how, [f](xml_node r) { return rename_ids(r, "lattice", "assembly", nullptr, f); }});
        v.push_back({std::string("other assembly numbers") + how, [f](xml_node r) { return rename_ids(r, "assembly", "core", nullptr, f); }});
        v.push_back({std::string("other material numbers") + how, [f](xml_node r) {
                         for (auto n : r.child("material_lib").children("material")) {
                             n.attribute("id") = f(n.attribute("id").as_int());
                         }
                         return rename_ids(r, "none", "pin", nullptr, f);
                     }});
    }
    // where the angles are given
    auto quad = [](xml_node r) { return r.child("solver").child("sweeper").child("ang_quad"); };
    v.push_back({"angles in the solver", [=](xml_node r) { return !quad(r).empty() && !r.child("solver").prepend_move(quad(r)).empty(); }});
    v.push_back({"angles on top", [=](xml_node r) { return !quad(r).empty() && !r.prepend_move(quad(r)).empty(); }});
    v.push_back({"other angles further up", [=](xml_node r) {
                     if (quad(r).empty()) {
                         return false;
                     }
                     for (auto n : {r, r.child("solver")}) {
                         auto k = n.prepend_child("ang_quad");
                         k.append_attribute("type")  = "ls";
                         k.append_attribute("order") = "6";
                     }
                     return true;
                 }});
    v.push_back({"angles in the parts of the sweeper", [=](xml_node r) {
                     auto s = r.child("solver").child("sweeper");
                     if (quad(r).empty() || !s.child("moc_sweeper")) {
                         return false;
                     }
                     s.child("moc_sweeper").append_copy(quad(r));
                     s.child("sn_sweeper").append_copy(quad(r));
                     return true;
                 }});
    return v;
}
static const std::vector<Way> WAYS = ways();
static void same(Ctx &c, int n)
{
    int kind = c.choose(KINDS.size());
    xml_document d;
    d.load_string(("<r>" + input(kind) + "</r>").c_str());
    std::string name = KINDS[kind];
    int last         = -1;
    for (int i = 0; i < n; i++) {
        int w = c.choose(WAYS.size());
        if (w <= last || !WAYS[w].apply(d.child("r"))) {
            return;
        }
        name += ", " + WAYS[w].name;
        last = w;
    }
    if (!c.leaf(name)) {
        return;
    }
    c.steps();
    c.state(c.desc_);
    files(kind);
    static std::map<int, File> plain; // of the inputs as they are
    if (!plain.count(kind)) {
        auto how = go(input(kind), plain[kind]);
        if (!c.expect(how.empty(), "the plain input " + how)) {
            plain.erase(kind);
            return;
        }
    }
    File f;
    auto how = go(print(d), f);
    if (c.expect(how.empty(), "the run " + how)) {
        auto x = differ(plain[kind], f);
        c.expect(x.empty(), x);
    }
}
static void one(Ctx &c)
{
    same(c, 1);
}
static void two(Ctx &c)
{
    same(c, 2);
}
// --- what the input says counts: values that must not give the same
struct Option {
    int kind;
    const char *path, *attr;
    std::vector<std::string> values;
};
static const std::vector<Option> OPTIONS = {
    {0, "solver", "max_iter", {"1", "2", "3", "4"}},
    {0, "solver", "cmfd", {"t", "f"}},
    {0, "solver/cmfd", "enabled", {"t", "f"}},
    {0, "solver/cmfd", "max_iter", {"1", "2", "100"}},
    {0, "solver/sweeper", "n_inner", {"1", "2", "3", "5"}},
    {0, "solver/sweeper", "axial", {"dd", "sc"}},
    {0, "solver/sweeper", "boundary_update", {"gs", "jacobi"}},
    {0, "solver/sweeper/ang_quad", "order", {"2", "4", "6", "8"}},
    {0, "core", "east", {"vacuum", "reflect"}},
    {0, "core", "top", {"vacuum", "reflect"}},
    {0, "core", "south", {"vacuum", "reflect"}},
    {0, "assembly", "hz", {"1.5", "1.6", "3"}},
    {1, "solver", "max_iter", {"1", "2", "3"}},
    {1, "solver", "cmfd", {"t", "f"}},
    {1, "solver/sweeper", "n_inner", {"1", "2", "3"}},
    {1, "solver/sweeper", "boundary_update", {"gs", "jacobi"}},
    {1, "solver/sweeper/ang_quad", "type", {"cy", "cg"}},
    {1, "solver/sweeper/ang_quad", "n_azimuthal", {"1", "2", "3", "4"}},
    {1, "solver/sweeper/rays", "spacing", {"0.15", "0.05", "0.02"}},
    {1, "solver/sweeper/rays", "modularity", {"core", "pin"}},
    {1, "solver/sweeper/rays", "volume_correction", {"flat", "angle", "none"}},
    {2, "solver/sweeper", "tl", {"t", "f"}},
    {2, "solver/sweeper", "inactive_moc", {"0", "1", "2"}},
    {2, "solver/sweeper", "moc_modulo", {"1", "2", "3"}},
    {2, "solver/sweeper", "relax", {"1.0", "0.9", "0.5"}},
    {2, "solver/sweeper/moc_sweeper", "n_inner", {"1", "2", "3"}},
    {2, "solver/sweeper/moc_sweeper/rays", "modularity", {"core", "pin"}},
    {2, "solver/sweeper/sn_sweeper", "n_inner", {"1", "2", "3"}},
    {2, "solver/sweeper/sn_sweeper", "axial", {"dd", "sc", "fw", "pmb"}},
    {3, "solver", "seed", {"1", "3", "5", "11"}},
    {3, "solver", "cycles", {"4", "5", "6"}},
    {3, "solver", "inactive_cycles", {"0", "1", "2"}},
    {3, "solver", "particles_per_cycle", {"50", "51", "80"}},
    {3, "solver/fission_box", "x_max", {"2.4", "1.2"}},
    {4, "solver", "max_iter", {"1", "2", "3"}},
    {4, "solver", "flux_tol", {"1e-9", "10"}},
    {5, "solver", "max_iter", {"1", "2", "3"}},
    {5, "solver/sweeper", "n_inner", {"1", "2", "3"}},
};
static void counts(Ctx &c)
{
    auto &o = c.pick(OPTIONS);
    int i   = c.choose(o.values.size());
    int j   = c.choose(o.values.size());
    if (j <= i || !c.leaf(fmt("%s, %s of %s '%s' and '%s'", KINDS[o.kind], o.attr, o.path, o.values[i].c_str(), o.values[j].c_str()))) {
        return;
    }
    c.steps();
    c.state(c.desc_);
    files(o.kind);
    File f[2];
    for (int k = 0; k < 2; k++) {
        xml_document d;
        d.load_string(("<r>" + input(o.kind) + "</r>").c_str());
        auto n = d.child("r").first_element_by_path(o.path);
        n.attribute(o.attr) = o.values[k ? j : i].c_str();
        auto how = go(print(d), f[k]);
        if (!c.expect(how.empty(), "the run with '" + o.values[k ? j : i] + "' " + how)) {
            return;
        }
    }
    c.expect(!differ(f[0], f[1]).empty(), "both give the same");
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "U06",
                     {{"one", one, 40, "six inputs that give every option its default; each of some 80 other ways to write the same"},
                      {"two", two, 40, "the same, all pairs of ways"},
                      {"counts", counts, 40, "38 options, all pairs of 2-4 values: the results differ"}});
}
