// U05: faulty inputs end in an error or in results, never in a crash.
#include <dirent.h>
#include <fcntl.h>
#include <omp.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "core_problem.hpp"
#include "h5_dump.hpp"
#include "mc.hpp"
#include "driver.hpp"

using ::mc::Ctx;
using ::mc::fmt;

// --- valid inputs that between them give all options
static const std::vector<const char *> KINDS = {"Sn", "MoC", "2D3D", "Monte Carlo", "fixed source", "fixed source by MoC"};
static std::vector<ci::Mat> library()
{
    auto lib = cp::library(2);
    lib[3].sc[0][0] = 0.02;
    return lib;
}
static std::string input(int kind)
{
    const char *bc = kind == 3 ? "reflect" : "vacuum";
    std::string core =
        "<mesh id=\"1\" type=\"cyl\" pitch=\"1.2\"><radii>0.3 0.4</radii><sub_radii>2 1</sub_radii><sub_azi>4</sub_azi></mesh>"
        "<mesh id=\"2\" type=\"rect\" pitch=\"1.2\"><sub_x>2</sub_x><sub_y>1</sub_y></mesh>"
        "<pin id=\"1\" mesh=\"1\"> 1 4 2 </pin><pin id=\"2\" mesh=\"2\"> 4 1 </pin><pin id=\"3\" mesh=\"1\"> 4 1 2 </pin>"
        "<lattice id=\"1\" nx=\"2\" ny=\"1\"> 1 2 </lattice><lattice id=\"2\" nx=\"2\" ny=\"1\"> 3 2 </lattice>" +
        std::string(kind == 2 ? "<assembly id=\"1\" np=\"3\"><hz> 1.5 0.5 2.5 </hz><lattices> { 1 1 } 2 </lattices></assembly>" : "<assembly id=\"1\" np=\"2\" hz=\"1.5\"><lattices> 2 1 </lattices></assembly>") +
        fmt("<core nx=\"1\" ny=\"1\" west=\"reflect\" east=\"%s\" south=\"reflect\" north=\"%s\" bottom=\"reflect\" top=\"reflect\"> 1 </core>", bc, bc);
    std::string par = "<parallel num_threads=\"1\"/>", geo = "<geometry_output file=\"geo.py\" plane=\"0\"/>";
    std::string cg = "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"1\"/>", cy = "<ang_quad type=\"cy\" n_azimuthal=\"2\" n_polar=\"3\"/>", ls = "<ang_quad type=\"ls\" order=\"4\"/>";
    std::string user = "<ang_quad type=\"user\"><angle ox=\"0.8008077447088450\" oy=\"0.159291\" oz=\"0.5773502691896258\" weight=\"0.3125\"/><angle alpha=\"0.78539816\" theta=\"0.95531644\" weight=\"0.375\"/>"
                       "<angle ox=\"0.159291\" oy=\"0.8008077447088450\" oz=\"0.5773502691896258\" weight=\"0.3125\"/></ang_quad>";
    std::string rays = "<rays spacing=\"0.3\" modularity=\"pin\" volume_correction=\"flat\" modularization=\"rational_fraction\"/>", rays2 = "<rays spacing=\"0.4\" modularity=\"core\" volume_correction=\"angle\" modularization=\"trig\"/>";
    std::string P0 = "<source scattering=\"P0\"/>";
    std::string cmfd = "<cmfd enabled=\"t\" k_tol=\"1e-4\" psi_tol=\"1e-4\" residual_reduction=\"0.1\" max_iter=\"5\" negative_fixup=\"t\" dump_current=\"f\"/>";
    std::string s;
    switch (kind) {
    case 0:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"3\" min_iter=\"1\" cmfd=\"t\"><sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\" axial=\"dd\" boundary_update=\"gs\">" + ls + "</sweeper>" + P0 + cmfd +
            "<dump_iterations>1 2</dump_iterations></solver>";
        break;
    case 1:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"3\" min_iter=\"1\" cmfd=\"t\"><sweeper type=\"moc\" n_inner=\"3\" boundary_update=\"jacobi\" dump_rays=\"t\" dump_fsr_flux=\"t\" tl_splitting=\"f\">" + user + rays + "</sweeper>" + P0 + cmfd + "</solver>";
        break;
    case 2:
        s = "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"4\" cmfd=\"t\"><sweeper type=\"2d3d\" expose_sn=\"t\" sn_project=\"t\" moc_project=\"f\" tl=\"t\" inactive_moc=\"1\" moc_modulo=\"2\" preserve_sn_quadrature=\"f\" relax=\"0.9\" "
            "discrepant_flux_update=\"f\" dump_corrections=\"f\" cycle=\"v\">" + cg + "<moc_sweeper type=\"moc_2d3d\" n_inner=\"3\" tl_splitting=\"t\" boundary_update=\"gs\">" + rays + "</moc_sweeper>"
            "<sn_sweeper type=\"sn\" equation=\"cdd\" axial=\"fw\" n_inner=\"3\" boundary_update=\"gs\"/></sweeper>" + P0 + cmfd + "</solver>";
        break;
    case 3:
        s = "<solver type=\"eigenvalue_mc\" cycles=\"3\" inactive_cycles=\"1\" particles_per_cycle=\"30\" seed=\"11\" dump_sites=\"f\"><fission_box x_min=\"0\" x_max=\"2.4\" y_min=\"0\" y_max=\"1.2\" z_min=\"0\" z_max=\"2\" fissile_rejection=\"f\"/></solver>";
        break;
    case 4:
        s = "<solver type=\"fixed_source\" max_iter=\"3\" flux_tol=\"1e-9\"><sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\" axial=\"sc\" boundary_update=\"jacobi\">" + cg + "</sweeper><source scattering=\"P0\" file=\"source.h5\"/></solver>";
        break;
    default:
        s = "<solver type=\"fixed_source\" max_iter=\"3\" flux_tol=\"1e-9\"><sweeper type=\"moc\" n_inner=\"3\" boundary_update=\"gs\">" + cy + rays2 + "</sweeper><source scattering=\"P0\" file=\"source.h5\"/></solver>";
    }
    std::string mats = "<material_lib path=\"lib.xsl\">";
    auto lib = library();
    for (size_t i = 0; i < lib.size(); i++) {
        mats += fmt("<material id=\"%d\" name=\"%s\"/>", (int)i + 1, lib[i].name.c_str());
    }
    return "<case_name>in</case_name>" + par + s + core + geo + mats + "</material_lib>";
}
static void files(int kind)
{
    ci::write_file("lib.xsl", ci::library_text(library()));
    int n = 2 * (kind == 4 ? 2 : 18);
    std::vector<double> q;
    for (int i = 0; i < 2 * n; i++) {
        q.push_back(1.0 + 0.1 * i);
    }
    unlink("source.h5");
    H5::H5File f("source.h5", H5F_ACC_TRUNC);
    hsize_t dims[] = {2, (hsize_t)n};
    f.createDataSet("source", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dims)).write(q.data(), H5::PredType::NATIVE_DOUBLE);
}
// --- runs of the whole program
static std::vector<std::string> outputs(bool remove)
{
    std::vector<std::string> v;
    DIR *d = opendir(".");
    while (auto *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 3 && n.substr(n.size() - 3) == ".h5" && n != "source.h5") {
            v.push_back(n);
        }
    }
    closedir(d);
    if (remove) {
        for (auto &n : v) {
            unlink(n.c_str());
        }
    }
    return v;
}
enum Must { WORK, NOT_CRASH };
static void judge(Ctx &c, const std::string &in, Must must)
{
    outputs(true);
    ci::write_file("in.xml", in);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int f = open("screen.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open("errors.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(f, 1);
        dup2(e, 2);
        rlimit t{20, 20}, m{8ull << 30, 8ull << 30};
        setrlimit(RLIMIT_CPU, &t);
        setrlimit(RLIMIT_AS, &m);
        omp_set_num_threads(1);
        exit(run(std::vector<std::string>{"mocc", "in.xml"}));
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    std::string last, l;
    bool any = false;
    std::ifstream e("errors.txt");
    while (std::getline(e, l)) {
        any = any || !l.empty();
        if (l.find("ssertion") != std::string::npos || l.find("what()") != std::string::npos) {
            last = l.substr(0, 300);
        }
    }
    c.steps();
    c.state(c.desc_);
    if (!WIFEXITED(st)) {
        c.fail(WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU ? "the run does not end" : fmt("the run dies of signal %d ", WTERMSIG(st)) + last);
        return;
    }
    int code = WEXITSTATUS(st);
    h5::File data;
    bool results = false;
    for (auto &n : outputs(false)) {
        if (!results) {
            results = h5::read(n, data) && data.count("input_file");
        }
    }
    if (code != 0) {
        c.expect(code == 1, fmt("the run ends with status %d", code));
        c.expect(must != WORK, "the valid input is refused");
        c.expect(any, "a refused input without a message");
        c.expect(!results, "failure is reported, with results");
        return;
    }
    if (!c.expect(results, "success is reported, without results")) {
        return;
    }
    for (auto &x : data) {
        if (x.first.find("stdev") != std::string::npos) { // of one cycle, or of nothing
            continue;
        }
        for (double v : x.second) {
            if (!std::isfinite(v)) {
                c.fail("success is reported, but " + x.first + fmt(" has %g", v));
                return;
            }
        }
    }
}
// --- edits
struct Place {
    std::string path;
    pugi::xml_node n;
    pugi::xml_attribute a;
};
static void places(pugi::xml_node n, std::string path, std::vector<Place> &v)
{
    std::map<std::string, int> count;
    for (auto k : n.children()) {
        if (k.type() != pugi::node_element) {
            continue;
        }
        std::string p = path + "/" + k.name() + fmt("%d", ++count[k.name()]);
        v.push_back({p, k, pugi::xml_attribute()});
        for (auto a : k.attributes()) {
            v.push_back({p + "@" + a.name(), k, a});
        }
        places(k, p, v);
    }
}
static const std::vector<const char *> VALUES = {"", "x", "-1", "0", "1", "2", "3", "0.5", "7", "-0.5", "1e-3", "1 1", "nan", "inf", "t", "f"};
static const int N_EDITS = 24;
// makes one edit; false if there is no such edit here
static bool edit(Place &p, int e, std::string &what)
{
    if (e < (int)VALUES.size()) {
        what = fmt("= '%s'", VALUES[e]);
        if (p.a) {
            p.a.set_value(VALUES[e]);
            return true;
        }
        if (!p.n.text()) {
            return false;
        }
        p.n.text().set(VALUES[e]);
        return true;
    }
    e -= VALUES.size();
    std::string t = p.n.text().get(), u;
    std::vector<std::string> w;
    std::stringstream ss(t);
    while (ss >> u) {
        w.push_back(u);
    }
    if (e > 1 && (p.a || w.empty())) {
        return false;
    }
    switch (e) {
    case 0:
        what = "removed";
        if (p.a) {
            p.n.remove_attribute(p.a);
        } else {
            p.n.parent().remove_child(p.n);
        }
        return true;
    case 1:
        what = "doubled";
        if (p.a) {
            std::string v = p.a.value();
            p.a.set_value((v + v).c_str());
        } else {
            p.n.parent().insert_copy_after(p.n, p.n);
        }
        return true;
    case 2:
        what = "one more";
        w.push_back(w.back());
        break;
    case 3:
        what = "one less";
        w.pop_back();
        break;
    case 4:
        what = "first is x";
        w[0] = "x";
        break;
    case 5:
        what     = "last is -1";
        w.back() = "-1";
        break;
    case 6:
        what     = "last is 0";
        w.back() = "0";
        break;
    default:
        what     = "last is 77";
        w.back() = "77";
    }
    std::string r;
    for (auto &x : w) {
        r += " " + x;
    }
    p.n.text().set(r.c_str());
    return true;
}
static std::string print(const pugi::xml_document &d)
{
    std::stringstream ss;
    for (auto k : d.child("r").children()) {
        k.print(ss, "", pugi::format_raw);
    }
    return ss.str();
}
static void edits(Ctx &c)
{
    int kind = c.choose(KINDS.size());
    pugi::xml_document d;
    d.load_string(("<r>" + input(kind) + "</r>").c_str());
    std::vector<Place> v;
    places(d.child("r"), "", v);
    int at = c.choose(v.size() + 1);
    if (at == 0) {
        if (c.leaf(fmt("%s, unchanged", KINDS[kind]))) {
            files(kind);
            judge(c, print(d), WORK);
        }
        return;
    }
    auto &p = v[at - 1];
    std::string what;
    if (!edit(p, c.choose(N_EDITS), what)) {
        return;
    }
    if (c.leaf(fmt("%s, %s %s", KINDS[kind], p.path.c_str(), what.c_str()))) {
        files(kind);
        judge(c, print(d), NOT_CRASH);
    }
}
// two edits in the solver
static void pairs(Ctx &c)
{
    static const std::vector<int> E = {1, 2, 3, 7, 16, 17}; // x, -1, 0, 0.5, removed, doubled
    int kind = c.pick(c.thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 3});
    pugi::xml_document d;
    d.load_string(("<r>" + input(kind) + "</r>").c_str());
    std::vector<Place> v;
    places(d.child("r").child("solver"), "", v);
    int a = c.choose(v.size()), b = c.choose(v.size());
    if (b <= a) {
        return;
    }
    std::string w1, w2;
    // the later place first: the other may be its parent
    if (!edit(v[b], c.pick(E), w2) || !edit(v[a], c.pick(E), w1)) {
        return;
    }
    if (c.leaf(fmt("%s, %s %s, %s %s", KINDS[kind], v[a].path.c_str(), w1.c_str(), v[b].path.c_str(), w2.c_str()))) {
        files(kind);
        judge(c, print(d), NOT_CRASH);
    }
}
// --- the cross-section library: one token, or one line
static void library_edits(Ctx &c)
{
    static const std::vector<const char *> T = {"", "x", "0", "7", "0.5", "nan", "inf", "!", "-1", "1e300"};
    static const std::vector<const char *> T_MC(T.begin(), T.end() - 2);
    int kind = c.pick(std::vector<int>{0, 1, 3});
    std::string text = ci::library_text(library());
    // tokens and line ends
    std::vector<std::pair<size_t, size_t>> w;
    for (size_t i = 0; i < text.size(); i++) {
        if (text[i] == '\n') {
            w.push_back({i, 1});
        } else if (text[i] != ' ' && (i == 0 || text[i - 1] == ' ' || text[i - 1] == '\n')) {
            w.push_back({i, text.find_first_of(" \n", i) - i});
        }
    }
    auto at = w[c.choose(w.size())];
    // Monte Carlo runs want cross sections that are probabilities
    auto &t = kind == 3 ? c.pick(T_MC) : c.pick(T);
    int line = 1 + std::count(text.begin(), text.begin() + at.first, '\n');
    std::string was = text.substr(at.first, at.second);
    if (!c.leaf(fmt("%s, library with '%s' for '%s' in line %d, character %d", KINDS[kind], t, was == "\n" ? "line end" : was.c_str(), line, (int)at.first))) {
        return;
    }
    files(kind);
    text.replace(at.first, at.second, t);
    ci::write_file("lib.xsl", text);
    judge(c, input(kind), NOT_CRASH);
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "U05",
                     {{"edits", edits, 40.0, "six inputs that give all options; every element and attribute of each removed, doubled, or replaced by each of 16 texts; texts with a value more, less, or replaced"},
                      {"pairs", pairs, 40.0, "two edits of 6 kinds each within the solver part; the Sn, MoC and Monte Carlo inputs (all six thorough)"},
                      {"library", library_edits, 40.0, "every token and line end of a library of four materials replaced by each of 10 texts, for Sn, MoC and Monte Carlo runs"}});
}
