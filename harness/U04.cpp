// U04: command-line amendments change exactly the addressed input values.
#include <sys/wait.h>
#include <sys/stat.h>
#include "mc.hpp"
#include "core_problem.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "core/core_mesh.hpp"
#include "input_proc.hpp"
#include "driver.hpp"
#include "core/globals.hpp"

using mc::Ctx;
using mc::fmt;
using namespace mocc;

typedef std::vector<std::string> Args;

// --- a document model: elements with attributes and text or children
struct Node {
    std::string name;
    std::vector<std::pair<std::string, std::string>> attr;
    std::string text;
    std::vector<Node> kids;
};
static std::string escape(const std::string &s)
{
    std::string o;
    for (char c : s) {
        o += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    }
    return o;
}
static std::string print(const Node &n)
{
    std::string s = "<" + n.name;
    for (auto &a : n.attr) {
        s += " " + a.first + "=\"" + escape(a.second) + "\"";
    }
    s += ">" + escape(n.text);
    for (auto &k : n.kids) {
        s += print(k);
    }
    return s + "</" + n.name + ">";
}
static void canon(pugi::xml_node n, std::string &out)
{
    for (auto k : n.children()) {
        if (k.type() == pugi::node_element) {
            out += std::string("<") + k.name();
            for (auto a : k.attributes()) {
                out += std::string(" ") + a.name() + "=[" + a.value() + "]";
            }
            out += ">";
            canon(k, out);
            out += "</>";
        } else if (*k.value()) {
            out += std::string("[") + k.value() + "]";
        }
    }
}
static std::string canon(const pugi::xml_document &d)
{
    std::string s;
    canon(d, s);
    return s;
}
static std::string canon(const std::vector<Node> &top)
{
    std::string s;
    for (auto &n : top) {
        s += "<" + n.name;
        for (auto &a : n.attr) {
            s += " " + a.first + "=[" + a.second + "]";
        }
        s += ">";
        if (!n.text.empty()) {
            s += "[" + n.text + "]";
        }
        s += canon(n.kids) + "</>";
    }
    return s;
}
static std::vector<std::string> split(const std::string &p)
{
    std::vector<std::string> v(1);
    for (char c : p) {
        if (c == '/') {
            v.push_back("");
        } else {
            v.back() += c;
        }
    }
    return v;
}
// what an amendment does; false if it must be refused
static bool amend(std::vector<Node> &top, const std::string &arg)
{
    auto eq = arg.find('=');
    if (eq == std::string::npos || arg.find('=', eq + 1) != std::string::npos) {
        return false;
    }
    auto path  = split(arg.substr(0, eq));
    auto value = arg.substr(eq + 1);
    std::vector<Node> *kids = &top;
    Node *at = nullptr;
    for (size_t i = 0; i + 1 < path.size(); i++) {
        Node *next = nullptr;
        for (auto &k : *kids) {
            if (k.name == path[i]) {
                next = &k;
                break;
            }
        }
        if (!next) {
            return false;
        }
        at   = next;
        kids = &next->kids;
    }
    std::string *attr = nullptr;
    Node *child = nullptr;
    if (at) {
        for (auto &a : at->attr) {
            if (a.first == path.back()) {
                attr = &a.second;
                break;
            }
        }
    }
    for (auto &k : *kids) {
        if (k.name == path.back()) {
            child = &k;
            break;
        }
    }
    if (!!attr == !!child) {
        return false;
    }
    if (attr) {
        *attr = value;
        return true;
    }
    if (child->text.empty()) {
        return false;
    }
    child->text = value;
    return true;
}
static std::vector<Node> document()
{
    return {
        {"solver", {{"type", "eigenvalue"}, {"k_tolerance", "1e-5"}, {"max_iter", "20"}}, "", {
            {"sweeper", {{"type", "moc"}, {"n_inner", "4"}}, "", {
                {"ang_quad", {{"type", "ls"}, {"order", "4"}}, "", {}},
                {"rays", {{"spacing", "0.05"}, {"modularity", "pin"}}, "", {}}}},
            {"cmfd", {{"enabled", "t"}}, "", {}}}},
        {"mesh", {{"id", "1"}, {"type", "cyl"}, {"pitch", "1.26"}}, "", {{"radii", {}, "0.54", {}}, {"sub_azi", {}, "8", {}}}},
        {"mesh", {{"id", "2"}, {"type", "rect"}, {"pitch", "1.26"}}, "", {{"sub_x", {}, "3", {}}}},
        {"both", {{"x", "1"}}, "", {{"x", {}, "2", {}}}},
        {"case_name", {}, "named", {}},
        {"empty", {}, "", {}},
    };
}
static const std::vector<std::string> &amendments()
{
    static const std::vector<std::string> v = {
        "solver/k_tolerance=1e-7", "solver/sweeper/n_inner=9", "solver/sweeper/ang_quad/order=8", "solver/sweeper/rays/spacing=0.01", "solver/cmfd/enabled=f", "mesh/pitch=1.5",
        "mesh/radii=0.4 0.5", "solver/max_iter=", "case_name=other", "solver/type=a<b>&c\"d", "solver/sweeper/n_inner=10",
        // refused
        "solver/nothing=1", "solver/nowhere/type=1", "both/x=3", "empty=5", "solver=1", "k_tolerance=1", "solver/k_tolerance", "solver/k_tolerance=1=2", "=1", "/solver/type=1", "solver//type=1", "solver/type/=1", "", "mesh/sub_x=4",
        "Solver/type=1", "solver/sweeper/rays/spacing/=1"};
    return v;
}
// --- run the input processor in a child: it may leave the process
struct Result {
    enum { DONE, REFUSED, EXIT } how;
    int code = 0;
    std::string name, doc;
};
static Result process(const Args &args)
{
    int fd[2];
    if (pipe(fd) != 0) {
        throw std::runtime_error("pipe");
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        std::string out;
        try {
            InputProcessor p(args);
            out = "D" + p.case_name() + "\n" + global::case_name + "\n" + canon(p.document());
        } catch (mocc::Exception &) {
            out = "R";
        }
        size_t k = 0;
        while (k < out.size()) {
            ssize_t n = write(fd[1], out.data() + k, out.size() - k);
            if (n <= 0) {
                break;
            }
            k += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof(buf))) > 0) {
        in.append(buf, n);
    }
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    Result r;
    if (!WIFEXITED(st)) {
        throw std::runtime_error(fmt("the input processor was killed by signal %d", WTERMSIG(st)));
    }
    r.how  = in.empty() ? Result::EXIT : in[0] == 'R' ? Result::REFUSED : Result::DONE;
    r.code = WEXITSTATUS(st);
    if (r.how == Result::DONE) {
        size_t a = in.find('\n'), b = in.find('\n', a + 1);
        r.name = in.substr(1, a - 1);
        if (in.substr(a + 1, b - a - 1) != r.name) {
            throw std::runtime_error("two case names");
        }
        r.doc = in.substr(b + 1);
    }
    return r;
}
static std::string show(const Args &a)
{
    std::string s;
    for (auto &x : a) {
        s += " '" + x + "'";
    }
    return s;
}
static std::string stem(const std::string &f)
{
    size_t slash = f.rfind('/'), dot = f.rfind('.');
    if (dot == std::string::npos || (slash != std::string::npos && dot < slash)) {
        return f;
    }
    return f.substr(0, dot);
}
// what the command line asks for
static void judge(Ctx &c, const Args &args, const std::vector<Node> &base, const std::set<std::string> &files)
{
    auto r = process(args);
    bool bad = false;
    std::string file;
    Args am;
    for (size_t i = 1; i < args.size(); i++) {
        if (args[i] == "-a") {
            if (i + 1 == args.size() || (!args[i + 1].empty() && args[i + 1][0] == '-')) {
                bad = true;
                break;
            }
            am.push_back(args[++i]);
        } else if (file.empty()) {
            file = args[i];
        } else {
            bad = true;
        }
    }
    bad = bad || file.empty();
    if (bad) {
        c.expect((r.how == Result::EXIT && r.code != 0) || r.how == Result::REFUSED, "a bad command line is reported");
        return;
    }
    auto top = base;
    bool ok  = files.count(file) > 0;
    for (size_t i = 0; ok && i < am.size(); i++) {
        ok = amend(top, am[i]);
    }
    std::string name = stem(file);
    for (auto &n : top) {
        if (n.name == "case_name") {
            name = n.text;
            ok   = ok && !name.empty();
            break;
        }
    }
    if (!c.expect(r.how == (ok ? Result::DONE : Result::REFUSED), ok ? "the amendments are applied" : "the input or an amendment is refused") || !ok) {
        return;
    }
    c.expect(r.doc == canon(top), "the input after the amendments is\n      " + r.doc + "\n    expected\n      " + canon(top));
    c.expect(r.name == name, "case name '" + r.name + "', expected '" + name + "'");
}
static void put(const std::string &file, const std::vector<Node> &top)
{
    std::string s;
    for (auto &n : top) {
        s += print(n) + "\n";
    }
    ci::write_file(file, s);
}

// --- sequences of amendments
static void sequences(Ctx &c)
{
    auto &all = amendments();
    int n = c.choose(3 + c.thorough());
    Args args = {"mocc", "in.xml"};
    for (int i = 0; i < n; i++) {
        // the later ones from the valid part and a few of the others
        int k = c.choose(i < 2 ? all.size() : 14);
        args.push_back("-a");
        args.push_back(all[k]);
    }
    if (!c.leaf("arguments" + show(args))) {
        return;
    }
    put("in.xml", document());
    judge(c, args, document(), {"in.xml"});
    c.steps(n);
    c.state(show(args));
}

// --- every short command line over an alphabet of words
static void lines(Ctx &c)
{
    static const Args words = {"-a", "in.xml", "solver/max_iter=3", "-x", "", "missing.xml", "--help", "case_name=q"};
    int n = c.choose(c.thorough() ? 7 : 5);
    Args args = {"mocc"};
    for (int i = 0; i < n; i++) {
        args.push_back(words[c.choose(words.size())]);
    }
    if (!c.leaf("arguments" + show(args))) {
        return;
    }
    put("in.xml", document());
    judge(c, args, document(), {"in.xml"});
    c.steps(n);
    c.state(show(args));
}

// --- every path of up to three names over the names of a small document
static void paths(Ctx &c)
{
    static const Args names = {"a", "b", "x", ""};
    static const int shapes = 4;
    int shape = c.choose(shapes);
    int n     = 1 + c.choose(3);
    std::string p;
    for (int i = 0; i < n; i++) {
        p += (i ? "/" : "") + names[c.choose(names.size())];
    }
    int value = c.choose(4);
    std::string arg = p + (value == 0 ? "=new" : value == 1 ? "" : value == 2 ? "=" : "=v/w x");
    if (!c.leaf(fmt("document %d, amendment '%s'", shape, arg.c_str()))) {
        return;
    }
    std::vector<Node> d;
    switch (shape) {
    case 0:
        d = {{"a", {{"x", "1"}, {"b", "2"}}, "", {{"b", {{"a", "3"}, {"x", "4"}}, "", {{"x", {}, "5", {}}, {"a", {{"a", "8"}}, "6", {}}}}, {"b", {{"a", "7"}}, "", {}}}}, {"b", {}, "t", {}}};
        break;
    case 1:
        d = {{"b", {{"x", "1"}}, "", {{"a", {{"b", "2"}}, "text", {}}, {"a", {{"b", "3"}}, "more", {}}}}, {"b", {{"x", "9"}, {"a", "8"}}, "", {}}};
        break;
    case 2:
        d = {{"a", {}, "", {{"a", {}, "", {{"a", {{"x", "1"}, {"a", "2"}}, "", {}}, {"b", {}, "q", {}}}}}}};
        break;
    case 3:
        d = {{"x", {{"x", "1"}}, "", {{"x", {{"a", "2"}}, "", {{"x", {}, "3", {}}}}}}, {"a", {{"a", "1"}, {"b", "2"}, {"x", "3"}}, "", {{"c", {}, "4", {}}}}};
        break;
    }
    put("in.xml", d);
    judge(c, {"mocc", "-a", arg, "in.xml"}, d, {"in.xml"});
    c.steps(1);
    c.state(fmt("%d ", shape) + arg);
}

// --- names of input files
static void names(Ctx &c)
{
    static const Args dirs = {"", "./", "../run/", "d.x/", "d/", "d.x/e/"}, bases = {"in.xml", "in", "a.b.xml", "in.", ".xml", "x y.xml"};
    auto dir = c.pick(dirs), base = c.pick(bases);
    int named = c.choose(3), write = c.choose(3);
    std::string file = dir + base;
    if (!c.leaf(fmt("file '%s', case name %d, file %d", file.c_str(), named, write))) {
        return;
    }
    mkdir("run", 0777);
    mkdir("run/d.x", 0777);
    mkdir("run/d", 0777);
    mkdir("run/d.x/e", 0777);
    if (chdir("run") != 0) {
        throw std::runtime_error("chdir");
    }
    auto d = document();
    d.erase(d.begin() + 4);
    if (named) {
        d.push_back({"case_name", {}, named == 1 ? "my.case" : "", {}});
    }
    unlink(file.c_str());
    if (write == 0) {
        put(file, d);
    } else if (write == 1) {
        ci::write_file(file, "<solver><unfinished></solver>");
    }
    try {
        judge(c, {"mocc", file}, d, write == 0 ? std::set<std::string>{file} : std::set<std::string>{});
    } catch (...) {
        (void)!chdir("..");
        throw;
    }
    unlink(file.c_str());
    (void)!chdir("..");
    c.steps(1);
    c.state(fmt("%s %d %d", file.c_str(), named, write));
}

// --- the whole program on a small problem
static void program(Ctx &c)
{
    static const Args am = {"solver/max_iter=2", "solver/k_tol=1e-3", "case_name=q", "solver/sweeper/n_inner=2", "solver/bogus=1", "nonsense", "material_lib/path=missing.xsl", "solver/type=bogus", "core/north=bogus"};
    int n = c.choose(3), miss = c.choose(2);
    Args args = {"mocc"};
    bool ok   = !miss;
    int iter  = 3;
    std::string name = "in";
    for (int i = 0; i < n; i++) {
        int k = c.choose(am.size());
        args.push_back("-a");
        args.push_back(am[k]);
        ok   = ok && k < 4;
        iter = k == 0 ? 2 : iter;
        name = k == 2 ? "q" : name;
    }
    args.push_back(miss ? "gone.xml" : "in.xml");
    if (!c.leaf("arguments" + show(args))) {
        return;
    }
    cp::Problem p;
    p.ng = 2;
    p.nx = p.ny = 1;
    p.groups = {1};
    p.hz     = {2.0};
    p.pins   = {{cp::PinDef{1, {0, 1}}}};
    cp::finish(p);
    std::string xml = "<case_name>in</case_name><solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"3\" cmfd=\"f\"><sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\"><ang_quad type=\"ls\" "
                      "order=\"2\"/></sweeper><source scattering=\"P0\"/></solver>" +
                      p.xml + ci::lib_tag(cp::library(2), "lib.xsl");
    ci::write_file("in.xml", xml);
    unlink("in.h5");
    unlink("q.h5");
    unlink("in.log");
    unlink("q.log");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        int r = 99;
        try {
            r = run(args);
        } catch (...) {
            r = 98;
        }
        _exit(r);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!c.expect(WIFEXITED(st), "the program ends by itself") || !c.expect_int(WEXITSTATUS(st), ok ? 0 : 1, "exit status")) {
        return;
    }
    struct stat s1;
    c.expect((stat((name + ".h5").c_str(), &s1) == 0) == ok, ok ? "the output file is named after the case" : "no output file");
    if (ok) {
        std::ifstream f(name + ".log");
        std::stringstream log;
        log << f.rdbuf();
        c.expect(log.str().find("max_iter=\"" + fmt("%d", iter) + "\"") != std::string::npos, "the log shows the amended input");
        H5Node h(name + ".h5", H5Access::READ);
        H5::DataSet ds = h.get()->openDataSet("input_file");
        std::string t;
        ds.read(t, ds.getStrType());
        pugi::xml_document doc;
        doc.load_string(t.c_str());
        c.expect_int(doc.child("solver").attribute("max_iter").as_int(), iter, "iterations in the stored input");
    }
    c.steps(1);
    c.state(show(args));
}

int main(int argc, char **argv)
{
    return mc::run(argc, argv, "U04",
                   {{"sequences", sequences, 20, "every sequence of at most 2 (thorough: 3) amendments from 27, on a document with repeated, ambiguous, empty and nested elements"},
                    {"lines", lines, 20, "every command line of at most 4 (thorough: 6) words from 8"},
                    {"paths", paths, 20, "every path of at most 3 names from 4 over 4 documents and 4 values"},
                    {"names", names, 20, "file names with and without directories, dots and extensions; case names; missing and broken files"},
                    {"program", program, 60, "the whole program over every pair of amendments from 9"}});
}
