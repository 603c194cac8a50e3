// P01: interrupted runs fail cleanly and leave the results they reached.
#include <fcntl.h>
#include <omp.h>
#include <sys/wait.h>
#include <csignal>
#include "core_problem.hpp"
#include "h5_dump.hpp"
#include "mc.hpp"
#include "util/error.hpp"
#include "util/files.hpp"
#include "util/h5file.hpp"
#include "driver.hpp"

using ::mc::Ctx;
using ::mc::fmt;

typedef std::vector<double> Vec;

using h5::File;

// --- what an output file holds
static bool timing(const std::string &n)
{
    return n.find("time") != std::string::npos || n.find("abscissae") != std::string::npos;
}
// the first difference between two files, but for times
static std::string differ(const File &a, const File &b)
{
    for (auto &x : a) {
        if (!b.count(x.first)) {
            return x.first + " is missing";
        }
    }
    for (auto &x : b) {
        auto y = a.find(x.first);
        if (y == a.end()) {
            return x.first + " is there";
        }
        if (timing(x.first)) {
            continue;
        }
        if (y->second.size() != x.second.size()) {
            return x.first + fmt(" has %d values, not %d", (int)x.second.size(), (int)y->second.size());
        }
        for (size_t i = 0; i < x.second.size(); i++) {
            double p = x.second[i], q = y->second[i];
            if (!(std::abs(p - q) <= 1e-10 * std::abs(q) + 1e-300) && !(std::isnan(p) && std::isnan(q)) && !(std::isinf(p) && p == q)) {
                return x.first + fmt("[%d] is %.12g, not %.12g", (int)i, p, q);
            }
        }
    }
    return "";
}
// --- runs of the whole program
static const char *OLD = "an older file";
static bool is_old()
{
    std::ifstream f("in.h5");
    std::string s;
    std::getline(f, s);
    return s == OLD;
}
static bool exists(const char *n)
{
    return access(n, F_OK) == 0;
}
// Passes lines on, and interrupts the process at the end of those asked for.
struct Lines {
    int n = 0, first = 0, second = 0;
    int rows    = 0; // lines on the screen with the results of an iteration
    bool stop   = false;
    int at_stop = 0; // rows at the first interrupt
    bool started = false; // output had started at the first interrupt
    bool old     = false;
};
static Lines *LINES;
static Vec RESULTS;          // of the iterations of the run left alone
static double DIGITS = 1e-9; // to which the screen shows them
static void line_ended()
{
    auto &l = *LINES;
    l.n++;
    if (l.n == l.first) {
        l.at_stop = l.rows;
        l.stop    = true;
        l.started = l.old ? !is_old() : exists("in.h5");
        raise(SIGINT);
    } else if (l.second && l.n == l.second) {
        raise(SIGINT);
    }
}
struct Tap : std::streambuf {
    std::streambuf *to;
    bool screen;
    std::string line;
    // two or more numbers and nothing else, the result of the next iteration
    // among them
    static bool row(const std::string &l)
    {
        std::stringstream ss(l);
        std::string w;
        bool found = false;
        int i      = LINES->rows;
        int n      = 0;
        for (; ss >> w; n++) {
            char *end;
            double v = strtod(w.c_str(), &end);
            if (*end) {
                return false;
            }
            found = found || (i < (int)RESULTS.size() && std::fabs(v - RESULTS[i]) < DIGITS);
        }
        return found && n > 1;
    }
    int overflow(int ch) override
    {
        if (ch == EOF) {
            return 0;
        }
        to->sputc((char)ch);
        if (ch == '\n') {
            LINES->rows += screen && row(line);
            line.clear();
            line_ended();
        } else {
            line += (char)ch;
        }
        return ch;
    }
    int sync() override
    {
        return to->pubsync();
    }
};
struct Outcome {
    int code = -1, signal = 0, lines = 0;
    int rows = 0; // before the interrupt, or in all
    bool started = false, file = false, old = false, valid = false;
    File data;
};
static Outcome go(const std::string &input, bool old, int first, int second)
{
    unlink("in.h5");
    unlink("in.log");
    if (old) {
        ci::write_file("in.h5", OLD);
    }
    ci::write_file("in.xml", input);
    if (!LINES) {
        LINES = (Lines *)mmap(nullptr, sizeof(Lines), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    *LINES        = Lines();
    LINES->first  = first;
    LINES->second = second;
    LINES->old    = old;
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int null = open("screen.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(null, 1);
        dup2(null, 2);
        omp_set_num_threads(1);
        static Tap screen, log;
        screen.to = std::cout.rdbuf();
        log.to    = LogFile.rdbuf();
        screen.screen = true;
        log.screen    = false;
        std::cout.rdbuf(&screen);
        static_cast<std::ios &>(LogFile).rdbuf(&log);
        int r = run(std::vector<std::string>{"mocc", "in.xml"});
        std::cout.rdbuf(screen.to);
        static_cast<std::ios &>(LogFile).rdbuf(log.to);
        exit(r);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Outcome o;
    o.code    = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    o.signal  = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    o.lines   = LINES->n;
    o.rows    = LINES->stop ? LINES->at_stop : LINES->rows;
    o.started = LINES->started;
    o.old     = old && is_old();
    o.file    = exists("in.h5") && !o.old;
    o.valid   = o.file && h5::read("in.h5", o.data);
    return o;
}
// --- the inputs
struct Kind {
    const char *name, *history; // history: the values with one entry for each iteration
};
static const std::vector<Kind> KINDS = {{"Sn", "convergence/k"},           {"Sn with CMFD", "convergence/k"}, {"MoC", "convergence/k"}, {"MoC with CMFD", "convergence/k"}, {"2D3D", "convergence/k"},
                                        {"Monte Carlo", "k_history_tl"}, {"Sn with a fixed source", ""},    {"MoC with a fixed source", ""}};
static const int INACTIVE = 2;
static std::string input(int kind, int shape, int ng, int limit)
{
    cp::Problem p;
    p.ng     = ng;
    p.nx     = 2;
    p.ny     = shape == 1 ? 2 : 1;
    p.groups = {1};
    p.hz     = {2.0};
    p.pins   = {{cp::PinDef{1, {0, 1}}, cp::PinDef{0, {3, 0, 1}}}};
    if (shape == 1) {
        p.pins[0].push_back(cp::PinDef{1, {3, 3}});
        p.pins[0].push_back(cp::PinDef{0, {0, 0, 3}});
    }
    if (kind == 4 || shape == 2) {
        p.groups = {1, 1};
        p.hz     = {1.5, 2.5};
        p.pins.push_back(p.pins[0]);
    }
    cp::finish(p);
    if (kind == 5) { // keep the chain going
        for (size_t i; (i = p.xml.find("vacuum")) != std::string::npos;) {
            p.xml.replace(i, 6, "reflect");
        }
    }
    auto lib = cp::library(ng);
    lib[3].sc[0][0] = 0.02;
    std::string quad = "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"1\"/>", rays = "<rays spacing=\"0.3\"/>", P0 = "<source scattering=\"P0\"/>";
    std::string sn = "<sweeper type=\"sn\" n_inner=\"3\" equation=\"dd\">" + quad + "</sweeper>", moc = "<sweeper type=\"moc\" n_inner=\"3\">" + quad + rays + "</sweeper>";
    auto eigen = [&](bool cmfd, std::string s) {
        return fmt("<solver type=\"eigenvalue\" k_tol=\"1e-14\" psi_tol=\"1e-14\" max_iter=\"%d\" cmfd=\"%s\">", limit, cmfd ? "t" : "f") + s + P0 + (cmfd ? "<cmfd/>" : "") + "</solver>";
    };
    std::string s;
    switch (kind) {
    case 0: case 1: s = eigen(kind == 1, sn); break;
    case 2: case 3: s = eigen(kind == 3, moc); break;
    case 4:
        s = eigen(true, "<sweeper type=\"2d3d\">" + quad + "<moc_sweeper type=\"moc_2d3d\" n_inner=\"3\">" + quad + rays + "</moc_sweeper><sn_sweeper type=\"sn\" equation=\"cdd\" axial=\"dd\" n_inner=\"3\">" + quad +
                            "</sn_sweeper></sweeper>");
        break;
    case 5:
        s = fmt("<solver type=\"eigenvalue_mc\" cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"60\" seed=\"11\">", limit, INACTIVE) + fmt("<fission_box x_min=\"0\" x_max=\"2.4\" y_min=\"0\" y_max=\"%g\" z_min=\"0\" z_max=\"2\"/></solver>", 1.2 * p.ny);
        break;
    default: {
        // a source in every region
        int n = 0;
        for (auto &g : p.pins) {
            for (auto &d : g) {
                n += kind == 6 ? 1 : cp::areas(d.geo).size();
            }
        }
        Vec q;
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < n; i++) {
                q.push_back(1.0 + 0.1 * i + 0.3 * g);
            }
        }
        {
            unlink("source.h5");
            H5::H5File f("source.h5", H5F_ACC_TRUNC);
            hsize_t dims[] = {(hsize_t)ng, (hsize_t)n};
            H5::DataSpace sp(2, dims);
            f.createDataSet("source", H5::PredType::NATIVE_DOUBLE, sp).write(q.data(), H5::PredType::NATIVE_DOUBLE);
        }
        s = fmt("<solver type=\"fixed_source\" max_iter=\"%d\" flux_tol=\"1e-14\">", limit) + (kind == 6 ? sn : moc) + "<source scattering=\"P0\" file=\"source.h5\"/></solver>";
    }
    }
    return "<case_name>in</case_name>" + s + p.xml + ci::lib_tag(lib, "lib.xsl");
}
static std::string how(const Outcome &o)
{
    return o.signal ? fmt("dies of signal %d", o.signal) : fmt("ends with status %d", o.code);
}
// --- all the points of one run
static void interrupts(Ctx &c)
{
    int kind  = c.choose(KINDS.size());
    int ng    = 1 + c.choose(2);
    int shape = c.choose(3);
    int old   = c.choose(2);
    int limit = c.thorough() ? 5 : 3;
    bool mc   = kind == 5;
    if (mc) {
        limit += INACTIVE;
    }
    if (!c.leaf(fmt("%s, %d groups, shape %d, limit %d, %s older output", KINDS[kind].name, ng, shape, limit, old ? "an" : "no"))) {
        return;
    }
    auto text = [&](int l) { return input(kind, shape, ng, l); };
    std::string hist = KINDS[kind].history;
    RESULTS.clear();
    auto full = go(text(limit), old, 0, 0);
    if (full.code != 0 || !full.valid) {
        c.fail("the run left alone " + how(full) + (full.valid ? "" : " and leaves no output"));
        return;
    }
    // what runs with fewer iterations give; cycles of Monte Carlo runs are told by the history
    std::map<int, File> limited;
    int total = hist.empty() ? limit : full.data[hist].size();
    limited[total] = full.data;
    RESULTS        = hist.empty() ? Vec() : full.data[hist];
    DIGITS         = mc ? 1e-5 : 1e-9;
    for (int l = mc ? INACTIVE : 1; l < limit; l++) {
        auto o = go(text(l), old, 0, 0);
        if (o.code != 0 || !o.valid) {
            c.fail(fmt("the run limited to %d ", l) + how(o));
            return;
        }
        limited[hist.empty() ? l : (int)o.data[hist].size()] = o.data;
    }
    int before = 0;
    bool begun = false;
    std::set<int> seen, compared;
    for (int at = 1; at <= full.lines; at++) {
        std::string where = fmt("interrupted at line %d of %d, ", at, full.lines);
        auto o = go(text(limit), old, at, 0);
        c.state(::mc::hash_str(c.desc_, at * 10));
        c.steps();
        if (o.code != 1 && !(o.started && o.code == 0)) {
            c.fail(where + "the run " + how(o));
            return;
        }
        if (o.started) { // the results are on the way, whole
            auto d = o.valid ? differ(full.data, o.data) : "there is no output";
            if (!d.empty()) {
                c.fail(where + "in or after the output: " + d);
                return;
            }
            continue;
        }
        if (!o.file) {
            if (begun) {
                c.fail(where + "no output is left, though there was some earlier");
            }
            if (old && !o.old) {
                c.fail(where + "the older output is gone, with nothing in its place");
            }
            if (begun || (old && !o.old)) {
                return;
            }
            continue;
        }
        if (!o.valid || !o.data.count("input_file")) {
            c.fail(where + "the output is broken off");
            return;
        }
        begun = true;
        // a second interrupt changes nothing
        for (int more = 1; more <= 4 && shape == 0; more++) {
            auto t = go(text(limit), old, at, at + more);
                // before the first iteration there is nothing to compare
            auto d = t.code != 1 ? "the run " + how(t) : !t.valid || !t.data.count("input_file") ? "the output is broken off" : before > 0 ? differ(o.data, t.data) : "";
            if (!d.empty()) {
                c.fail(where + fmt("and again %d lines later: ", more) + d);
                return;
            }
        }
        if (hist.empty()) {
            for (auto &l : limited) {
                if (l.first >= before && differ(l.second, o.data).empty()) {
                    before = l.first;
                    seen.insert(before);
                    break;
                }
            }
            continue;
        }
        auto &k = o.data[hist];
        int m   = k.size();
        if (m < before || m > total) {
            c.fail(where + fmt("%d iterations are reported, %d earlier", m, before));
            return;
        }
        // an iteration that the screen reports has been completed
        if (m < o.rows) {
            c.fail(where + fmt("%d iterations are reported, %d on the screen", m, o.rows));
            return;
        }
        for (int i = 0; i < m; i++) {
            c.expect_eq(k[i], full.data[hist][i], 1e-12, fmt("%sresult of iteration %d,", where.c_str(), i + 1));
        }
        if (!c.fails.empty()) {
            return;
        }
        if (m > before && limited.count(m)) {
            auto d = differ(limited[m], o.data);
            if (!d.empty()) {
                c.fail(where + fmt("right after iteration %d the results are not those of %d iterations: ", m, m) + d);
                return;
            }
        }
        before = m;
        seen.insert(m);
    }
    for (int m = 1; m <= total; m++) {
        if (!seen.count(m)) {
            c.fail(fmt("no interrupt leaves the results of %d iterations", m));
            return;
        }
    }
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "P01",
                     {{"interrupts", interrupts, 120.0, "one run of the program, interrupted at the end of every line that it prints to screen or log"}});
}
