// G05: drawings of the geometry and of rays show what is simulated.
#include <fcntl.h>
#include <omp.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>
#include <fstream>
#include <unistd.h>
#include "core_input.hpp"
#include "mc.hpp"
#include "driver.hpp"

using ::mc::Ctx;
using ::mc::fmt;

static const double PI_ = 3.14159265358979323846;

// What the drawing library does with the calls of the scripts, in the units
// of the page.
static const char *const LIBRARY = R"(
out = []
class PDFSurface:
    def __init__(self, name, w, h):
        self.size = (w, h)
    def finish(self):
        out.append(('F',))
class Context:
    def __init__(self, surface):
        self.m = (1.0, 1.0, 0.0, 0.0)
        self.path = []
        self.at = self.start = None
        out.append(('P',) + surface.size)
    def scale(self, x, y):
        a, b, c, d = self.m
        self.m = (a * x, b * y, c, d)
    def translate(self, x, y):
        a, b, c, d = self.m
        self.m = (a, b, c + a * x, d + b * y)
    def place(self, x, y):
        a, b, c, d = self.m
        return (a * x + c, b * y + d)
    def go(self, p):
        if self.at is None:
            self.start = p
        else:
            self.path.append(('L',) + self.at + p)
        self.at = p
    def new_path(self):
        self.path = []
        self.at = self.start = None
    def new_sub_path(self):
        self.at = self.start = None
    def move_to(self, x, y):
        self.at = self.start = self.place(x, y)
    def line_to(self, x, y):
        self.go(self.place(x, y))
    def close_path(self):
        if self.at is not None:
            self.go(self.start)
    def arc(self, x, y, r, a, b):
        import math
        self.go(self.place(x + r * math.cos(a), y + r * math.sin(a)))
        self.path.append(('C',) + self.place(x, y) + (abs(self.m[0]) * r, abs(self.m[1]) * r, a, b))
        self.at = self.place(x + r * math.cos(b), y + r * math.sin(b))
    def stroke(self):
        out.extend(self.path)
        self.new_path()
    def set_line_width(self, w):
        pass
    def set_source_rgb(self, r, g, b):
        pass
)";
// Runs the script once for each angle, from the one that means none.
static const char *const DRIVER = R"(
import io, re, sys
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
import cairo, rays
# scripts for the older language too
src = re.sub(r'(?m)^( *)print +([^( ].*)$', r'\1print(\2)', open(sys.argv[1]).read())
res = open('drawn.txt', 'w')
stdout, sys.stdout = sys.stdout, io.StringIO()
for a in range(-1, len(rays.rays)):
    text, n = re.subn(r'(?m)^angle *= *-1$', 'angle = %d' % a, src)
    assert n == 1
    del cairo.out[:]
    exec(compile(text, 'drawing', 'exec'), {})
    res.write('A %d\n' % a)
    for o in cairo.out:
        res.write(' '.join([o[0]] + ['%.17g' % v for v in o[1:]]) + '\n')
res.write('E\n')
res.close()
)";
struct Line {
    double x1, y1, x2, y2;
};
struct Circle {
    double x, y, r;
};
struct Drawing {
    std::vector<Line> lines;
    std::vector<Circle> circles;
};
// --- cores
struct Mesh {
    int sx, sy; // columns and rows, 0 for rings
    std::vector<double> radii;
    std::vector<int> sub;
    int azi;
};
static const std::vector<Mesh> MESH = {{0, 0, {0.3}, {1}, 4}, {2, 1, {}, {}, 0}, {0, 0, {0.25, 0.5}, {2, 3}, 8}, {1, 1, {}, {}, 0}, {3, 4, {}, {}, 0}, {0, 0, {0.1, 0.2, 0.4}, {1, 2, 1}, 2}, {0, 0, {0.55}, {4}, 6}};
static void shapes(const Mesh &m, double x, double y, double p, Drawing &d)
{
    for (int i = 1; i < m.sx; i++) {
        d.lines.push_back({x - p / 2 + i * p / m.sx, y - p / 2, x - p / 2 + i * p / m.sx, y + p / 2});
    }
    for (int i = 1; i < m.sy; i++) {
        d.lines.push_back({x - p / 2, y - p / 2 + i * p / m.sy, x + p / 2, y - p / 2 + i * p / m.sy});
    }
    double in = 0;
    for (size_t i = 0; i < m.radii.size(); i++) {
        double r = m.radii[i];
        for (int k = 1; k <= m.sub[i]; k++) {
            d.circles.push_back({x, y, std::sqrt(in * in + (r * r - in * in) * k / m.sub[i])});
        }
        in = r;
    }
    for (int i = 0; i < m.azi; i++) {
        double a = 2 * PI_ * i / m.azi, u = std::cos(a), v = std::sin(a), l = p / 2 / std::max(std::abs(u), std::abs(v));
        d.lines.push_back({x, y, x + l * u, y + l * v});
    }
}
struct Geo {
    int nx, ny, ax, ay; // pins in an assembly, assemblies
    double pitch;
    std::vector<std::vector<int>> planes; // [plane][cell of the core from the lower left]
    std::vector<int> groups;
    std::string xml() const
    {
        std::string s, lats, rows;
        for (size_t i = 0; i < MESH.size(); i++) {
            auto &m = MESH[i];
            if (m.sx) {
                s += fmt("<mesh id=\"%d\" type=\"rect\" pitch=\"%.17g\"><sub_x>%d</sub_x><sub_y>%d</sub_y></mesh>", (int)i + 1, pitch, m.sx, m.sy);
            } else {
                s += fmt("<mesh id=\"%d\" type=\"cyl\" pitch=\"%.17g\"><radii>", (int)i + 1, pitch);
                for (double r : m.radii) {
                    s += fmt(" %.17g", r);
                }
                s += fmt("</radii><sub_azi>%d</sub_azi><sub_radii>", m.azi);
                for (int k : m.sub) {
                    s += fmt(" %d", k);
                }
                s += "</sub_radii></mesh>";
            }
            s += fmt("<pin id=\"%d\" mesh=\"%d\">", (int)i + 1, (int)i + 1);
            for (size_t k = 0; k < (m.sx ? m.sx * m.sy : m.radii.size() + 1); k++) {
                s += " 1";
            }
            s += "</pin>";
        }
        int id = 1, wx = nx * ax;
        for (int by = ay - 1; by >= 0; by--) {
            for (int bx = 0; bx < ax; bx++) {
                std::string stack;
                int z = planes.size() - 1;
                for (int g = groups.size() - 1; g >= 0; g--) {
                    stack += " {";
                    int top = z;
                    for (int k = 0; k < groups[g]; k++, z--) {
                        if (k && planes[z] == planes[top]) {
                            stack += fmt(" %d", id - 1); // the same lattice again
                            continue;
                        }
                        s += fmt("<lattice id=\"%d\" nx=\"%d\" ny=\"%d\">", id, nx, ny);
                        for (int y = ny - 1; y >= 0; y--) {
                            for (int x = 0; x < nx; x++) {
                                s += fmt(" %d", planes[z][(by * ny + y) * wx + bx * nx + x] + 1);
                            }
                        }
                        s += "</lattice>";
                        stack += fmt(" %d", id++);
                    }
                    stack += " }";
                }
                lats += fmt("<assembly id=\"%d\" np=\"%d\" hz=\"1.0\"><lattices>", (ay - 1 - by) * ax + bx + 1, (int)planes.size()) + stack + "</lattices></assembly>";
                rows += fmt(" %d", (ay - 1 - by) * ax + bx + 1);
            }
        }
        return s + lats + fmt("<core nx=\"%d\" ny=\"%d\"", ax, ay) + ci::bcs("reflect", "vacuum", "reflect", "vacuum", "reflect", "reflect") + ">" + rows + "</core>";
    }
    double w() const
    {
        return nx * ax * pitch;
    }
    double h() const
    {
        return ny * ay * pitch;
    }
    Drawing drawing(int plane) const
    {
        Drawing d;
        int wx = nx * ax, wy = ny * ay;
        for (int i = 1; i < wx; i++) {
            d.lines.push_back({i * pitch, 0, i * pitch, h()});
        }
        for (int i = 1; i < wy; i++) {
            d.lines.push_back({0, i * pitch, w(), i * pitch});
        }
        for (int i = 0; i < wx * wy; i++) {
            shapes(MESH[planes[plane][i]], (i % wx + 0.5) * pitch, (i / wx + 0.5) * pitch, pitch, d);
        }
        return d;
    }
};
static const double TOL = 3e-5;
// Parts of straight lines, joined where they overlap: [line] -> intervals
struct Straight {
    double c, s, d; // direction and offset
    std::vector<std::pair<double, double>> on;
};
static std::vector<Straight> joined(const std::vector<Line> &lines)
{
    std::vector<Straight> r;
    for (auto l : lines) {
        double u = l.x2 - l.x1, v = l.y2 - l.y1, n = std::hypot(u, v);
        if (n < TOL) {
            continue;
        }
        u /= n;
        v /= n;
        if (u < -1e-3 || (u < 1e-3 && v < 0)) {
            u = -u;
            v = -v;
        }
        double d = l.y1 * u - l.x1 * v, a = l.x1 * u + l.y1 * v, b = l.x2 * u + l.y2 * v;
        Straight *at = nullptr;
        for (auto &s : r) {
            // short lines have poor directions
            if (std::abs(s.c - u) < 1e-3 && std::abs(s.s - v) < 1e-3 && std::abs(l.y1 * s.c - l.x1 * s.s - s.d) < TOL && std::abs(l.y2 * s.c - l.x2 * s.s - s.d) < TOL) {
                at = &s;
            }
        }
        if (!at) {
            r.push_back({u, v, d, {}});
            at = &r.back();
        }
        at->on.push_back({std::min(a, b), std::max(a, b)});
    }
    for (auto &s : r) {
        std::sort(s.on.begin(), s.on.end());
        std::vector<std::pair<double, double>> m;
        for (auto &i : s.on) {
            if (!m.empty() && i.first < m.back().second + TOL) {
                m.back().second = std::max(m.back().second, i.second);
            } else {
                m.push_back(i);
            }
        }
        s.on = m;
    }
    return r;
}
// Everything in a is somewhere in b.
static bool inside(Ctx &c, const std::vector<Straight> &a, const std::vector<Straight> &b, const std::string &what)
{
    for (auto &s : a) {
        for (auto &i : s.on) {
            bool ok = false;
            for (auto &t : b) {
                for (auto &j : t.on) {
                    ok = ok || (std::abs(s.c - t.c) < 1e-3 && std::abs(s.s - t.s) < 1e-3 && std::abs(s.d - t.d) < 1e-3 && i.first > j.first - 2 * TOL && i.second < j.second + 2 * TOL);
                }
            }
            if (!c.expect(ok, what + fmt(" from (%g, %g) to (%g, %g)", s.c * i.first - s.s * s.d, s.s * i.first + s.c * s.d, s.c * i.second - s.s * s.d, s.s * i.second + s.c * s.d))) {
                return false;
            }
        }
    }
    return true;
}
static bool inside(Ctx &c, const std::vector<Circle> &a, const std::vector<Circle> &b, const std::string &what)
{
    for (auto &p : a) {
        bool ok = false;
        for (auto &q : b) {
            ok = ok || (std::abs(p.x - q.x) < TOL && std::abs(p.y - q.y) < TOL && std::abs(p.r - q.r) < TOL);
        }
        if (!c.expect(ok, what + fmt(" around (%g, %g) of radius %g", p.x, p.y, p.r))) {
            return false;
        }
    }
    return true;
}
// run something with its output put aside
static int aside(const std::function<int()> &fn)
{
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int f = open("screen.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(f, 1);
        dup2(f, 2);
        rlimit t{20, 20};
        setrlimit(RLIMIT_CPU, &t);
        exit(fn());
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}
static std::string last_line()
{
    std::ifstream e("screen.txt");
    std::string l, last;
    while (std::getline(e, l)) {
        last = l.empty() ? last : l;
    }
    return last.substr(0, 200);
}
static int program(const Geo &g, const std::string &tag, const std::string &rays)
{
    for (const char *f : {"geom.py", "plane.py", "rays.py", "in.h5"}) {
        unlink(f);
    }
    auto lib = ci::mats(1);
    ci::write_file("in.xml", g.xml() + ci::lib_tag(lib, "lib.xsl") + "<solver type=\"eigenvalue\" k_tol=\"1e-9\" psi_tol=\"1e-9\" max_iter=\"1\"><sweeper type=\"moc\" n_inner=\"1\" dump_rays=\"t\">" + rays + "</sweeper><source scattering=\"P0\"/></solver>" + tag);
    return aside([] {
        omp_set_num_threads(1);
        return run(std::vector<std::string>{"mocc", "in.xml"});
    });
}
// What the scripts draw, for each angle from none; in the units of the core.
static bool draw(Ctx &c, const Geo &g, const char *file, std::vector<Drawing> &res)
{
    ci::write_file("cairo.py", LIBRARY);
    ci::write_file("draw.py", DRIVER);
    unlink("drawn.txt");
    int st = aside([&] { return execlp("python3", "python3", "draw.py", file, (char *)nullptr), 127; });
    if (!c.expect(st == 0, "the scripts fail: " + last_line())) {
        return false;
    }
    std::ifstream f("drawn.txt");
    std::string l;
    bool end = false, finished = true, page = false;
    double pw = 0, ph = 0;
    while (std::getline(f, l)) {
        std::istringstream s(l);
        char k;
        s >> k;
        std::vector<double> v;
        double x;
        while (s >> x) {
            v.push_back(x);
        }
        if (k == 'A' || k == 'E') {
            c.expect(finished && (page || res.empty()), "a drawing is not finished");
            finished = page = false;
            end = k == 'E';
            if (!end) {
                res.push_back({});
            }
        } else if (k == 'P') {
            page = true;
            pw = v[0];
            ph = v[1];
        } else if (k == 'F') {
            finished = true;
        } else if (c.expect(!finished, "drawn after the end")) {
            // the core fills the page, upwards
            double ux = g.w() / pw, uy = g.h() / ph;
            if (k == 'L') {
                res.back().lines.push_back({v[0] * ux, (ph - v[1]) * uy, v[2] * ux, (ph - v[3]) * uy});
            } else {
                res.back().circles.push_back({v[0] * ux, (ph - v[1]) * uy, v[2] * ux});
                c.expect_eq(v[2] * ux, v[3] * uy, TOL, "radii of a circle");
                c.expect_eq(v[5] - v[4], 2 * PI_, 1e-5, "part of the circle");
            }
        }
    }
    return c.expect(end, "no end");
}
static void geometry(Ctx &c, const Geo &g, int plane, const Drawing &d)
{
    auto want = g.drawing(plane);
    auto a = joined(d.lines), b = joined(want.lines);
    inside(c, a, b, "there is no boundary") && inside(c, b, a, "boundary not drawn");
    inside(c, d.circles, want.circles, "there is no circle") && inside(c, want.circles, d.circles, "circle not drawn");
}
// Rays of an angle are parallel, run from boundary to boundary, and divide
// each face evenly.
static void rays(Ctx &c, const Geo &g, const std::vector<Line> &lines, bool up, double spacing, int module)
{
    double w = g.w(), h = g.h();
    std::vector<double> on[4];
    for (auto &l : lines) {
        int n = 0;
        for (auto p : {std::make_pair(l.x1, l.y1), std::make_pair(l.x2, l.y2)}) {
            double x = p.first, y = p.second;
            int f = std::abs(x) < TOL ? 0 : std::abs(x - w) < TOL ? 1 : std::abs(y) < TOL ? 2 : std::abs(y - h) < TOL ? 3 : -1;
            if (!c.expect(f >= 0, fmt("a ray ends inside at (%g, %g)", x, y))) {
                return;
            }
            on[f].push_back(f < 2 ? y : x);
            n = n * 4 + f;
        }
        c.expect(n != 0 && n != 5 && n != 10 && n != 15, "a ray along a face");
    }
    for (int f = 0; f < 4; f++) {
        std::sort(on[f].begin(), on[f].end());
        double len = f < 2 ? h : w;
        int n = on[f].size();
        if (!c.expect(n == (int)on[f ^ 1].size() && n % module == 0 && n, fmt("%d ends of rays on face %d", n, f))) {
            return;
        }
        for (int i = 0; i < n; i++) {
            if (!c.expect_eq(on[f][i], (i + 0.5) * len / n, TOL, fmt("end %d of %d on face %d", i, n, f))) {
                return;
            }
        }
    }
    double dx = w / on[2].size(), dy = h / on[0].size();
    c.expect(dx * dy / std::hypot(dx, dy) < spacing + TOL, fmt("spacing of rays %g", dx * dy / std::hypot(dx, dy)));
    for (auto &l : lines) {
        if (!c.expect_eq((l.y2 - l.y1) * dx, (up ? 1 : -1) * (l.x2 - l.x1) * dy, 4 * TOL * (dx + dy), "direction of a ray")) {
            return;
        }
    }
}
static void judge(Ctx &c, const Geo &g, int plane, int quad, bool by_pin, double spacing, bool named)
{
    static const char *const QUAD[] = {"<ang_quad type=\"ls\" order=\"4\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"3\" n_polar=\"2\"/>"};
    static const int ANGLES[]       = {3, 6};
    std::string tag = "<geometry_output" + (plane || named ? fmt(" plane=\"%d\"", plane) : "") + (named ? " file=\"plane.py\"" : "") + "/>";
    int st = program(g, tag, QUAD[quad] + fmt("<rays spacing=\"%g\" modularity=\"%s\"/>", spacing, by_pin ? "pin" : "core"));
    if (!c.expect(st == 0, fmt("the program ends with %d: ", st) + last_line())) {
        return;
    }
    std::vector<Drawing> d;
    if (!draw(c, g, named ? "plane.py" : "geom.py", d) || !c.expect_int(d.size(), 1 + 2 * ANGLES[quad], "drawings")) {
        return;
    }
    geometry(c, g, plane, d[0]);
    uint64_t hash = d[0].circles.size();
    for (int a = 0; a < 2 * ANGLES[quad]; a++) {
        auto &x = d[a + 1];
        // first the geometry, then the rays
        if (!c.expect(x.lines.size() > d[0].lines.size(), "no rays")) {
            return;
        }
        std::vector<Line> r;
        for (size_t i = d[0].lines.size(); i < x.lines.size(); i++) {
            auto &l = x.lines[i];
            // ways back along the same ray
            bool back = !r.empty() && std::abs(r.back().x1 - l.x2) + std::abs(r.back().y1 - l.y2) + std::abs(r.back().x2 - l.x1) + std::abs(r.back().y2 - l.y1) < TOL;
            if (!back && std::hypot(l.x2 - l.x1, l.y2 - l.y1) > TOL) {
                r.push_back(l);
            }
            hash = hash * 1099511628211ull ^ (uint64_t)std::llround(l.x1 * 1e4 + l.y2 * 1e7);
        }
        x.lines.resize(d[0].lines.size());
        geometry(c, g, plane, x);
        rays(c, g, r, a < ANGLES[quad], spacing, by_pin ? (g.nx * g.ax == g.ny * g.ay ? g.nx * g.ax : 1) : 1);
    }
    c.state(hash);
}
static Geo core(int k, int planes, int fill, double pitch)
{
    static const int NX[] = {1, 2, 1, 2, 3, 1, 2}, NY[] = {1, 1, 2, 2, 2, 1, 1}, AX[] = {1, 1, 1, 1, 1, 2, 2}, AY[] = {1, 1, 1, 1, 1, 1, 2};
    Geo g{NX[k], NY[k], AX[k], AY[k], pitch, {}, {}};
    int n = g.nx * g.ny * g.ax * g.ay;
    for (int z = 0; z < planes; z++) {
        std::vector<int> p;
        for (int i = 0; i < n; i++) {
            p.push_back((fill + i * (1 + fill % 3) + z * 2) % MESH.size());
        }
        g.planes.push_back(p);
        g.groups.push_back(1);
    }
    return g;
}
static void drawings(Ctx &c)
{
    int k = c.choose(7), planes = 1 + c.choose(3), plane = c.choose(planes), fill = c.choose(7), quad = c.choose(2);
    bool by_pin = c.choose(2), named = (fill + plane) % 2;
    auto g = core(k, planes, fill, c.thorough() && c.choose(2) ? 2.5 : 1.26);
    if (!c.leaf(fmt("%dx%d assemblies of %dx%d pins, filling %d, plane %d of %d, quadrature %d, rays by %s, pitch %g", g.ax, g.ay, g.nx, g.ny, fill, plane, planes, quad, by_pin ? "pin" : "core", g.pitch))) {
        return;
    }
    judge(c, g, plane, quad, by_pin, 0.37, named);
}
// planes in groups; planes that do not exist
static void planes(Ctx &c)
{
    int k = c.choose(3), gr = c.choose(3), fill = c.choose(3), plane = c.choose(6) - 1;
    static const std::vector<std::vector<int>> GROUPS = {{2, 1}, {1, 2}, {3}};
    auto g   = core(k, 3, fill, 1.3);
    g.groups = GROUPS[gr];
    int z = 0;
    for (int n : g.groups) {
        for (int i = 0; i < n; i++, z++) {
            g.planes[z] = g.planes[z - i]; // alike in a group
        }
    }
    if (!c.leaf(fmt("%dx%d pins, groups %d, filling %d, plane %d of 3", g.nx, g.ny, gr, fill, plane))) {
        return;
    }
    if (plane >= 0 && plane < 3) {
        judge(c, g, plane, 0, false, 0.4, true);
        return;
    }
    int st = program(g, fmt("<geometry_output plane=\"%d\"/>", plane), "<ang_quad type=\"ls\" order=\"4\"/><rays spacing=\"0.4\"/>");
    c.expect(st > 0 && st < 128, fmt("the program ends with %d", st));
    c.expect(access("geom.py", F_OK) != 0, "there is a drawing");
    c.state(fmt("refused %d", plane));
}
int main(int argc, char **argv)
{
    return ::mc::run(argc, argv, "G05",
                     {{"drawings", drawings, 60, "cores up to 3x2 pins or 2x2 assemblies, 3 planes, 7 fillings with 7 kinds of mesh, 2 quadratures, both modularities; geometry and rays of every angle"},
                      {"planes", planes, 60, "planes in groups, and planes that do not exist"}});
}
