// Whole solver runs, each in a process of its own, and what they end with.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include "core_input.hpp"
#include "isolated.hpp"
#include "core/core_mesh.hpp"
#include "solvers/eigen_solver.hpp"
#include "solvers/solver_factory.hpp"
#include "util/h5file.hpp"

namespace er {
typedef std::vector<double> Vec;
typedef std::map<std::string, Vec> Results;

// Run fn in a process of its own; it fills the results. Deaths and exceptions
// are failures unless may_die is set: then "died" is set.
inline Results apart(mc::Ctx &c, const std::function<void(Results &)> &fn, bool may_die = false)
{
    struct Shared {
        volatile int done;
        char what[512];
        size_t n;
        double data[1 << 20];
        char names[1 << 16];
    };
    static Shared *sh = nullptr;
    if (!sh) {
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    sh->done    = 0;
    sh->what[0] = 0;
    sh->n       = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(50);
        try {
            Results r;
            fn(r);
            std::string names;
            for (auto &v : r) {
                names += v.first + "\t" + std::to_string(v.second.size()) + "\n";
                for (double x : v.second) {
                    if (sh->n >= sizeof sh->data / sizeof sh->data[0]) {
                        _exit(97);
                    }
                    sh->data[sh->n++] = x;
                }
            }
            if (names.size() >= sizeof sh->names) {
                _exit(97);
            }
            strcpy(sh->names, names.c_str());
        } catch (const std::exception &e) {
            snprintf(sh->what, sizeof sh->what, "exception: %s", e.what());
        } catch (...) {
            snprintf(sh->what, sizeof sh->what, "exception");
        }
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        _exit(97);
    }
    Results r;
    if (!sh->done || sh->what[0]) {
        r["died"] = {1};
        if (!may_die) {
            c.fail(sh->done ? std::string("unexpected ") + sh->what : mc::fmt("the run dies (signal %d, exit %d) ", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0) + iso::last_words());
        } else if (!sh->done && WIFSIGNALED(st)) {
            r["signal"] = {(double)WTERMSIG(st)};
        }
        return r;
    }
    size_t at = 0;
    std::istringstream names(sh->names);
    std::string line;
    while (std::getline(names, line)) {
        size_t t = line.find('\t'), n = std::stoul(line.substr(t + 1));
        r[line.substr(0, t)] = Vec(sh->data + at, sh->data + at + n);
        at += n;
    }
    uint64_t h = mc::hash_str(c.desc_);
    for (size_t i = 0; i < sh->n; i++) {
        h = h * 1099511628211ull ^ (uint64_t)std::llround(std::isfinite(sh->data[i]) ? std::fmod(sh->data[i], 1e6) * 1e6 : -1.0);
    }
    c.state(h);
    return r;
}
inline Vec dump(const mocc::ArrayB2 &a)
{
    Vec v;
    for (int i = 0; i < a.extent(0); i++) {
        for (int g = 0; g < a.extent(1); g++) {
            v.push_back(a(i, g));
        }
    }
    return v;
}
inline Vec scaled(Vec v)
{
    double s = 0;
    for (double x : v) {
        s += x;
    }
    for (double &x : v) {
        x /= s;
    }
    return v;
}
// An eigenvalue run on a core: k of every iteration, its errors, and the
// fluxes, scaled to a sum of one.
inline Results eigen(mc::Ctx &c, const std::string &core, const std::string &solver, bool may_die = false)
{
    return apart(c, [&](Results &r) {
        ci::Doc doc("<mocc>" + core + solver + "</mocc>");
        mocc::CoreMesh mesh(doc.root());
        mocc::EigenSolver s(doc.root().child("solver"), mesh);
        s.solve();
        {
            mocc::H5Node out("run.h5", mocc::H5Access::WRITE);
            s.output(out);
        }
        mocc::H5Node in("run.h5", mocc::H5Access::READ);
        for (const char *n : {"k", "error_k", "error_psi"}) {
            in.read(std::string("convergence/") + n, r[n]);
        }
        auto &swp = *s.sweeper();
        r["flux"] = scaled(dump(swp.flux()));
        r["pin"]  = scaled(dump(swp.get_pin_flux()));
        mocc::ArrayB1 p;
        in.read_1d("pin_powers", p);
        r["power"] = Vec(p.begin(), p.end());
        for (int g = 0; g < (int)swp.n_group(); g++) {
            mocc::ArrayB1 f;
            in.read_1d(mc::fmt("flux/%03d", g + 1), f);
            r[mc::fmt("file%d", g)] = Vec(f.begin(), f.end());
        }
    }, may_die);
}
} // namespace er
