// Run one case in a process of its own: solvers and sweepers may be set up
// only once in a process.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include "mc.hpp"

namespace iso {
inline std::string last_words()
{
    std::ifstream f("stderr.txt");
    std::string line, last;
    while (std::getline(f, line)) {
        if (line.find("ssertion") != std::string::npos || line.find("what():") != std::string::npos) {
            last = line;
        }
    }
    return last.substr(0, 300);
}
inline void run(mc::Ctx &c, const std::function<void(mc::Ctx &)> &fn)
{
    struct Report {
        volatile int done;
        int n_fails;
        char fails[8][1024];
    };
    static Report *rep = nullptr;
    if (!rep) {
        rep = (Report *)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    c.state(mc::hash_str(c.desc_));
    rep->done    = 0;
    rep->n_fails = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        try {
            fn(c);
        } catch (const std::exception &e) {
            c.fail(std::string("unexpected exception: ") + e.what());
        } catch (...) {
            c.fail("unexpected exception");
        }
        for (auto &f : c.fails) {
            if (rep->n_fails >= 8) {
                break;
            }
            strncpy(rep->fails[rep->n_fails], f.c_str(), sizeof rep->fails[0] - 1);
            rep->fails[rep->n_fails++][sizeof rep->fails[0] - 1] = 0;
        }
        rep->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        _exit(97);
    }
    if (!rep->done) {
        c.fail(mc::fmt("the case dies (signal %d, exit %d) ", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0) + last_words());
        return;
    }
    for (int i = 0; i < rep->n_fails; i++) {
        c.fail(rep->fails[i]);
    }
}
} // namespace iso
