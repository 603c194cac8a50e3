// Exploring the thread schedules of OpenMP code: see ompmc_rt.cpp for the
// runtime that carries out one schedule.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace ompmc {
const unsigned MAX_DEV = 8, MAX_VISIBLE = 256, MAX_SITES = 256;
const uint32_t MAX_DECISIONS = 1 << 18;
enum Status { RUNNING, FINISHED, DEADLOCK, TOO_LONG, BAD_PLAN };

// Which way to go: a base order, and the decisions that deviate from it.
struct Plan {
    int base;
    uint64_t budget; // memory accesses until the run is given up
    unsigned n_dev;
    struct {
        uint32_t at;
        int thread;
    } dev[MAX_DEV];
    unsigned n_visible;
    uintptr_t visible[MAX_VISIBLE]; // places in the code that are decision points
};
// What happened, in shared memory.
struct Record {
    volatile int status;
    uint32_t n_decisions;
    struct {
        uint8_t mask, chosen;
    } decisions[MAX_DECISIONS];
    unsigned n_sites;
    uintptr_t sites[MAX_SITES];
    uint64_t conflicts, accesses, switches, regions;
    uint64_t order; // hash of the order of the constructs
    uint64_t n_out;
    uint64_t n_names;
    char names[1 << 14];
    double out[1 << 20];
};
void set_threads(int n);
int threads();
void begin(Plan *p, Record *r);

// What a run leaves behind. Names starting with '=' are compared bit by bit.
struct Outcome {
    Record *r;
    template <class C> void add(const std::string &name, const C &c)
    {
        size_t n = 0;
        for (const auto &x : c) {
            push((double)x);
            n++;
        }
        label(name, n);
    }
    void add(const std::string &name, double x)
    {
        push(x);
        label(name, 1);
    }

private:
    void push(double x);
    void label(const std::string &name, size_t n);
};
typedef std::function<void(Outcome &)> Run;
}
