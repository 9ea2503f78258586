// Bounded exhaustive explorer ("stateless model checker") used by every check.
//
// A harness is a set of phases. A phase body builds one case by calling mc::choose(n) any number of
// times (0 <= result < n); the explorer runs the body again and again until every combination of
// answers has been taken: a depth first walk over the whole choice tree, nothing sampled. Once the case is
// built the body calls mc::run("description") which returns true in exactly one of the worker
// processes; only that worker executes the case against the real code and compares with the
// reference. Sanitizer reports, aborts, assertion failures, signals and CPU-time overruns in a
// worker are violations too: the parent attributes them to the case recorded in shared memory and
// resumes the walk after it.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc {

struct Fail { std::string msg; };
struct Stop {};

// --- used by bodies ---
int choose(int n);                      // next branch of the choice tree
bool run(const std::string &desc);      // case is complete: execute it here?
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void failstr(const std::string &s);
bool known(const char *id);             // known finding listed? (records it); false -> caller must fail
void outcome(uint64_t h);               // distinct observed outcome (for vacuity statistics)
void outcome(const std::string &s);
void count(int which, uint64_t n = 1);  // free counters 0..15, summed over workers
extern const char *counter_names[16];
bool thorough();
int tier_pick(int quick, int thor);
void leakcheck(const std::function<void()> &f); // run f; violation when memory in use grows every time
extern int case_cpu_seconds;            // CPU seconds one case may take
std::string esc(const std::string &s);  // printable form
extern std::string scratch;             // per worker scratch directory (exists)
int worker();

struct Phase { const char *name; void (*body)(); };
int main_(int argc, char **argv, const char *property, const std::vector<Phase> &phases);

// exact-size heap copy: one byte past the end is poisoned
struct Exact {
    char *start, *stop;
    Exact(const std::string &s) { start = (char*)malloc(s.size()?s.size():1); if (s.size()) memcpy(start, s.data(), s.size()); stop = start+s.size();
        if (!s.size()) { char *t=(char*)realloc(start,1); start=t+1; stop=start; base=t; } else base=start; }
    ~Exact() { free(base); }
    char *base;
    Exact(const Exact&)=delete;
};
}
