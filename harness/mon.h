// Monitor driver: cases, workers, verdicts.
#ifndef VERIF_MON_H_
#define VERIF_MON_H_

#include <string>
#include <vector>

#include "diff.h"
#include "gen.h"

struct Finding {
    std::string key, text;
    std::vector<Script> scripts;
};

class Case {
  public:
    Case(const std::string& check, std::uint64_t seed, std::uint64_t idx);
    Rng r;
    std::uint64_t index;
    std::string id;
    std::string scratch; // directory for files
    std::vector<Finding> found;
    std::uint64_t signature = 0; // hash of a case that is not trivial
    std::string sample;

    void fail(const std::string& key, const std::string& text, const Script& s);
    void fail(const std::string& key, const std::string& text, const Script& a, const Script& b);
    void nontrivial(const std::string& sig, const std::string& shown = std::string());
};

// counters of what was observed (shared memory, one table per worker)
void tally(const std::string& name, std::uint64_t n = 1);

// world.cpp, where it is linked in
struct WorldHooks {
    void (*other)(bool on); // answer otherwise
    long (*asked)();        // questions so far
};
extern WorldHooks worldHooks;

typedef void (*CheckFn)(Case&);
struct CheckDef {
    const char* id;
    CheckFn fn;
    std::uint64_t quick, thorough; // cases per build
    const char* rule;
    unsigned aspects; // for shrinking
    bool fresh;       // every case in a process of its own
};
extern const CheckDef kChecks[];
extern const int kChecksCount;

#endif
