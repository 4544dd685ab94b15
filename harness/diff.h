// Comparison of what the library did with what it had to do, by aspect.
#ifndef VERIF_DIFF_H_
#define VERIF_DIFF_H_

#include "gen.h"

enum Aspect : unsigned {
    A_FORM = 1u << 0,      // well-formed lines are accepted, malformed ones refused (and nothing else)
    A_ERROR = 1u << 1,     //  every failed parse in full; exits and their output
    A_BUILDER = 1u << 2,   // outcome of the definition calls
    A_VALUES = 1u << 3,    // existence and values after a successful parse
    A_COUNT = 1u << 4,
    A_ADDITIONAL = 1u << 5,
    A_NUMBERS = 1u << 6,
    A_VIEWS = 1u << 7,     // every view of the value
    A_DESTS = 1u << 8,
    A_VALIDATORS = 1u << 9,
    A_CUSTOM = 1u << 10,   // calls of custom destinations
    A_DESTROY = 1u << 11,
    A_NAMES = 1u << 12,    // registry
    A_PROPS = 1u << 13,    // declared properties read back
    A_TEXTS = 1u << 14,    // modes and texts of the parser read back
    A_USAGE = 1u << 15,
    A_ARGV = 1u << 16,
    A_ALWAYS = 1u << 17,   // compare values even when no parse succeeded just before
    A_TRUTH = 1u << 18,    // truth values
    A_FAILDESTS = 1u << 19, // destinations after a failed parse
    A_FORMTEXT = 1u << 20,  // which error of form
    A_PRECEDENCE = 1u << 21, // help, version, required, and what comes before and after
    A_VALIDERR = 1u << 22,  // validation errors
    A_DESTERR = 1u << 23,   // errors while delivering
};

// "" when nothing differs, otherwise a description; key gets a short name of the difference
std::string difference(const Script& s, const Obs& real, const Obs& mod, unsigned aspects, std::string* key);
// two runs of the real library that must be indistinguishable, from operation a0 / b0 on, n operations
std::string sameRuns(const Obs& a, std::size_t a0, const Obs& b, std::size_t b0, std::size_t n, unsigned skip, std::string* key);
enum Skip : unsigned { S_DESTS = 1, S_EVENTS = 2, S_NAMES = 4, S_USAGE = 8 };
// internal agreement of the views of every argument of a snapshot
std::string viewsAgree(const Snapshot& s, std::string* key);

// the values of an argument as the accessors show them
Strs flatOf(const ArgObs& a);

#endif
