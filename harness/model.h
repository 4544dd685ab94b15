// Reference model: what a history of calls must give, written from the
// documentation.  It shares no code with the library.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_

#include <memory>
#include <set>

#include "script.h"

namespace model {

enum Kind {
    K_HELP,
    K_VERSION,
    K_TRUE,
    K_FALSE,
    K_ONE,    // option, one value
    K_NUM,    // option, n values
    K_LIST,   // option, open-ended
    K_APP,    // append, one value each
    K_EXT,    // extend, open-ended each
    K_APPN,   // append, n values each
    K_EXTN,   // extend, open-ended groups of n
    K_P1,     // positional, one value
    K_PN,     // positional, n values
    K_PLIST,  // positional, open-ended
    K_PLISTN, // positional, open-ended groups of n
    K_COUNT
};

const char* kindName(int k);
inline bool isPos(int k) { return k >= K_P1; }
inline bool isGroups(int k) { return k == K_APPN || k == K_EXTN || k == K_PLISTN; }
inline bool isFlat(int k) {
    return k == K_NUM || k == K_LIST || k == K_APP || k == K_EXT || k == K_PN || k == K_PLIST;
}
inline bool isSingle(int k) { return k == K_ONE || k == K_P1; }
inline bool isBool(int k) { return k == K_TRUE || k == K_FALSE; }
inline bool takesValue(int k) { return k >= K_ONE && k <= K_EXTN; }

enum Action { A_NONE = 0, A_HELP, A_VERSION, A_TRUE, A_FALSE, A_APPEND, A_EXTEND, A_INFINITE };

struct Val {
    int op = -1; // operation that made it
    int h = -1;  // for this argument
    long kind = 0;
    bool owned = true;
    Strs s;
    long mode = 3;
};

struct Dst {
    int op = -1;
    long base = 0, container = 0;
    bool custom = false;
    long thrown = 0;
};

struct Arg {
    int h = -1;
    Strs names;
    int kind = K_ONE;
    int action = A_NONE;
    std::size_t nargs = 1;
    bool required = false;
    std::string help, metavar, def;
    Strs defaults;
    bool hasVal = false;
    Val val;
    bool hasDst = false;
    Dst dst;
    // results
    bool exists = false;
    bool parsed = false; // numbers are known
    std::size_t count = 0;
    std::string one;
    Strs flat;
    std::vector<Strs> groups;

    bool pos() const { return isPos(kind); }
    Strs all() const;
    std::string text() const;
};

struct Thrown {
    std::string cls, arg, what, phase;
};

struct State {
    std::vector<Arg> args; // in listing order
    int helpH = -2, versionH = -2; // handle of the owner (-1: added by the library), -2: none
    std::string bin, version, desc, epilog, usage;
    bool alt = false, strict = false, helpExc = false, verExc = false;
    std::size_t w[4] = {2, 20, 2, 56};
    Strs additional;
};

bool leadingNumber(const std::string& s, double* d);
// the text is one on which number parsers differ (incomplete exponents, overflow, ...)
bool trickyNumber(const std::string& s);
std::string usageText(const State& st);
std::string convText(int base, const std::string& s);
std::string convBool(int base, bool b);
// the value does not fit the destination type
bool fits(int base, const std::string& s);

struct Options {
    bool snapEveryOp = false;
    bool noSnap = false;
    bool noUsage = false;
    bool look = false; // Event::seen
};

// runs the script; parse operations that end the process are marked n = 1
void run(Script& s, const Options& opt, Obs& o);

// for generators: state of the definitions after the first n operations
State stateAfter(const Script& s, std::size_t n);

} // namespace model

#endif
