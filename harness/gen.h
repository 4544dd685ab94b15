// Workload generation: definitions, command lines, histories.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_

#include <cstdint>
#include <map>
#include <set>

#include "model.h"
#include "script.h"

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool pct(int p) { return below(100) < p; }
    template<typename T>
    const T& pick(const std::vector<T>& v) {
        return v[static_cast<std::size_t>(below(static_cast<int>(v.size())))];
    }
    template<typename T>
    void shuffle(std::vector<T>& v) {
        for (std::size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[static_cast<std::size_t>(below(static_cast<int>(i)))]);
        }
    }
};

struct Profile {
    int w[model::K_COUNT]; // weights of the kinds
    int maxOpts = 6, maxPos = 3;
    int alt = 25, strict = 15, helpExc = 100, verExc = 100;
    int required = 0, defaults = 40, help = 15, metavar = 10, valid = 0, dest = 0, noConversion = 0, multiFlag = 55;
    int userHelp = 8;     // percent: a help option defined by the user
    int oneHelpName = 12; // percent: an option uses one of -h, --help
    int texts = 0;        // percent: description, epilog, widths, usage
    int helpToken = 0, versionToken = 0;
    int weird = 25;       // percent of unusual values
    int numeric = 15;     // percent of numeric values
    bool tame = false;    // numeric texts on which number parsers agree only
    int separator = 30, extras = 35;
    int give = 65;        // percent: an option is on the line
    int repeat = 35;      // percent: an occurrence is followed by another of the same option
    int maxNargs = 4;
    int big = 2;          // percent: many definitions, many values
    int throws = 0;       // percent: a validator or custom conversion throws something of its own
    int idle = 0;         // percent: an option that takes no value has defaults all the same
    int same = 0;         // percent: a value is one that was already used, in the line or as a default
    Profile();
    Profile& kinds(std::initializer_list<int> ks, int weight = 1); // only these
    Profile& add(int k, int weight);
};

struct Def {
    int h = 0;
    int kind = model::K_ONE;
    Strs names;
    long action = 0;
    bool hasAction = false;
    long nargs = 1;
    bool hasNargs = false;
    bool required = false;
    Strs defaults;
    std::string help, metavar;
    bool hasValid = false, hasDest = false;
    Op valid, dest;
    bool pos() const { return model::isPos(kind); }
};

struct Spec {
    std::vector<Def> defs;
    bool alt = false, strict = false, helpExc = true, verExc = true;
    std::vector<Op> texts; // operations on the parser itself
    const Def* byHandle(int h) const;
    const Def* byName(const std::string& n) const;
    bool known(const std::string& n) const; // including the automatic help
    Strs shortFlags() const, longFlags() const;
    bool userHelp() const;
    std::vector<const Def*> positionals() const; // in parse order
};

Spec genSpec(Rng& r, const Profile& p);
// builder operations of a definition, in the canonical order
std::vector<Op> defOps(const Def& d, Rng* listStyle = nullptr);
std::vector<Op> modeOps(const Spec& s);
void emit(const Spec& s, Script& out, Rng* listStyle = nullptr);

// ---- command lines
enum Style { ST_SEP = 0, ST_EQ, ST_GLUE, ST_ALT, ST_ALTEQ };
struct Item {
    enum Type { OCC, FREE, SEPARATOR } type = OCC;
    int h = -1; // option, or positional (-1: additional)
    Strs values;
    int style = ST_SEP;
    std::string flag;
    bool joined = false; // in one cluster with the next item
};
struct Line {
    std::vector<Item> items;
};

// values unique within one line
class Values {
  public:
    Values(Rng& r, const Spec& s, const Profile& p) : r_(r), s_(s), p_(p) {}
    enum Where { INLINE, GLUED, FIXED, OPEN, FREE_FIRST, AFTER };
    std::string make(Where w);
    void reserve(const std::string& s) {
        used_.insert(s);
        list_.push_back(s);
    }

  private:
    std::string raw(Where w);
    bool ok(Where w, const std::string& v, bool again = false) const;
    Rng& r_;
    const Spec& s_;
    const Profile& p_;
    std::set<std::string> used_;
    Strs list_;
    int id_ = 0;
};

Line genLine(Rng& r, const Spec& s, const Profile& p);
// other spellings of the same line
void respell(Rng& r, const Spec& s, const Line& in, Line& out);
Strs render(const Spec& s, const Line& l); // without the program name
// a line that starts from a good one and is spoiled
Strs spoil(Rng& r, const Spec& s, const Strs& good);
Strs soup(Rng& r, const Spec& s, int maxTokens);
std::string hostileText(Rng& r, int maxLen);
Op parseOp(const Strs& line, const std::string& prog = "prog");

// what a line built from items must give
struct ArgTruth {
    bool exists = false;
    unsigned long count = 0;
    Strs flat;
    std::vector<Strs> groups;
};
struct Truth {
    std::map<int, ArgTruth> args;
    Strs additional;
};
Truth truthOf(const Spec& s, const Line& l);

void addRandomValid(Rng& r, Def& d, bool recorders);
void addRandomDest(Rng& r, Def& d, const Profile& p);
std::string numberText(Rng& r, bool tame);
std::string progName(Rng& r);
std::string words(Rng& r, int maxWords, bool newlines);

std::uint64_t hashText(const std::string& s);

#endif
