#include "gen.h"

#include <algorithm>
#include <cstdio>

using namespace model;

Profile::Profile() {
    for (int& x : w) {
        x = 0;
    }
    w[K_TRUE] = w[K_ONE] = w[K_P1] = 3;
    w[K_FALSE] = w[K_VERSION] = 1;
    w[K_NUM] = w[K_LIST] = w[K_APP] = w[K_EXT] = w[K_APPN] = w[K_EXTN] = 2;
    w[K_PN] = w[K_PLIST] = w[K_PLISTN] = 2;
}

Profile& Profile::kinds(std::initializer_list<int> ks, int weight) {
    for (int& x : w) {
        x = 0;
    }
    for (int k : ks) {
        w[k] = weight;
    }
    return *this;
}

Profile& Profile::add(int k, int weight) {
    w[k] += weight;
    return *this;
}

std::uint64_t hashText(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for (char c : s) {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}

// ---------------------------------------------------------------- Spec
const Def* Spec::byHandle(int h) const {
    for (const Def& d : defs) {
        if (d.h == h) {
            return &d;
        }
    }
    return nullptr;
}

const Def* Spec::byName(const std::string& n) const {
    for (const Def& d : defs) {
        if (std::find(d.names.begin(), d.names.end(), n) != d.names.end()) {
            return &d;
        }
    }
    return nullptr;
}

bool Spec::userHelp() const {
    for (const Def& d : defs) {
        if (d.kind == K_HELP) {
            return true;
        }
    }
    return false;
}

bool Spec::known(const std::string& n) const {
    return byName(n) != nullptr || (!userHelp() && (n == "-h" || n == "--help"));
}

Strs Spec::shortFlags() const {
    Strs r;
    for (const Def& d : defs) {
        for (const std::string& n : d.names) {
            if (!d.pos() && n.size() == 2) {
                r.push_back(n);
            }
        }
    }
    return r;
}

Strs Spec::longFlags() const {
    Strs r;
    for (const Def& d : defs) {
        for (const std::string& n : d.names) {
            if (!d.pos() && n.size() > 2) {
                r.push_back(n);
            }
        }
    }
    return r;
}

std::vector<const Def*> Spec::positionals() const {
    std::vector<const Def*> r;
    for (int pass = 0; pass < 2; ++pass) {
        for (const Def& d : defs) {
            if (d.pos() && d.required == (pass == 0)) {
                r.push_back(&d);
            }
        }
    }
    return r;
}

// ---------------------------------------------------------------- definitions
static const char* const kLetters = "abcdefgnpqstuvxyzABDINO019_?@+";
static const char* const kLongs[] = {"alpha", "al",   "a",    "ab",   "bravo", "verbose", "ver",  "no-color", "name", "n",
                                     "size",  "sizes", "x1",  "1",    "out",   "output",  "std",  "the-long-option-name", "b-", "-x",
                                     "abc",   "tag",  "tags", "in.put", "Z",   "pq",      "quiet", "u_v",     "12",  "e5"};
static const char* const kPosNames[] = {"file", "FILE", "source", "dest", "n", "count", "pos1", "my pos", "a", "ab", "output", "name=value", "1", "x-y"};

std::string words(Rng& r, int maxWords, bool newlines) {
    static const char* const w[] = {"the",  "value", "of", "a", "file", "to", "read",   "(see", "below)", "directory.", "and", "x",
                                    "is",   "used",  "when", "supercalifragilistic", "output;", "--flag", "[opt]", "100%", "é", "path/to/a/very/long/name/without/any/space/in/it"};
    std::string s;
    int n = r.range(1, maxWords);
    for (int i = 0; i < n; ++i) {
        if (i) {
            s += r.pct(6) ? (newlines ? "\n" : "  ") : r.pct(6) ? "   " : " ";
        }
        s += w[r.below(static_cast<int>(sizeof w / sizeof *w))];
    }
    if (newlines && r.pct(10)) {
        s += "\n";
    }
    if (r.pct(5)) {
        s += " ";
    }
    if (r.pct(5)) {
        s = " " + s;
    }
    return s;
}

std::string numberText(Rng& r, bool tame) {
    char b[64];
    if (r.pct(14)) {
        static const char* const k[] = {"\t5", "\v6", "\n7", " \f8", "\r9", "1e+01", "007", "00.5", "-.5", "+.5", "-0", "1e-3", "1.e1", ".5e1", "5e0", "1E1", "-7e-1",
                                        "000000000000000000000012", "0.1000000000000000055", "12,5", "1 000", "3.1.4", "1e2e3", "4-", "8/2", "6'", "  ", "\t", "-e1", "+", "-.",
                                        "1_000", "5%", "\xc2\xa0" "5", "1.5.", "9e1.5", "100", "127", "64", "99.99", "0.0", "-1"};
        return k[r.below(static_cast<int>(sizeof k / sizeof *k))];
    }
    switch (r.below(tame ? 14 : 16)) {
        case 0:
        case 1:
            std::snprintf(b, sizeof b, "%d", r.range(0, 130));
            return b;
        case 2:
            std::snprintf(b, sizeof b, "%d", r.range(-120, 120));
            return b;
        case 3:
            std::snprintf(b, sizeof b, "%d.%02d", r.range(-20, 100), r.below(100));
            return b;
        case 4:
            std::snprintf(b, sizeof b, "%de%d", r.range(1, 9), r.range(-2, 1));
            return b;
        case 5:
            std::snprintf(b, sizeof b, "+%d", r.below(100));
            return b;
        case 6:
            std::snprintf(b, sizeof b, " %d", r.below(100));
            return b;
        case 7:
            std::snprintf(b, sizeof b, "%d%s", r.below(100), r.pct(50) ? "abc" : r.pct(50) ? " 7" : "..2");
            return b;
        case 8:
            std::snprintf(b, sizeof b, "%03d", r.below(100));
            return b;
        case 9:
            return r.pct(50) ? ".5" : "7.";
        case 10: {
            static const char* const k[] = {"abc", "x1", "e5", ".", "+", "", "..5", "+-3", " ", "true", "_1"};
            return k[r.below(11)];
        }
        case 11:
            std::snprintf(b, sizeof b, "%d.%dE+%d", r.below(10), r.below(1000), r.below(2));
            return b;
        case 12:
            std::snprintf(b, sizeof b, "%d", r.range(0, 100));
            return b;
        case 13:
            std::snprintf(b, sizeof b, "-%d.5", r.below(50));
            return b;
        case 14:
            std::snprintf(b, sizeof b, "%d", r.range(-2000000000, 2000000000));
            return b;
        default:
            std::snprintf(b, sizeof b, "%lld", static_cast<long long>(r.next() >> 12) - (1ll << 51));
            return b;
    }
}

std::string progName(Rng& r) {
    static const char* const k[] = {"prog", "/a/b/prog", "prog ", " prog", "", "a b", "-a", "--", "--alpha=x", "./x/", "p\xc3\xa9\xff", "prog\n", "/", "other"};
    if (r.pct(4)) {
        return std::string(static_cast<std::size_t>(r.range(50, 300)), 'n');
    }
    return r.pct(50) ? k[0] : k[r.below(14)];
}

// any byte of a name, but the ones that the workloads take as certainly unknown
static char nameByte(Rng& r) {
    for (;;) {
        const int c = r.pct(60) ? r.range(0x21, 0x7e) : r.pct(80) ? r.range(0x80, 0xfe) : r.range(1, 0xfe);
        if (c != '-' && c != '=' && c != '!' && c != '~') {
            return static_cast<char>(c);
        }
    }
}

static std::string anyName(Rng& r) {
    std::string s;
    for (int i = r.pct(5) ? r.range(20, 140) : r.range(1, 12); i > 0; --i) {
        s += r.pct(5) && !s.empty() ? '-' : nameByte(r);
    }
    return s;
}

static std::string shortName(Rng& r) {
    if (r.pct(12)) {
        return std::string("-") + nameByte(r);
    }
    return std::string("-") + kLetters[r.below(30)];
}

static std::string longName(Rng& r) {
    if (r.pct(2)) {
        return "--" + std::string(static_cast<std::size_t>(r.pct(30) ? r.range(120, 300) : r.range(30, 70)), 'l') + std::to_string(r.below(9));
    }
    return "--" + (r.pct(12) ? anyName(r) : kLongs[r.below(30)]);
}

Spec genSpec(Rng& r, const Profile& p) {
    Spec s;
    s.alt = r.pct(p.alt);
    s.strict = r.pct(p.strict);
    s.helpExc = r.pct(p.helpExc);
    s.verExc = r.pct(p.verExc);
    std::set<std::string> used;
    int total = 0;
    for (int k = 0; k < K_COUNT; ++k) {
        total += p.w[k];
    }
    int nOpts = 0, nPos = 0;
    int wantOpts = p.maxOpts > 0 ? r.range(1, p.maxOpts) : 0, wantPos = p.maxPos > 0 ? r.below(p.maxPos + 1) : 0;
    if (r.pct(p.big)) { // many definitions
        wantOpts = p.maxOpts > 0 ? r.range(8, 40) : 0;
        wantPos = p.maxPos > 0 ? r.below(12) : 0;
    }
    const bool userHelp = r.pct(p.userHelp);
    bool version = false, help = false;
    bool helpName = r.pct(p.oneHelpName);
    if (!userHelp) {
        used.insert("-h");
        used.insert("--help");
    }
    auto fresh = [&](int kind) {
        for (int t = 0; t < 200; ++t) {
            std::string n;
            if (isPos(kind)) {
                n = r.pct(8) ? anyName(r) : kPosNames[r.below(14)];
            }
            else if (userHelp && r.pct(6)) {
                n = r.pct(50) ? "-h" : "--help";
            }
            else {
                n = r.pct(55) ? shortName(r) : longName(r);
            }
            if (used.insert(n).second) {
                return n;
            }
        }
        std::string n = (isPos(kind) ? "p" : "--z") + std::to_string(used.size());
        used.insert(n);
        return n;
    };
    for (int guard = 0; guard < 60 + 4 * (wantOpts + wantPos) && total > 0 && (nOpts < wantOpts || nPos < wantPos); ++guard) {
        int x = r.below(total), kind = 0;
        while (x >= p.w[kind]) {
            x -= p.w[kind++];
        }
        if (userHelp && !help && nOpts < wantOpts && r.pct(40)) {
            kind = K_HELP;
        }
        if (isPos(kind) ? nPos >= wantPos : nOpts >= wantOpts) {
            continue;
        }
        if (kind == K_VERSION && version) {
            continue;
        }
        if (kind == K_HELP && (help || !userHelp)) {
            continue;
        }
        Def d;
        d.h = static_cast<int>(s.defs.size());
        d.kind = kind;
        (isPos(kind) ? nPos : nOpts)++;
        version = version || kind == K_VERSION;
        help = help || kind == K_HELP;
        d.names.push_back(fresh(kind));
        if (!isPos(kind)) {
            int n = r.pct(p.multiFlag) ? r.range(1, 3) : 0;
            for (int i = 0; i < n; ++i) {
                d.names.push_back(fresh(kind));
            }
            if (helpName && !userHelp && kind != K_HELP && r.pct(50)) {
                helpName = false;
                d.names.push_back(r.pct(50) ? "-h" : "--help"); // the library then takes the other one
            }
        }
        const long n = r.pct(p.big) ? r.range(9, 40) : r.pct(6) ? r.range(5, 12) : r.range(2, std::max(2, p.maxNargs));
        switch (kind) {
            case K_HELP:
                d.action = A_HELP;
                break;
            case K_VERSION:
                d.action = A_VERSION;
                break;
            case K_TRUE:
                if (r.pct(20)) {
                    d.hasNargs = true;
                    d.nargs = 0;
                }
                else {
                    d.action = A_TRUE;
                }
                break;
            case K_FALSE:
                d.action = A_FALSE;
                break;
            case K_ONE:
            case K_P1:
                if (r.pct(15)) {
                    d.hasNargs = true;
                    d.nargs = 1;
                }
                break;
            case K_NUM:
            case K_PN:
                d.hasNargs = true;
                d.nargs = n;
                break;
            case K_LIST:
            case K_PLIST:
                if (r.pct(50)) {
                    d.hasNargs = true;
                    d.nargs = '+';
                }
                else {
                    d.action = A_INFINITE;
                }
                break;
            case K_APP:
                d.action = A_APPEND;
                break;
            case K_EXT:
                d.action = A_EXTEND;
                break;
            case K_APPN:
                d.action = A_APPEND;
                d.hasNargs = true;
                d.nargs = n;
                break;
            case K_EXTN:
                d.action = A_EXTEND;
                d.hasNargs = true;
                d.nargs = n;
                break;
            default:
                d.action = A_INFINITE;
                d.hasNargs = true;
                d.nargs = n;
                break;
        }
        d.hasAction = d.action != A_NONE;
        d.required = r.pct(p.required);
        const bool values = takesValue(kind) || isPos(kind);
        if (values && r.pct(p.defaults)) {
            long c = 1;
            if (kind == K_NUM || kind == K_PN) {
                c = d.nargs;
            }
            else if (isGroups(kind)) {
                c = d.nargs * r.range(1, 3);
            }
            else if (isFlat(kind)) {
                c = r.range(1, r.pct(p.big) ? 40 : 4);
            }
            for (long i = 0; i < c; ++i) {
                if (r.pct(p.numeric)) {
                    d.defaults.push_back(numberText(r, p.tame));
                }
                else if (!p.tame && r.pct(p.weird / 2)) {
                    static const char* const k[] = {"", "-", "--", "-a", "--alpha", "a b", "k=v", "x, y", "(z)"};
                    d.defaults.push_back(k[r.below(9)]);
                }
                else {
                    d.defaults.push_back("D" + std::to_string(d.h) + "." + std::to_string(i));
                }
            }
        }
        if (p.idle && !isPos(kind) && !values && r.pct(p.idle)) {
            for (int i = r.range(1, 3); i > 0; --i) {
                d.defaults.push_back("D" + std::to_string(d.h) + "." + std::to_string(i));
            }
        }
        if (r.pct(p.help)) {
            d.help = words(r, 12, true);
        }
        if (r.pct(p.metavar)) {
            d.metavar = r.pct(30) ? "VERY_LONG_VALUE_NAME" : r.pct(50) ? "N" : "A B";
        }
        if (r.pct(p.valid)) {
            addRandomValid(r, d, true);
            if (p.throws && r.pct(p.throws)) {
                d.valid.n = V_FOREIGN;
                d.valid.s.clear();
                d.valid.s.push_back("thrown " + std::to_string(r.below(100)));
                d.valid.s.push_back(kThrown[r.below(kThrownKinds)]);
                d.valid.v.resize(d.valid.v.size() > 1 ? 0 : d.valid.v.size());
            }
        }
        if (r.pct(p.dest)) {
            addRandomDest(r, d, p);
            if (p.throws && r.pct(p.throws) && !isBool(d.kind)) {
                d.dest.n = D_USER;
                d.dest.v[1] = 1;
                d.dest.v.push_back(r.range(1, kThrownKinds));
            }
        }
        s.defs.push_back(d);
    }
    // never both help names on options that are not the help (known finding K1)
    if (!help) {
        std::vector<std::pair<Def*, std::string> > taken;
        for (Def& d : s.defs) {
            for (const std::string& n : d.names) {
                if (n == "-h" || n == "--help") {
                    taken.push_back(std::make_pair(&d, n));
                }
            }
        }
        if (taken.size() == 2) {
            Strs& v = taken[1].first->names;
            *std::find(v.begin(), v.end(), taken[1].second) = "--not-help";
        }
    }
    // every option can be written in the alternative mode, where "-x" is "--x" when there is one
    for (Def& d : s.defs) {
        bool writable = !s.alt || d.pos();
        for (const std::string& n : d.names) {
            const Def* o = n.size() == 2 ? s.byName("-" + n) : nullptr;
            writable = writable || !o || o == &d;
        }
        if (!writable) {
            d.names.push_back("--other" + std::to_string(d.h));
        }
    }
    if (r.pct(p.texts)) {
        if (r.pct(60)) {
            Op o(OP_DESC);
            o.s.push_back(words(r, 25, true));
            s.texts.push_back(o);
        }
        if (r.pct(60)) {
            Op o(OP_EPILOG);
            o.s.push_back(words(r, 25, true));
            s.texts.push_back(o);
        }
        if (r.pct(50)) {
            Op o(OP_WIDTH);
            o.v.push_back(r.below(5));
            o.v.push_back(r.pct(20) ? r.range(1, 6) : r.range(8, 30));
            o.v.push_back(r.below(5));
            o.v.push_back(r.pct(20) ? r.range(1, 10) : r.range(15, 70));
            s.texts.push_back(o);
        }
        if (r.pct(40)) {
            Op o(OP_SETVERSION);
            o.s.push_back(r.pct(20) ? "" : "1.2." + std::to_string(r.below(50)) + (r.pct(20) ? "\nbuild 7" : ""));
            s.texts.push_back(o);
        }
        if (r.pct(35)) {
            Op o(OP_SETBIN);
            o.s.push_back(r.pct(30) ? "/usr/bin/tool" : r.pct(30) ? "a-rather-long-binary-name" : "tool");
            s.texts.push_back(o);
        }
        if (r.pct(8)) {
            Op o(OP_USAGE);
            o.s.push_back("my own usage\n" + words(r, 10, true));
            s.texts.push_back(o);
        }
    }
    return s;
}

std::vector<Op> defOps(const Def& d, Rng* ls) {
    std::vector<Op> v;
    auto style = [&]() { return ls ? ls->below(10) : 0; };
    Op add(OP_ADD, d.h, style());
    std::size_t inAdd = d.names.size();
    if (ls && !d.pos() && inAdd > 1 && ls->pct(50)) {
        inAdd = static_cast<std::size_t>(ls->range(1, static_cast<int>(inAdd)));
    }
    add.s.assign(d.names.begin(), d.names.begin() + static_cast<long>(inAdd));
    v.push_back(add);
    for (std::size_t i = inAdd; i < d.names.size(); ++i) {
        Op o(OP_FLAG, d.h);
        o.s.push_back(d.names[i]);
        v.push_back(o);
    }
    if (d.hasAction) {
        v.push_back(Op(OP_ACTION, d.h, d.action));
    }
    if (d.hasNargs) {
        v.push_back(Op(OP_NARGS, d.h, d.nargs));
    }
    if (d.required) {
        v.push_back(Op(OP_REQUIRED, d.h, 1));
    }
    if (!d.defaults.empty()) {
        Op o(OP_DEFAULTS, d.h, style());
        o.s = d.defaults;
        v.push_back(o);
    }
    if (!d.help.empty()) {
        Op o(OP_HELP, d.h);
        o.s.push_back(d.help);
        v.push_back(o);
    }
    if (!d.metavar.empty()) {
        Op o(OP_METAVAR, d.h);
        o.s.push_back(d.metavar);
        v.push_back(o);
    }
    if (d.hasValid) {
        Op o = d.valid;
        o.k = OP_VALID;
        o.h = d.h;
        v.push_back(o);
    }
    if (d.hasDest) {
        Op o = d.dest;
        o.k = OP_DEST;
        o.h = d.h;
        v.push_back(o);
    }
    return v;
}

std::vector<Op> modeOps(const Spec& s) {
    std::vector<Op> v;
    if (s.alt) {
        v.push_back(Op(OP_ALT, -1, 1));
    }
    if (s.strict) {
        v.push_back(Op(OP_STRICT, -1, 1));
    }
    if (s.helpExc) {
        v.push_back(Op(OP_HELPEXC, -1, 1));
    }
    if (s.verExc) {
        v.push_back(Op(OP_VEREXC, -1, 1));
    }
    v.insert(v.end(), s.texts.begin(), s.texts.end());
    return v;
}

void emit(const Spec& s, Script& out, Rng* ls) {
    std::vector<Op> m = modeOps(s);
    std::size_t at = ls ? static_cast<std::size_t>(ls->below(static_cast<int>(m.size()) + 1)) : m.size();
    out.ops.insert(out.ops.end(), m.begin(), m.begin() + static_cast<long>(at));
    for (const Def& d : s.defs) {
        std::vector<Op> v = defOps(d, ls);
        out.ops.insert(out.ops.end(), v.begin(), v.end());
    }
    out.ops.insert(out.ops.end(), m.begin() + static_cast<long>(at), m.end());
}

void addRandomValid(Rng& r, Def& d, bool recorders) {
    d.hasValid = true;
    Op o(OP_VALID, d.h);
    int k = r.below(recorders ? 100 : 60);
    if (k < 10) {
        o.n = V_NUMBER;
    }
    else if (k < 20) {
        o.n = V_MINMAX;
        o.s.push_back(std::to_string(r.range(-10, 60)));
        o.s.push_back(std::to_string(r.range(-10, 60)));
    }
    else if (k < 30) {
        o.n = V_CHOICE;
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            o.s.push_back("v" + std::to_string(r.below(20)));
        }
    }
    else if (k < 72) {
        o.n = V_PASS;
    }
    else if (k < 80) {
        o.n = V_FALSE;
        if (r.pct(30)) { // changes the values before it rejects them
            o.s.push_back("T:");
            o.s.push_back("all");
        }
    }
    else if (k < 87) {
        o.n = V_THROW;
        o.s.push_back("no " + std::to_string(r.below(9)));
        if (r.pct(30)) {
            o.s.push_back("all");
        }
    }
    else if (k < 97) {
        o.n = V_TRANSFORM;
        o.s.push_back(r.pct(40) ? std::to_string(r.range(1, 9)) : "T:");
        if (r.pct(60)) {
            static const char* const m[] = {"first", "last", "odd", "reverse", "empty", "same", "shorter", "none", "longer"};
            o.s.push_back(m[r.below(9)]);
        }
    }
    else {
        o.n = V_FOREIGN;
        o.s.push_back("foreign");
    }
    if (o.n == V_CHOICE) {
        o.v.push_back(1);
        o.v.push_back(r.below(10));
    }
    else if (r.pct(25)) {
        o.v.push_back(r.below(2));
    }
    d.valid = o;
}

void addRandomDest(Rng& r, Def& d, const Profile& p) {
    d.hasDest = true;
    Op o(OP_DEST, d.h);
    long c = isGroups(d.kind) ? 2 : isFlat(d.kind) ? 1 : 0;
    if (r.pct(15)) { // a container of another shape: one element, rows of one, groups in a row
        c = c == 0 ? r.range(1, 2) : c == 1 ? 2 : 1;
    }
    static const int num[] = {D_BOOL, D_CHAR, D_UCHAR, D_SHORT, D_USHORT, D_INT, D_UINT, D_LONG, D_ULONG, D_LLONG, D_ULLONG, D_FLOAT, D_DOUBLE, D_LDOUBLE};
    static const int txt[] = {D_STRING, D_CSTR, D_USER};
    static const int arr[] = {D_ARR1, D_ARR4, D_ARR5, D_ARR6, D_ARR8, D_ARR64};
    bool custom = false;
    if (p.numeric >= 60 && r.pct(60)) {
        o.n = num[r.below(14)];
    }
    else if (c == 0 && r.pct(30)) {
        o.n = arr[r.below(6)];
    }
    else {
        o.n = txt[r.below(3)];
        custom = o.n == D_USER;
    }
    if (o.n != D_USER && customBase(o.n)) { // a conversion instead of the usual one
        custom = r.pct(25);
    }
    if (isBool(d.kind) && r.pct(50)) {
        o.n = r.pct(60) ? D_BOOL : num[r.below(14)];
        custom = false;
    }
    if (r.pct(p.noConversion)) {
        o.n = D_USER;
        custom = false;
    }
    o.v.push_back(c);
    o.v.push_back(custom);
    o.v.push_back(c && r.pct(20) ? r.range(1, 3) : 0);
    d.dest = o;
}

// ---------------------------------------------------------------- values
static bool knownShort(const Spec& s, char c) {
    return s.known(std::string("-") + c);
}

static bool dashy(const std::string& v) {
    return v.size() >= 2 && v[0] == '-';
}

// certainly not recognised as an option (a subset)
static bool surelyPlain(const Spec& s, const std::string& v) {
    if (!dashy(v)) {
        return true;
    }
    std::string name = v.substr(0, v.find('='));
    if (name[1] == '-') {
        return v.size() > 2 && !s.known(name);
    }
    if (s.alt && s.known("-" + name)) {
        return false;
    }
    return name.size() > 1 && !knownShort(s, name[1]);
}

bool Values::ok(Where w, const std::string& v, bool again) const {
    if (!again && used_.count(v)) {
        return false;
    }
    switch (w) {
        case INLINE:
            return true;
        case GLUED:
            return !v.empty() && v.find('=') == std::string::npos;
        case FIXED:
            return v != "--";
        case OPEN:
            return v != "--" && surelyPlain(s_, v);
        case FREE_FIRST:
            return !dashy(v);
        default:
            return true;
    }
}

std::string Values::raw(Where w) {
    const std::string id = std::to_string(++id_);
    if (r_.pct(p_.numeric)) {
        return numberText(r_, p_.tame);
    }
    if (!r_.pct(p_.weird)) {
        return "v" + id;
    }
    Strs sh = s_.shortFlags(), lo = s_.longFlags();
    switch (r_.below(16)) {
        case 0:
            return "k" + id + "=x";
        case 1:
            return "=" + id;
        case 2:
            return id + "==";
        case 3:
            return r_.pct(50) ? "" : "-";
        case 4:
            return "a b\t" + id;
        case 5:
            return "\xc3\xa9\xff\x01" + id;
        case 6:
        {
            static const int k[] = {15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 5000};
            std::string t = id;
            const std::size_t n = static_cast<std::size_t>(k[r_.below(r_.pct(80) ? 11 : 16)]);
            return t.size() < n ? std::string(n - t.size(), 'L') + t : t;
        }
        case 7:
            return "-" + id;
        case 8:
            return "--nope" + id;
        case 9: { // nearly a long flag
            if (lo.empty()) {
                return "--alph" + id;
            }
            std::string f = r_.pick(lo);
            switch (r_.below(4)) {
                case 0:
                    return f + "x";
                case 1:
                    return f.size() > 4 ? f.substr(0, f.size() - 1) : f + "-" + id;
                case 2:
                    return f.substr(1) + (r_.pct(50) ? "=" + id : "");
                default:
                    return "-" + f;
            }
        }
        case 10:
            return sh.empty() ? "-q" + id : r_.pick(sh) + (r_.pct(50) ? "" : id);
        case 11:
            return lo.empty() ? "--q" : r_.pick(lo) + (r_.pct(50) ? "" : "=" + id);
        case 12:
            return w == OPEN ? "-\xff" + id : "--";
        case 13:
            return std::string("---") + id;
        case 14:
            return "-=" + id;
        default: { // an unknown letter before known ones
            std::string t = "-";
            for (const char* c = kLetters; *c; ++c) {
                if (!knownShort(s_, *c)) {
                    t += *c;
                    break;
                }
            }
            if (!sh.empty()) {
                t += r_.pick(sh)[1];
            }
            return t.size() > 1 ? t : t + "!";
        }
    }
}

std::string Values::make(Where w) {
    if (p_.same && !list_.empty() && r_.pct(p_.same)) {
        std::string v = r_.pct(50) ? list_.back() : r_.pick(list_);
        if (ok(w, v, true)) {
            return v;
        }
    }
    for (int t = 0; t < 30; ++t) {
        std::string v = raw(w);
        if (ok(w, v)) {
            reserve(v);
            return v;
        }
    }
    for (;;) {
        std::string v = "w" + std::to_string(++id_);
        if (ok(w, v)) {
            reserve(v);
            return v;
        }
    }
}

// ---------------------------------------------------------------- lines
static void chooseSpelling(Rng& r, const Spec& s, const Def& d, Item& it, bool respelling) {
    Strs sh, lo;
    for (const std::string& n : d.names) {
        (n.size() == 2 ? sh : lo).push_back(n);
    }
    const bool canInline = it.values.size() == 1 && (d.kind == K_ONE || d.kind == K_LIST || d.kind == K_APP || d.kind == K_EXT);
    // values that can stand alone after the flag
    bool canSep = true;
    for (const std::string& v : it.values) {
        if (v == "--") {
            canSep = false;
        }
        if ((d.kind == K_LIST || d.kind == K_EXT) && !surelyPlain(s, v)) {
            canSep = false;
        }
    }
    for (int t = 0; t < 60; ++t) {
        it.style = canInline ? r.below(5) : (r.pct(70) ? ST_SEP : ST_ALT);
        it.joined = false;
        if ((it.style == ST_SEP || it.style == ST_ALT) && !canSep) {
            continue;
        }
        if (it.style == ST_GLUE) {
            if (sh.empty() || it.values[0].empty() || it.values[0].find('=') != std::string::npos) {
                continue;
            }
            it.flag = r.pick(sh);
            if (s.alt && s.known("-" + it.flag + it.values[0])) {
                continue;
            }
            return;
        }
        if (it.style == ST_ALT || it.style == ST_ALTEQ) {
            if (!s.alt || lo.empty()) {
                continue;
            }
            it.flag = r.pick(lo);
            if (it.flag.size() > 2 && it.flag[2] == '-') {
                continue; // "--" + "-x": its single-dash form is a long option again
            }
            return;
        }
        it.flag = r.pick(d.names);
        if (s.alt && it.flag.size() == 2 && s.byName("-" + it.flag) && s.byName("-" + it.flag) != &d) {
            continue; // with the alternative mode this is the long option
        }
        return;
    }
    (void)respelling;
    it.style = canSep ? ST_SEP : ST_EQ;
    it.flag = d.names.front();
    for (const std::string& n : d.names) {
        if (!s.alt || n.size() > 2 || !s.byName("-" + n)) {
            it.flag = n;
            break;
        }
    }
}

// an open-ended item must be followed by an option or by the end
static bool openEnded(const Spec& s, const Item& it) {
    if (it.type == Item::SEPARATOR || it.h < 0) {
        return false;
    }
    const Def* d = s.byHandle(it.h);
    if (it.type == Item::FREE) {
        return d->kind == K_PLIST || d->kind == K_PLISTN;
    }
    return (it.style == ST_SEP || it.style == ST_ALT) && (d->kind == K_LIST || d->kind == K_EXT || d->kind == K_EXTN);
}

static std::string itemToken(const Item& it) {
    switch (it.style) {
        case ST_EQ:
            return it.flag + "=" + it.values[0];
        case ST_GLUE:
            return it.flag + it.values[0];
        case ST_ALT:
            return it.flag.substr(1);
        case ST_ALTEQ:
            return it.flag.substr(1) + "=" + it.values[0];
        default:
            return it.flag;
    }
}

static void joinSome(Rng& r, const Spec& s, Line& l, int percent) {
    for (std::size_t i = 0; i + 1 < l.items.size(); ++i) {
        Item& a = l.items[i];
        const Item& b = l.items[i + 1];
        if (a.type != Item::OCC || b.type != Item::OCC || !isBool(s.byHandle(a.h)->kind) || a.style != ST_SEP || a.flag.size() != 2) {
            continue;
        }
        if (b.flag.size() != 2 || b.style == ST_ALT || b.style == ST_ALTEQ) {
            continue;
        }
        a.joined = r.pct(percent);
    }
    // with the alternative mode a cluster must not read as a long option
    if (s.alt) {
        for (std::size_t i = 0; i < l.items.size(); ++i) {
            if (!l.items[i].joined) {
                continue;
            }
            std::size_t j = i;
            std::string t = "-";
            while (l.items[j].joined) {
                t += l.items[j].flag[1];
                ++j;
            }
            t += itemToken(l.items[j]).substr(1);
            if (s.known("-" + t.substr(0, t.find('=')))) {
                for (std::size_t k = i; k < j; ++k) {
                    l.items[k].joined = false;
                }
            }
            i = j;
        }
    }
}

Line genLine(Rng& r, const Spec& s, const Profile& p) {
    Values vals(r, s, p);
    for (const Def& d : s.defs) {
        for (const std::string& v : d.defaults) {
            vals.reserve(v);
        }
    }
    std::vector<Item> occ;
    const bool bigLine = r.pct(p.big);
    const int repeat = bigLine && r.pct(50) ? 93 : p.repeat;
    const int many = bigLine ? 60 : 5;
    // more than 256 of one kind of thing
    const bool huge = bigLine && r.pct(8);
    int hugeLeft = huge ? r.range(250, 330) : 0;
    const bool hugeOccurrences = r.pct(60);
    std::size_t tokens = 0;
    for (const Def& d : s.defs) {
        if (d.pos()) {
            continue;
        }
        if (d.kind == K_HELP || d.kind == K_VERSION) {
            if (!r.pct(d.kind == K_HELP ? p.helpToken : p.versionToken)) {
                continue;
            }
        }
        else if (!r.pct(p.give)) {
            continue;
        }
        do {
            Item it;
            it.type = Item::OCC;
            it.h = d.h;
            int n = 0;
            bool open = false;
            switch (d.kind) {
                case K_ONE:
                case K_APP:
                    n = 1;
                    break;
                case K_NUM:
                case K_APPN:
                    n = static_cast<int>(d.nargs);
                    break;
                case K_LIST:
                case K_EXT:
                    n = huge && !hugeOccurrences && hugeLeft ? hugeLeft : r.pct(30) ? 1 : r.below(many);
                    hugeLeft = huge && !hugeOccurrences ? 0 : hugeLeft;
                    open = true;
                    break;
                case K_EXTN:
                    n = static_cast<int>(d.nargs) * r.below(bigLine ? 12 : 3);
                    open = true;
                    break;
                default:
                    break;
            }
            bool inl = n == 1 && d.kind != K_APPN && d.kind != K_NUM && d.kind != K_EXTN && r.pct(60);
            for (int i = 0; i < n; ++i) {
                // groups of an open-ended list: only the first token of a group decides
                bool first = d.kind != K_EXTN || i % d.nargs == 0;
                it.values.push_back(vals.make(inl ? Values::INLINE : open && first ? Values::OPEN : Values::FIXED));
            }
            if (p.same && isGroups(d.kind) && r.pct(p.same)) { // the same group again
                for (std::size_t i = static_cast<std::size_t>(d.nargs); i < it.values.size(); ++i) {
                    it.values[i] = it.values[i - static_cast<std::size_t>(d.nargs)];
                }
            }
            if (p.same && !occ.empty() && occ.back().h == d.h && r.pct(p.same)) { // the same occurrence again
                it.values = occ.back().values;
            }
            chooseSpelling(r, s, d, it, false);
            occ.push_back(it);
            tokens += 1 + it.values.size();
        } while (((hugeOccurrences && hugeLeft-- > 0) || r.pct(repeat)) && tokens < 6000);
    }
    r.shuffle(occ);
    std::vector<const Def*> pos = s.positionals();
    std::size_t nextPos = 0;
    // how many positionals are given, and whether there is something more
    std::size_t given = pos.empty() ? 0 : static_cast<std::size_t>(r.pct(60) ? static_cast<int>(pos.size()) : r.below(static_cast<int>(pos.size()) + 1));
    int extras = (given == pos.size() && !s.strict && r.pct(p.extras)) ? r.range(1, bigLine ? 60 : 4) : 0;
    bool sep = r.pct(p.separator);
    Line l;
    std::size_t o = 0;
    auto freeItem = [&](bool after) {
        Item it;
        it.type = Item::FREE;
        if (nextPos < given) {
            const Def& d = *pos[nextPos++];
            it.h = d.h;
            int n = d.kind == K_P1 ? 1
                    : d.kind == K_PN ? static_cast<int>(d.nargs)
                    : d.kind == K_PLIST ? r.range(1, bigLine ? 60 : 4)
                                        : static_cast<int>(d.nargs) * r.range(1, bigLine ? 12 : 3);
            for (int i = 0; i < n; ++i) {
                Values::Where w = Values::FIXED;
                if (i == 0) {
                    w = Values::FREE_FIRST;
                }
                else if (d.kind == K_PLIST || (d.kind == K_PLISTN && i % d.nargs == 0)) {
                    w = Values::OPEN;
                }
                it.values.push_back(vals.make(after ? Values::AFTER : w));
            }
        }
        else {
            it.h = -1;
            it.values.push_back(vals.make(after ? Values::AFTER : Values::FREE_FIRST));
            --extras;
        }
        l.items.push_back(it);
    };
    bool after = false;
    for (;;) {
        const bool freeLeft = nextPos < given || extras > 0;
        const bool optLeft = o < occ.size();
        const bool mustOpt = !l.items.empty() && !after && openEnded(s, l.items.back());
        if (after) {
            if (!freeLeft) {
                break;
            }
            bool toEnd = nextPos < given && (pos[nextPos]->kind == K_PLIST || pos[nextPos]->kind == K_PLISTN);
            freeItem(true);
            if (toEnd) {
                break; // takes everything that follows
            }
            continue;
        }
        if (!optLeft && sep && (mustOpt || !freeLeft || r.pct(40))) {
            Item it;
            it.type = Item::SEPARATOR;
            l.items.push_back(it);
            after = true;
            continue;
        }
        if (mustOpt) {
            if (!optLeft) {
                break;
            }
            l.items.push_back(occ[o++]);
            continue;
        }
        if (!freeLeft && !optLeft) {
            break;
        }
        if (optLeft && (!freeLeft || r.pct(60))) {
            l.items.push_back(occ[o++]);
        }
        else {
            freeItem(false);
        }
    }
    joinSome(r, s, l, 50);
    return l;
}

void respell(Rng& r, const Spec& s, const Line& in, Line& out) {
    out = in;
    for (std::size_t i = 0; i < out.items.size(); ++i) {
        Item& it = out.items[i];
        it.joined = false;
        if (it.type != Item::OCC) {
            continue;
        }
        const Def& d = *s.byHandle(it.h);
        for (int t = 0; t < 20; ++t) {
            Item n = it;
            chooseSpelling(r, s, d, n, true);
            // an open-ended form must still be followed by an option or the end
            if (openEnded(s, n) && i + 1 < out.items.size() && out.items[i + 1].type == Item::FREE) {
                continue;
            }
            // and an empty list cannot change its form
            it = n;
            break;
        }
    }
    joinSome(r, s, out, 50);
}

Strs render(const Spec& s, const Line& l) {
    Strs out;
    (void)s;
    std::string prefix;
    for (const Item& it : l.items) {
        if (it.type == Item::SEPARATOR) {
            out.push_back("--");
            continue;
        }
        if (it.type == Item::FREE) {
            out.insert(out.end(), it.values.begin(), it.values.end());
            continue;
        }
        if (it.joined) {
            prefix += it.flag[1];
            continue;
        }
        std::string t = itemToken(it);
        if (!prefix.empty()) {
            t = "-" + prefix + t.substr(1);
            prefix.clear();
        }
        out.push_back(t);
        if (it.style == ST_SEP || it.style == ST_ALT) {
            out.insert(out.end(), it.values.begin(), it.values.end());
        }
    }
    return out;
}

Truth truthOf(const Spec& s, const Line& l) {
    Truth t;
    for (const Item& it : l.items) {
        if (it.type == Item::SEPARATOR) {
            continue;
        }
        if (it.h < 0) {
            t.additional.insert(t.additional.end(), it.values.begin(), it.values.end());
            continue;
        }
        const Def& d = *s.byHandle(it.h);
        ArgTruth& a = t.args[it.h];
        a.exists = true;
        ++a.count;
        if (d.kind == K_ONE || d.kind == K_NUM || d.kind == K_LIST) {
            a.flat.clear();
        }
        if (isGroups(d.kind)) {
            for (std::size_t i = 0; i + 1 <= it.values.size(); i += static_cast<std::size_t>(d.nargs)) {
                a.groups.push_back(Strs(it.values.begin() + static_cast<long>(i), it.values.begin() + static_cast<long>(i) + d.nargs));
            }
        }
        a.flat.insert(a.flat.end(), it.values.begin(), it.values.end());
    }
    return t;
}

// ---------------------------------------------------------------- bad lines
static std::string unknownToken(Rng& r, const Spec& s) {
    Strs sh = s.shortFlags(), lo = s.longFlags();
    switch (r.below(7)) {
        case 0:
            return "--unknown";
        case 1:
            return "--unknown=x";
        case 2: {
            for (const char* c = kLetters; *c; ++c) {
                if (!knownShort(s, *c)) {
                    return std::string("-") + *c + (r.pct(40) ? "v" : "");
                }
            }
            return "-!";
        }
        case 3: { // known letters with an unknown one
            std::string t = "-";
            Strs flags;
            for (const Def& d : s.defs) {
                for (const std::string& n : d.names) {
                    if (n.size() == 2 && (d.kind == K_TRUE || d.kind == K_FALSE)) {
                        flags.push_back(n);
                    }
                }
            }
            for (int i = r.range(1, 4); i > 0; --i) {
                t += sh.empty() ? 'q' : flags.empty() || r.pct(15) ? r.pick(sh)[1] : r.pick(flags)[1];
            }
            t.insert(r.pct(70) ? t.size() : static_cast<std::size_t>(r.range(1, static_cast<int>(t.size()))), 1, r.pct(70) ? '!' : '~');
            return t + (r.pct(15) ? "=e" : "");
        }
        case 4:
            return lo.empty() ? "--x" : r.pick(lo) + "x";
        case 5:
            return lo.empty() ? "-x" : r.pick(lo).substr(1);
        default:
            return lo.empty() ? "---" : r.pick(lo).substr(0, static_cast<std::size_t>(r.range(3, 4)));
    }
}

static std::string optionToken(Rng& r, const Spec& s) {
    Strs sh = s.shortFlags(), lo = s.longFlags();
    std::string t;
    if (!sh.empty() && (lo.empty() || r.pct(60))) {
        t = r.pick(sh);
        int n = r.pct(35) ? r.range(1, 3) : 0;
        for (int i = 0; i < n; ++i) {
            t += r.pick(sh)[1];
        }
    }
    else if (!lo.empty()) {
        t = r.pick(lo);
        if (r.pct(s.alt ? 40 : 10)) {
            t = t.substr(1);
        }
    }
    else {
        t = "--none";
    }
    if (r.pct(25)) {
        t += "=" + (r.pct(15) ? std::string() : "e" + std::to_string(r.below(90)));
    }
    return t;
}

Strs spoil(Rng& r, const Spec& s, const Strs& good) {
    Strs l = good;
    int n = r.pct(70) ? 1 : 2;
    for (int i = 0; i < n; ++i) {
        const int at = r.below(static_cast<int>(l.size()) + 1);
        switch (r.below(9)) {
            case 0:
                l.insert(l.begin() + at, unknownToken(r, s));
                break;
            case 1: // drop the end
                l.resize(static_cast<std::size_t>(at));
                break;
            case 2:
                if (!l.empty()) {
                    l.erase(l.begin() + r.below(static_cast<int>(l.size())));
                }
                break;
            case 3: { // a value for something, perhaps without one
                if (!l.empty()) {
                    l[static_cast<std::size_t>(r.below(static_cast<int>(l.size())))] += r.pct(50) ? "=z" : "=";
                }
                break;
            }
            case 4:
                l.insert(l.begin() + at, optionToken(r, s));
                break;
            case 5:
                if (l.size() > 1) {
                    std::swap(l[static_cast<std::size_t>(r.below(static_cast<int>(l.size())))],
                              l[static_cast<std::size_t>(r.below(static_cast<int>(l.size())))]);
                }
                break;
            case 6:
                l.insert(l.begin() + at, "--");
                break;
            case 7:
                l.push_back(optionToken(r, s));
                break;
            default:
                l.insert(l.begin() + at, "x" + std::to_string(r.below(100)));
                break;
        }
    }
    return l;
}

Strs soup(Rng& r, const Spec& s, int maxTokens) {
    Strs l;
    Profile p;
    p.weird = 60;
    Values v(r, s, p);
    int n = r.below(maxTokens + 1);
    for (int i = 0; i < n; ++i) {
        int k = r.below(100);
        if (k < 45) {
            l.push_back(optionToken(r, s));
        }
        else if (k < 52) {
            l.push_back(unknownToken(r, s));
        }
        else if (k < 55) {
            l.push_back("--");
        }
        else if (k < 57) {
            l.push_back(r.pct(50) ? "-h" : "--help");
        }
        else {
            l.push_back(v.make(Values::AFTER));
        }
    }
    return l;
}

std::string hostileText(Rng& r, int maxLen) {
    std::string s;
    int n = r.pct(10) ? r.below(maxLen) : r.below(9);
    for (int i = 0; i < n; ++i) {
        int k = r.below(10);
        s += k < 3 ? '-' : k < 5 ? '=' : k < 8 ? static_cast<char>(kLetters[r.below(30)]) : static_cast<char>(1 + r.below(255));
    }
    return s;
}

Op parseOp(const Strs& line, const std::string& prog) {
    Op o(OP_PARSE);
    o.s.push_back(prog);
    o.s.insert(o.s.end(), line.begin(), line.end());
    return o;
}
