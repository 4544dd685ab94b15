#include "model.h"

#include <sys/stat.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sstream>

namespace model {

const char* kindName(int k) {
    static const char* const n[] = {"help",   "version", "store_true", "store_false", "one", "number", "infinite", "append",
                                    "extend", "append_n", "extend_n",   "pos",         "pos_n", "pos_infinite", "pos_groups"};
    return k >= 0 && k < K_COUNT ? n[k] : "?";
}

static bool digit(char c) {
    return c >= '0' && c <= '9';
}

static bool space(char c) {
    return c == ' ' || (c >= '\t' && c <= '\r');
}

// length of the decimal number at p (0: none), sets `inc` when an exponent is incomplete
static std::size_t numberLength(const char* p, bool* inc) {
    std::size_t i = 0, digits = 0;
    *inc = false;
    if (p[i] == '+' || p[i] == '-') {
        ++i;
    }
    while (digit(p[i])) {
        ++i;
        ++digits;
    }
    if (p[i] == '.') {
        ++i;
        while (digit(p[i])) {
            ++i;
            ++digits;
        }
    }
    if (digits == 0) {
        return 0;
    }
    if (p[i] == 'e' || p[i] == 'E') {
        std::size_t j = i + 1;
        if (p[j] == '+' || p[j] == '-') {
            ++j;
        }
        if (!digit(p[j])) {
            *inc = true;
            return i;
        }
        while (digit(p[j])) {
            ++j;
        }
        i = j;
    }
    return i;
}

bool leadingNumber(const std::string& s, double* d) {
    const char* p = s.c_str();
    while (space(*p)) {
        ++p;
    }
    bool inc;
    std::size_t n = numberLength(p, &inc);
    if (n == 0) {
        return false;
    }
    *d = std::strtod(std::string(p, n).c_str(), NULL);
    return true;
}

bool trickyNumber(const std::string& s) {
    const char* p = s.c_str();
    while (space(*p)) {
        ++p;
    }
    const char* q = p;
    if (*q == '+' || *q == '-') {
        ++q;
    }
    // inf, nan, hexadecimal
    if (*q == 'i' || *q == 'I' || *q == 'n' || *q == 'N') {
        return true;
    }
    if (q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) {
        return true;
    }
    bool inc;
    std::size_t n = numberLength(p, &inc);
    if (n == 0) {
        return false;
    }
    if (inc || n > 40) {
        return true;
    }
    double d = std::strtod(std::string(p, n).c_str(), NULL);
    if (!std::isfinite(d) || std::fabs(d) > 1e300 || (d != 0 && std::fabs(d) < 1e-300)) {
        return true;
    }
    return false;
}

Strs Arg::all() const {
    if (isSingle(kind)) {
        return Strs(1, one);
    }
    if (isFlat(kind)) {
        return flat;
    }
    Strs r;
    if (isGroups(kind)) {
        for (const Strs& g : groups) {
            r.insert(r.end(), g.begin(), g.end());
        }
    }
    return r;
}

std::string Arg::text() const {
    if (kind == K_TRUE) {
        return exists ? "true" : "false";
    }
    if (kind == K_FALSE) {
        return exists ? "false" : "true";
    }
    if (isFlat(kind)) {
        std::string r;
        for (std::size_t i = 0; i < flat.size(); ++i) {
            r += (i ? ", " : "") + flat[i];
        }
        return r;
    }
    if (isGroups(kind)) {
        std::string r;
        for (std::size_t i = 0; i < groups.size(); ++i) {
            r += i ? ", (" : "(";
            for (std::size_t j = 0; j < groups[i].size(); ++j) {
                r += (j ? ", " : "") + groups[i][j];
            }
            r += ")";
        }
        return r;
    }
    return one;
}

// ---------------------------------------------------------------- usage text
static Strs wrap(const std::string& text, std::size_t width) {
    Strs lines;
    std::size_t pos = 0;
    if (text.empty()) {
        return lines;
    }
    while (pos <= text.size()) {
        std::size_t nl = text.find('\n', pos);
        bool last = nl == std::string::npos;
        if (last && pos == text.size()) {
            break; // nothing after the final newline
        }
        std::string rest = text.substr(pos, last ? std::string::npos : nl - pos);
        for (;;) {
            if (rest.size() < width) {
                break;
            }
            // last space at or before the width
            std::size_t cut = std::string::npos;
            for (std::size_t i = std::min(width, rest.size() - 1) + 1; i-- > 0 && !rest.empty();) {
                if (rest[i] == ' ') {
                    cut = i;
                    break;
                }
            }
            if (rest.empty() || cut == std::string::npos) {
                break;
            }
            lines.push_back(rest.substr(0, cut));
            std::size_t k = cut;
            while (k < rest.size() && rest[k] == ' ') {
                ++k;
            }
            rest = rest.substr(k);
        }
        lines.push_back(rest);
        if (last) {
            break;
        }
        pos = nl + 1;
    }
    return lines;
}

static std::string valueName(const Arg& a) {
    if (!a.metavar.empty()) {
        return a.metavar;
    }
    std::string base;
    for (const std::string& n : a.names) {
        if (n[0] == '-' && n[1] == '-') {
            base = n.substr(2);
            break;
        }
    }
    if (base.empty()) {
        base = a.names.front().substr(1);
    }
    for (char& c : base) {
        if (c >= 'a' && c <= 'z') {
            c = static_cast<char>(c - 'a' + 'A');
        }
    }
    if (a.action == A_INFINITE || a.nargs == '+') {
        return base + "...";
    }
    std::string r = base;
    for (std::size_t i = 1; i < a.nargs; ++i) {
        r += " " + base;
    }
    return r;
}

std::string usageText(const State& st) {
    if (!st.usage.empty()) {
        return st.usage;
    }
    const std::size_t total = st.w[0] + st.w[1] + st.w[2] + st.w[3];
    std::size_t slash = st.bin.rfind('/');
    std::string head = "usage: " + (slash == std::string::npos ? st.bin : st.bin.substr(slash + 1));
    std::string out = head;
    std::size_t col = head.size();
    const std::string indent(head.size() + 1, ' ');
    bool multi = false, opts = false, poss = false;
    auto put = [&](const std::string& word) {
        if (col + word.size() >= total) {
            out += "\n" + indent + word;
            col = head.size() + word.size() + 1;
            multi = true;
        }
        else {
            out += " " + word;
            col += word.size() + 1;
        }
    };
    for (const Arg& a : st.args) {
        if (a.pos()) {
            poss = true;
            continue;
        }
        opts = true;
        std::string w = a.names.front();
        if (takesValue(a.kind)) {
            w += " " + valueName(a);
        }
        put(a.required ? w : "[" + w + "]");
    }
    if (opts && poss) {
        if (multi || col + 3 >= total) {
            out += "\n" + indent + "--\n" + std::string(head.size(), ' ');
            col = head.size();
        }
        else {
            out += " --";
            col += 3;
        }
    }
    for (const Arg& a : st.args) {
        if (!a.pos()) {
            continue;
        }
        const std::string& n = a.names.front();
        std::string rep = n;
        for (std::size_t i = 1; i < a.nargs; ++i) {
            rep += " " + n;
        }
        std::string w;
        switch (a.kind) {
            case K_P1:
                w = n;
                break;
            case K_PN:
                w = rep;
                break;
            case K_PLIST:
                w = n + " {" + n + "}...";
                break;
            default:
                w = "{" + rep + "}...";
                break;
        }
        put(a.required ? w : "[" + w + "]");
    }
    auto para = [&](const std::string& text) {
        if (text.empty()) {
            return;
        }
        out += "\n";
        for (const std::string& l : wrap(text, total)) {
            out += "\n" + l;
        }
    };
    para(st.desc);
    auto entry = [&](const Arg& a, const std::string& left) {
        out += std::string(st.w[0], ' ') + left;
        if (left.size() <= st.w[1]) {
            out += std::string(st.w[1] + st.w[2] - left.size(), ' ');
        }
        else {
            out += "\n" + std::string(st.w[0] + st.w[1] + st.w[2], ' ');
        }
        std::string help = a.help;
        if (a.required) {
            help += " (required)";
        }
        else if (!a.def.empty()) {
            help += " (default: " + a.def + ")";
        }
        Strs lines = wrap(help, st.w[3]);
        for (std::size_t i = 0; i < lines.size(); ++i) {
            if (i) {
                out += "\n" + std::string(st.w[0] + st.w[1] + st.w[2], ' ');
            }
            out += lines[i];
        }
    };
    if (poss) {
        out += "\n\npositional arguments:\n";
        bool first = true;
        for (const Arg& a : st.args) {
            if (a.pos()) {
                if (!first) {
                    out += "\n";
                }
                first = false;
                entry(a, a.names.front());
            }
        }
    }
    if (opts) {
        out += "\n\noptional arguments:\n";
        bool first = true;
        for (const Arg& a : st.args) {
            if (!a.pos()) {
                if (!first) {
                    out += "\n";
                }
                first = false;
                std::string left;
                for (std::size_t i = 0; i < a.names.size(); ++i) {
                    left += (i ? ", " : "") + a.names[i];
                }
                if (takesValue(a.kind)) {
                    left += " " + valueName(a);
                }
                entry(a, left);
            }
        }
    }
    para(st.epilog);
    return out;
}

// ---------------------------------------------------------------- destinations
static std::string numText(long double v) {
    char b[80];
    std::snprintf(b, sizeof b, "%.21Lg", v);
    return b;
}

static bool intRange(int base, long double* lo, long double* hi) {
    switch (base) {
        case D_CHAR:
            *lo = std::numeric_limits<char>::min();
            *hi = std::numeric_limits<char>::max();
            return true;
        case D_UCHAR:
            *lo = 0;
            *hi = 255;
            return true;
        case D_SHORT:
            *lo = -32768;
            *hi = 32767;
            return true;
        case D_USHORT:
            *lo = 0;
            *hi = 65535;
            return true;
        case D_INT:
            *lo = -2147483648.0L;
            *hi = 2147483647.0L;
            return true;
        case D_UINT:
            *lo = 0;
            *hi = 4294967295.0L;
            return true;
        case D_LONG:
        case D_LLONG:
            *lo = -9007199254740992.0L;
            *hi = 9007199254740992.0L;
            return true;
        case D_ULONG:
        case D_ULLONG:
            *lo = 0;
            *hi = 9007199254740992.0L;
            return true;
        default:
            return false;
    }
}

bool fits(int base, const std::string& s) {
    double d = std::strtod(s.c_str(), NULL);
    if (trickyNumber(s) || !std::isfinite(d)) {
        return false;
    }
    long double lo, hi;
    if (intRange(base, &lo, &hi)) {
        return std::trunc(static_cast<long double>(d)) >= lo && std::trunc(static_cast<long double>(d)) <= hi;
    }
    if (base == D_FLOAT) {
        return std::fabs(d) < 1e37 && (d == 0 || std::fabs(d) > 1e-30);
    }
    return true;
}

static std::size_t arraySize(int base) {
    switch (base) {
        case D_ARR1:
            return 1;
        case D_ARR4:
            return 4;
        case D_ARR5:
            return 5;
        case D_ARR6:
            return 6;
        case D_ARR8:
            return 8;
        case D_ARR64:
            return 64;
        default:
            return 0;
    }
}

std::string convText(int base, const std::string& s) {
    double d = 0;
    if (!leadingNumber(s, &d)) {
        d = 0;
    }
    long double lo, hi;
    if (base == D_BOOL) {
        return numText(d != 0 ? 1 : 0);
    }
    if (intRange(base, &lo, &hi)) {
        return numText(std::trunc(static_cast<long double>(d)) + 0.0L);
    }
    if (base == D_FLOAT) {
        return numText(static_cast<float>(d));
    }
    if (base == D_DOUBLE || base == D_LDOUBLE) {
        return numText(d);
    }
    std::size_t n = arraySize(base);
    if (n) {
        return '"' + escText(s.substr(0, n - 1)) + '"';
    }
    return '"' + escText(s) + '"';
}

std::string convBool(int base, bool b) {
    if (base == D_STRING || base == D_CSTR || arraySize(base)) {
        return convText(base, b ? "true" : "false");
    }
    return numText(b ? 1 : 0);
}

static std::string startText(int base) {
    if (base == D_STRING || base == D_CSTR) {
        return "\"start\"";
    }
    if (arraySize(base)) {
        return "\"\"";
    }
    if (base == D_USER) {
        return "user#0\"(unset)\"";
    }
    return "1";
}

// what the conversions of the workload make of a value (Custom in real_dest.cpp)
static std::string customText(long base, const std::string& v, int calls) {
    if (base == D_STRING) {
        return "\"c:" + escText(v) + '"';
    }
    if (base == D_INT) {
        return std::to_string(v.size() + 1000);
    }
    return "user#" + std::to_string(calls) + '"' + escText(v) + '"';
}

static std::string priorText(int base) {
    if (base == D_USER) {
        return "user#0\"(unset)\"";
    }
    if (base == D_STRING || base == D_CSTR) {
        return "\"prior\"";
    }
    return "0";
}

// ---------------------------------------------------------------- machine
class Machine {
  public:
    Machine(Script& s, const Options& opt, Obs& o) : s_(s), opt_(opt), o_(o) {}

    void run() {
        universe_ = nameUniverse(s_);
        o_.ops.resize(s_.ops.size());
        for (std::size_t i = 0; i < s_.ops.size(); ++i) {
            step(i);
        }
        cur_ = static_cast<int>(s_.ops.size());
        for (Arg& a : st_.args) {
            dropVal(a);
        }
        for (auto& v : made_) {
            o_.destroyedAtEnd[v] += 0;
        }
    }

    void runTo(std::size_t n) {
        universe_ = nameUniverse(s_);
        o_.ops.resize(s_.ops.size());
        for (std::size_t i = 0; i < n && i < s_.ops.size(); ++i) {
            step(i);
        }
    }

    State st_;

  private:
    Script& s_;
    const Options& opt_;
    Obs& o_;
    int cur_ = -1;
    Strs universe_;
    std::map<int, int> made__;
    std::vector<int> made_;
    Val lent_;
    bool hasLent_ = false;
    struct Box {
        int op, h;
        Dst d;
        std::string scalar;
        std::vector<std::string> rows; // texts of the elements / rows
        int calls = 0;
        int parses = 0;
        bool lastGood = false, gone = false;
    };
    std::vector<Box> boxes_;
    std::set<int> dead_; // handles whose definition failed

    [[noreturn]] void fail(const char* cls, const std::string& arg, const std::string& what, const char* phase = "builder") {
        throw Thrown{cls, arg, what, phase};
    }

    void step(std::size_t i) {
        cur_ = static_cast<int>(i);
        OpResult& r = o_.ops[i];
        r.done = true;
        Op& op = s_.ops[i];
        try {
            perform(op, r);
        }
        catch (const Thrown& t) {
            r.cls = t.cls;
            r.arg = t.arg;
            r.what = t.what;
            r.phase = t.phase;
        }
        if (op.k == OP_PARSE && !r.exited) {
            for (Box& b : boxes_) {
                ++b.parses;
                b.lastGood = r.cls.empty();
            }
        }
        if (!opt_.noSnap && (opt_.snapEveryOp || op.k == OP_PARSE || op.k == OP_OBSERVE)) {
            snapshot(r.snap);
        }
    }

    Arg* byName(const std::string& n) {
        for (Arg& a : st_.args) {
            if (std::find(a.names.begin(), a.names.end(), n) != a.names.end()) {
                return &a;
            }
        }
        return nullptr;
    }

    Arg* byHandle(int h) {
        for (Arg& a : st_.args) {
            if (a.h == h) {
                return &a;
            }
        }
        return nullptr;
    }

    static bool shortFlag(const std::string& f) { return f.size() >= 2 && f[0] == '-' && f[1] != '-'; }

    static bool flagLess(const std::string& a, const std::string& b) {
        bool sa = shortFlag(a), sb = shortFlag(b);
        return sa != sb ? sa : a < b;
    }

    void sortArgs() {
        std::stable_sort(st_.args.begin(), st_.args.end(), [](const Arg& a, const Arg& b) {
            if (a.pos() != b.pos()) {
                return b.pos();
            }
            if (a.required != b.required) {
                return a.required;
            }
            return a.pos() ? false : flagLess(a.names.front(), b.names.front());
        });
    }

    void checkFlag(const std::string& f) {
        if (f.empty() || f[0] != '-') {
            fail("ArgumentException", f, "invalid flag not start by '-' character");
        }
        if (f == "-") {
            fail("ArgumentException", f, "invalid flag not be only '-' character");
        }
        if (f == "--") {
            fail("ArgumentException", f, "invalid flag not be only '--' characters");
        }
        if (f[1] != '-' && f.size() > 2) {
            fail("ArgumentException", f, "invalid short flag has not only one character");
        }
    }

    void add(int h, const Strs& names) {
        if (names.empty()) {
            fail("ArgumentException", "", "invalid empty flag");
        }
        Arg a;
        a.h = h;
        if (names.size() == 1 && (names[0].empty() || names[0][0] != '-')) {
            if (names[0].empty()) {
                fail("ArgumentException", "", "bad name argument");
            }
            if (byName(names[0])) {
                fail("ArgumentException", names[0], "bad name argument already exist");
            }
            a.kind = K_P1;
            a.names = names;
        }
        else {
            for (const std::string& n : names) {
                checkFlag(n);
                if (byName(n)) {
                    fail("ArgumentException", n, "invalid flag already exist");
                }
                if (std::find(a.names.begin(), a.names.end(), n) == a.names.end()) {
                    a.names.push_back(n);
                }
            }
            std::sort(a.names.begin(), a.names.end(), flagLess);
        }
        st_.args.push_back(a);
        sortArgs();
    }

    void setKind(Arg& a) {
        if (a.pos()) {
            if (a.nargs == 1 && a.action == A_NONE) {
                a.kind = K_P1;
            }
            else if ((a.nargs == '+' && a.action == A_NONE) || (a.nargs == 1 && a.action == A_INFINITE)) {
                a.nargs = 1;
                a.action = A_INFINITE;
                a.kind = K_PLIST;
            }
            else if (a.nargs > 1 && a.action == A_NONE) {
                a.kind = K_PN;
            }
            else if (a.nargs > 1 && a.action == A_INFINITE) {
                a.kind = K_PLISTN;
            }
            else {
                fail("ArgumentException", a.names.front(), "positional argument cannot use with this action or this nargs");
            }
            return;
        }
        switch (a.action) {
            case A_FALSE:
                a.nargs = 0;
                a.kind = K_FALSE;
                return;
            case A_HELP:
                if (st_.helpH != -2 && st_.helpH != a.h) {
                    fail("ArgumentException", a.names.front(), "help action already defined");
                }
                st_.helpH = a.h;
                a.nargs = 0;
                a.kind = K_HELP;
                return;
            case A_VERSION:
                if (st_.versionH != -2 && st_.versionH != a.h) {
                    fail("ArgumentException", a.names.front(), "version action already defined");
                }
                st_.versionH = a.h;
                a.nargs = 0;
                a.kind = K_VERSION;
                return;
            default:
                break;
        }
        if (a.nargs == 0 || a.action == A_TRUE) {
            a.nargs = 0;
            a.kind = K_TRUE;
        }
        else if (a.action == A_INFINITE || (a.action == A_NONE && a.nargs == '+')) {
            a.nargs = 1;
            a.action = A_INFINITE;
            a.kind = K_LIST;
        }
        else if (a.action == A_NONE) {
            a.kind = a.nargs == 1 ? K_ONE : K_NUM;
        }
        else if (a.action == A_APPEND) {
            a.kind = a.nargs == 1 ? K_APP : K_APPN;
        }
        else {
            a.kind = a.nargs == 1 ? K_EXT : K_EXTN;
        }
    }

    void forgetDefaults(Arg& a) {
        if (!a.defaults.empty()) {
            a.one.clear();
            a.def.clear();
            a.flat.clear();
            a.groups.clear();
        }
    }

    void setDefaults(Arg& a) {
        if (a.nargs == 0 || a.defaults.empty()) {
            return;
        }
        a.flat.clear();
        a.groups.clear();
        std::size_t n = a.defaults.size();
        bool bad = isGroups(a.kind) ? n % a.nargs != 0 : (isSingle(a.kind) || a.kind == K_NUM || a.kind == K_PN) && n != a.nargs;
        if (bad) {
            fail("ArgumentException", a.names.front(), "invalid number of argument with number of default argument");
        }
        if (isSingle(a.kind)) {
            a.one = a.def = a.defaults.front();
            return;
        }
        if (isGroups(a.kind)) {
            for (std::size_t i = 0; i < n; i += a.nargs) {
                a.groups.push_back(Strs(a.defaults.begin() + i, a.defaults.begin() + i + a.nargs));
            }
        }
        else {
            a.flat = a.defaults;
        }
        a.def = a.text();
    }

    void notConvertible(const Arg& a, int base, const std::string& text) {
        if (base <= D_LDOUBLE && !isBool(a.kind) && !fits(base, text)) {
            o_.vagueDests = true;
        }
    }

    void dropVal(Arg& a) {
        if (a.hasVal && a.val.owned && a.val.kind != V_NULL) {
            ++o_.destroyedAtEnd[a.val.op];
            Event e;
            e.op = cur_;
            e.kind = '~';
            e.opIndex = a.val.op;
            e.handle = a.h;
            o_.events.push_back(e);
        }
        a.hasVal = false;
    }

    void dropArg(std::size_t i) {
        Arg& a = st_.args[i];
        dropVal(a);
        for (Box& b : boxes_) {
            if (b.h == a.h) {
                b.gone = true;
            }
        }
        if (st_.helpH == a.h) {
            st_.helpH = -2;
        }
        if (st_.versionH == a.h) {
            st_.versionH = -2;
        }
        st_.args.erase(st_.args.begin() + i);
    }

    void clearAll() {
        while (!st_.args.empty()) {
            dropArg(0);
        }
        st_ = State();
    }

    void perform(Op& op, OpResult& r) {
        switch (op.k) {
            case OP_ADD:
                dead_.insert(op.h);
                add(op.h, op.s);
                dead_.erase(op.h);
                break;
            case OP_FLAG:
            case OP_ACTION:
            case OP_NARGS:
            case OP_REQUIRED:
            case OP_METAVAR:
            case OP_HELP:
            case OP_DEFAULTS:
            case OP_VALID:
            case OP_DEST:
            case OP_COPY: {
                Arg* a = byHandle(op.h);
                if (!a) {
                    r.done = false;
                    return;
                }
                build(*a, op);
                break;
            }
            case OP_REMOVE: {
                if (op.s.empty()) {
                    fail("ArgumentException", "", "invalid empty flag");
                }
                for (const std::string& n : op.s) {
                    if (!byName(n)) {
                        fail("ArgumentException", n, "argument not found");
                    }
                }
                for (const std::string& n : op.s) {
                    for (std::size_t i = 0; i < st_.args.size(); ++i) {
                        Strs& v = st_.args[i].names;
                        Strs::iterator it = std::find(v.begin(), v.end(), n);
                        if (it == v.end()) {
                            continue;
                        }
                        v.erase(it);
                        if (v.empty()) {
                            dropArg(i);
                        }
                        break;
                    }
                }
                sortArgs();
                break;
            }
            case OP_CLEAR:
                clearAll();
                break;
            case OP_RENEW:
                clearAll();
                break;
            case OP_ALT:
                st_.alt = op.n != 0;
                break;
            case OP_STRICT:
                st_.strict = op.n != 0;
                break;
            case OP_HELPEXC:
                st_.helpExc = op.n != 0;
                break;
            case OP_VEREXC:
                st_.verExc = op.n != 0;
                break;
            case OP_SETVERSION:
                st_.version = op.s[0];
                break;
            case OP_SETBIN:
                st_.bin = op.s[0];
                break;
            case OP_DESC:
                st_.desc = op.s[0];
                break;
            case OP_EPILOG:
                st_.epilog = op.s[0];
                break;
            case OP_USAGE:
                st_.usage = op.s[0];
                break;
            case OP_WIDTH:
                for (int i = 0; i < 4; ++i) {
                    st_.w[i] = static_cast<std::size_t>(op.v[i]);
                }
                break;
            case OP_PARSE: {
                State before = st_;
                std::vector<Box> boxesBefore = boxes_;
                std::size_t eventsBefore = o_.events.size();
                op.n = 0;
                try {
                    Strs argv = op.s;
                    if (!op.v.empty()) {
                        argv.resize(static_cast<std::size_t>(op.v[0]));
                    }
                    parse(argv);
                }
                catch (const Thrown& t) {
                    if (t.cls != "exit") {
                        throw;
                    }
                    // the process ends: nothing is left of this parse
                    r.exited = true;
                    r.status = 0;
                    r.out = t.what + "\n";
                    r.phase = t.phase;
                    op.n = 1;
                    st_ = before;
                    boxes_ = boxesBefore;
                    o_.events.resize(eventsBefore);
                }
                break;
            }
            case OP_GET:
                if (!byName(op.s[0])) {
                    fail("AccessDeniedException", op.s[0], "argument not found");
                }
                break;
            default:
                break;
        }
    }

    void build(Arg& a, const Op& op) {
        if (op.k == OP_ACTION || op.k == OP_NARGS || op.k == OP_DEFAULTS) {
            // texts delivered before are not promised beyond this
            for (Box& b : boxes_) {
                if (b.h == a.h) {
                    b.lastGood = false;
                }
            }
            // a refused declaration changes nothing
            const Arg before = a;
            const int helpH = st_.helpH, versionH = st_.versionH;
            try {
                declare(a, op);
            }
            catch (const Thrown&) {
                a = before;
                st_.helpH = helpH;
                st_.versionH = versionH;
                throw;
            }
            return;
        }
        declare(a, op);
    }

    void declare(Arg& a, const Op& op) {
        switch (op.k) {
            case OP_FLAG:
                if (a.pos()) {
                    fail("ArgumentException", op.s[0], "can't add flag in positionnal argument");
                }
                checkFlag(op.s[0]);
                if (byName(op.s[0])) {
                    fail("ArgumentException", op.s[0], "invalid flag already exist");
                }
                a.names.push_back(op.s[0]);
                std::sort(a.names.begin(), a.names.end(), flagLess);
                sortArgs();
                break;
            case OP_ACTION:
                if (st_.helpH == a.h) {
                    st_.helpH = -2;
                }
                if (st_.versionH == a.h) {
                    st_.versionH = -2;
                }
                forgetDefaults(a);
                a.action = static_cast<int>(op.n);
                setKind(a);
                setDefaults(a);
                break;
            case OP_NARGS:
                forgetDefaults(a);
                a.nargs = static_cast<std::size_t>(op.n);
                setKind(a);
                setDefaults(a);
                break;
            case OP_REQUIRED:
                a.required = op.n != 0;
                sortArgs();
                break;
            case OP_METAVAR:
                a.metavar = op.s[0];
                break;
            case OP_HELP:
                a.help = op.s[0];
                break;
            case OP_DEFAULTS:
                forgetDefaults(a);
                a.defaults = op.s;
                setDefaults(a);
                break;
            case OP_VALID:
                if (op.n == V_SAME) {
                    if (a.hasVal) {
                        a.val.owned = op.v.empty() || op.v[0] != 0;
                    }
                    break;
                }
                dropVal(a);
                if (op.n == V_SHARE) {
                    a.hasVal = hasLent_;
                    a.val = lent_;
                    break;
                }
                a.hasVal = op.n != V_NULL;
                a.val = Val();
                a.val.h = a.h;
                a.val.op = cur_;
                a.val.kind = op.n;
                a.val.owned = op.v.empty() || op.v[0] != 0;
                a.val.s = op.s;
                a.val.mode = op.v.size() > 1 ? op.v[1] : 3;
                if (op.n != V_NULL) {
                    made_.push_back(cur_);
                    if (!a.val.owned) {
                        lent_ = a.val;
                        hasLent_ = true;
                    }
                }
                break;
            case OP_DEST: {
                for (Box& b : boxes_) {
                    if (b.h == a.h) {
                        b.gone = true;
                    }
                }
                a.hasDst = true;
                a.dst = Dst();
                a.dst.op = cur_;
                a.dst.base = op.n;
                a.dst.container = op.v.empty() ? 0 : op.v[0];
                a.dst.custom = op.v.size() > 1 && op.v[1] != 0;
                a.dst.thrown = op.v.size() > 3 ? op.v[3] : 0;
                if (!customBase(a.dst.base)) {
                    a.dst.custom = false;
                }
                Box b;
                b.op = cur_;
                b.h = a.h;
                b.d = a.dst;
                long prior = op.v.size() > 2 ? op.v[2] : 0;
                if (b.d.container == 0) {
                    b.scalar = startText(static_cast<int>(op.n));
                }
                else {
                    for (long i = 0; i < prior; ++i) {
                        std::string p = priorText(static_cast<int>(op.n));
                        if (b.d.container == 2) {
                            p = b.d.custom ? "[]" : "[" + p + "]";
                        }
                        b.rows.push_back(p);
                    }
                }
                boxes_.push_back(b);
                break;
            }
            default:
                break;
        }
    }

    // ------------------------------------------------------------ parse
    // a token as an option: name without value, value when there is a '='
    static void split(const std::string& t, std::string* name, std::string* value, bool* has) {
        std::size_t e = t.find('=');
        *has = e != std::string::npos;
        *name = t.substr(0, e);
        *value = *has ? t.substr(e + 1) : std::string();
    }

    static bool isShort(const std::string& t) { return t.size() >= 2 && t[0] == '-' && t[1] != '-'; }
    static bool isLong(const std::string& t) { return t.size() >= 3 && t[0] == '-' && t[1] == '-'; }

    // kinds whose value may be glued to the letter
    static bool glues(int k) {
        return k == K_ONE || k == K_NUM || k == K_LIST || k == K_APP || k == K_EXT || k == K_APPN;
    }

    bool recognised(const std::string& t) {
        std::string name, value;
        bool has;
        if (isLong(t)) {
            split(t, &name, &value, &has);
            return byName(name) != nullptr;
        }
        if (!isShort(t)) {
            return false;
        }
        split(t, &name, &value, &has);
        if (st_.alt && byName("-" + name)) {
            return true;
        }
        for (std::size_t i = 1; i + 1 < name.size(); ++i) {
            Arg* a = byName(std::string("-") + name[i]);
            if (!a) {
                return false;
            }
            if ((!has && glues(a->kind)) || isBool(a->kind)) {
                return true;
            }
        }
        return byName(std::string("-") + name[name.size() - 1]) != nullptr;
    }

    void occurred(Arg& a) {
        a.exists = true;
        ++a.count;
    }

    // first occurrence on the line replaces the defaults
    static void fresh(Arg& a) {
        if (!a.exists) {
            a.flat.clear();
            a.groups.clear();
        }
    }

    void inlineValue(Arg& a, const std::string& shown, const std::string& v) {
        switch (a.kind) {
            case K_ONE:
                a.one = v;
                break;
            case K_LIST:
                a.flat.assign(1, v);
                break;
            case K_APP:
            case K_EXT:
                fresh(a);
                a.flat.push_back(v);
                break;
            case K_NUM:
            case K_APPN:
            case K_EXTN:
                fail("ParseArgumentException", shown, "option cannot use with only 1 argument", "form");
            default:
                fail("ParseArgumentException", shown, "option cannot use with argument", "form");
        }
        occurred(a);
    }

    // values in the following tokens; i is the option's own index
    void separateValues(Arg& a, const std::string& shown, const Strs& argv, std::size_t end, std::size_t& i) {
        auto take = [&](std::size_t n) {
            if (i + n >= end) {
                fail("ParseArgumentException", shown, "bad number of argument", "form");
            }
            Strs r(argv.begin() + i + 1, argv.begin() + i + 1 + n);
            i += n;
            return r;
        };
        auto open = [&]() {
            Strs r;
            while (i + 1 < end && !recognised(argv[i + 1])) {
                r.push_back(argv[++i]);
            }
            return r;
        };
        switch (a.kind) {
            case K_ONE:
                a.one = take(1)[0];
                break;
            case K_NUM:
                a.flat = take(a.nargs);
                break;
            case K_LIST:
                a.flat = open();
                break;
            case K_APP: {
                fresh(a);
                Strs v = take(1);
                a.flat.insert(a.flat.end(), v.begin(), v.end());
                break;
            }
            case K_EXT: {
                fresh(a);
                Strs v = open();
                a.flat.insert(a.flat.end(), v.begin(), v.end());
                break;
            }
            case K_APPN: {
                fresh(a);
                a.groups.push_back(take(a.nargs));
                break;
            }
            case K_EXTN:
                fresh(a);
                while (i + 1 < end && !recognised(argv[i + 1])) {
                    a.groups.push_back(take(a.nargs));
                }
                break;
            default:
                break;
        }
        occurred(a);
    }

    void use(Arg& a, const std::string& shown, bool has, const std::string& value, const Strs& argv, std::size_t end, std::size_t& i) {
        if (has) {
            inlineValue(a, shown, value);
        }
        else {
            separateValues(a, shown, argv, end, i);
        }
    }

    void shortToken(const Strs& argv, std::size_t end, std::size_t& i) {
        std::string name, value;
        bool has;
        const std::string token = argv[i];
        split(token, &name, &value, &has);
        if (st_.alt) {
            if (Arg* a = byName("-" + name)) {
                use(*a, name.substr(1), has, value, argv, end, i);
                return;
            }
        }
        for (std::size_t k = 1; k < name.size(); ++k) {
            std::string letter(1, name[k]);
            Arg* a = byName("-" + letter);
            if (!a) {
                fail("ParseArgumentException", letter, "invalid option", "form");
            }
            if (k + 1 == name.size()) {
                use(*a, letter, has, value, argv, end, i);
            }
            else if (!has && glues(a->kind)) {
                inlineValue(*a, letter, name.substr(k + 1));
                return;
            }
            else if (!isBool(a->kind)) {
                fail("ParseArgumentException", letter, "only last option can be use a parameter", "form");
            }
            else {
                occurred(*a);
            }
        }
        if (name.size() == 1) {
            fail("ParseArgumentException", "-", "invalid option", "form"); // "-=..."
        }
    }

    void positional(const Strs& argv, std::size_t end, std::size_t& i, bool afterSeparator) {
        Arg* a = nullptr;
        for (Arg& x : st_.args) {
            if (x.pos() && !x.exists) {
                a = &x;
                break;
            }
        }
        if (!a) {
            if (st_.strict) {
                fail("ParseArgumentException", argv[i], "invalid additional argument", "form");
            }
            st_.additional.push_back(argv[i]);
            return;
        }
        auto group = [&](std::size_t from) {
            if (from + a->nargs > end) {
                fail("ParseArgumentException", a->names.front(), "bad number of argument", "form");
            }
            return Strs(argv.begin() + from, argv.begin() + from + a->nargs);
        };
        auto stops = [&](std::size_t at) { return at >= end || (!afterSeparator && recognised(argv[at])); };
        std::size_t next = i;
        switch (a->kind) {
            case K_P1:
                a->one = argv[next++];
                break;
            case K_PN:
                a->flat = group(next);
                next += a->nargs;
                break;
            case K_PLIST:
                a->flat.clear();
                while (!stops(next)) {
                    a->flat.push_back(argv[next++]);
                }
                break;
            default:
                a->groups.clear();
                while (!stops(next)) {
                    a->groups.push_back(group(next));
                    next += a->nargs;
                }
                break;
        }
        a->exists = true;
        i = next - 1;
    }

    void parse(const Strs& argv) {
        for (Arg& a : st_.args) {
            a.exists = false;
            a.parsed = false;
            a.count = 0;
            a.one = a.def;
            a.flat.clear();
            a.groups.clear();
            setDefaults(a);
        }
        st_.additional.clear();
        if (st_.helpH == -2) {
            Strs f;
            if (!byName("-h")) {
                f.push_back("-h");
            }
            if (!byName("--help")) {
                f.push_back("--help");
            }
            if (f.empty()) {
                return; // known finding: such a parser never parses
            }
            add(-1, f);
            Arg* a = byHandle(-1);
            a->action = A_HELP;
            setKind(*a);
            a->help = "show this help message and exit";
        }
        if (st_.bin.empty() && !argv.empty()) {
            st_.bin = argv[0];
        }
        std::size_t end = argv.size();
        for (std::size_t i = 1; i < argv.size(); ++i) {
            if (argv[i] == "--") {
                end = i;
                break;
            }
        }
        std::size_t i = 1;
        for (; i < end; ++i) {
            if (isShort(argv[i])) {
                shortToken(argv, end, i);
            }
            else if (isLong(argv[i])) {
                std::string name, value;
                bool has;
                split(argv[i], &name, &value, &has);
                Arg* a = byName(name);
                if (!a) {
                    fail("ParseArgumentException", name.substr(2), "invalid option", "form");
                }
                use(*a, name.substr(2), has, value, argv, end, i);
            }
            else {
                positional(argv, end, i, false);
            }
        }
        for (i = end + 1; i < argv.size(); ++i) {
            positional(argv, argv.size(), i, true);
        }
        Arg* h = st_.helpH == -2 ? nullptr : byHandle(st_.helpH);
        if (h && h->exists) {
            if (st_.helpExc) {
                fail("HelpException", "", usageText(st_), "help");
            }
            fail("exit", "", usageText(st_), "help");
        }
        Arg* v = st_.versionH == -2 ? nullptr : byHandle(st_.versionH);
        if (v && v->exists) {
            if (st_.verExc) {
                fail("VersionException", "", st_.version, "version");
            }
            fail("exit", "", st_.version, "version");
        }
        for (Arg& a : st_.args) {
            if (a.required && !a.exists) {
                fail("ParseArgumentRequiredException", a.names.front(), a.pos() ? "argument is required" : "option is required", "required");
            }
        }
        for (Arg& a : st_.args) {
            if (a.exists && a.hasVal) {
                validate(a);
            }
            a.parsed = true;
            if (a.hasDst) {
                deliver(a);
            }
        }
    }

    static std::string shortNum(double d) {
        std::ostringstream o;
        o << d;
        return o.str();
    }

    void validate(Arg& a) {
        const std::string& name = a.names.front();
        auto reject = [&](const std::string& w) { fail("ParseArgumentValidException", name, w, "valid"); };
        Strs values = a.all();
        Event e;
        e.op = cur_;
        e.kind = 'V';
        e.handle = a.val.h;
        e.opIndex = a.val.op;
        e.values.push_back(values);
        look(e, a);
        o_.events.push_back(e);
        switch (a.val.kind) {
            case V_FALSE:
                reject("invalid check function");
                break;
            case V_THROW:
                reject(a.val.s.empty() ? "" : a.val.s[0]);
                break;
            case V_FOREIGN:
                userThrows(a.val.s.size() > 1 ? a.val.s[1] : "", a.val.s.empty() ? "" : a.val.s[0], "valid");
            case V_TRANSFORM:
                transformValues(a.val.s[0], a.val.s.size() > 1 ? a.val.s[1] : "", values);
                break;
            case V_NUMBER:
                for (const std::string& v : values) {
                    o_.vague = o_.vague || trickyNumber(v);
                    bool inc;
                    const char* p = v.c_str();
                    while (space(*p)) {
                        ++p;
                    }
                    std::size_t n = numberLength(p, &inc);
                    if (n == 0 || p[n] != '\0') {
                        reject("\"" + v + "\" is not a number");
                    }
                }
                break;
            case V_MINMAX: {
                double lo = std::strtod(a.val.s[0].c_str(), NULL), hi = std::strtod(a.val.s[1].c_str(), NULL);
                if (lo > hi) {
                    std::swap(lo, hi);
                }
                for (const std::string& v : values) {
                    o_.vague = o_.vague || trickyNumber(v);
                    double d;
                    if (!leadingNumber(v, &d)) {
                        reject("\"" + v + "\" is not a number");
                    }
                    if (d < lo || d > hi) {
                        reject(v + " is not between " + shortNum(lo) + " and " + shortNum(hi));
                    }
                }
                break;
            }
            case V_CHOICE: {
                std::string list;
                for (std::size_t i = 0; i < a.val.s.size(); ++i) {
                    list += (i ? ", \"" : "\"") + a.val.s[i] + "\"";
                }
                for (const std::string& v : values) {
                    if (std::find(a.val.s.begin(), a.val.s.end(), v) == a.val.s.end()) {
                        reject("\"" + v + "\" is not a valid choise (" + list + ")");
                    }
                }
                break;
            }
            case V_PATH:
                for (const std::string& v : values) {
                    struct stat sb;
                    if (::stat(v.c_str(), &sb) != 0) {
                        reject("\"" + v + "\" is not a valid path");
                    }
                    if (a.val.mode == 2 && !S_ISDIR(sb.st_mode)) {
                        reject("\"" + v + "\" is not a valid directory");
                    }
                    if (a.val.mode == 1 && !S_ISREG(sb.st_mode)) {
                        reject("\"" + v + "\" is not a valid file");
                    }
                }
                break;
            default:
                break;
        }
        if (isSingle(a.kind)) {
            a.one = values.empty() ? a.one : values[0];
        }
        else if (isFlat(a.kind)) {
            for (std::size_t i = 0; i < a.flat.size() && i < values.size(); ++i) {
                a.flat[i] = values[i];
            }
        }
        else if (isGroups(a.kind)) {
            std::size_t k = 0;
            for (Strs& g : a.groups) {
                for (std::string& x : g) {
                    if (k < values.size()) {
                        x = values[k++];
                    }
                }
            }
        }
        else {
            reject("invalid type option for use valid");
        }
    }

    [[noreturn]] void userThrows(const std::string& kind, const std::string& text, const char* phase) {
        static const char* const lib[][2] = {{"help", "HelpException"}, {"version", "VersionException"}, {"argument", "ArgumentException"},
            {"required", "ParseArgumentRequiredException"}, {"parse", "ParseArgumentException"}, {"access", "AccessDeniedException"}};
        for (const auto& l : lib) {
            if (kind == l[0]) {
                fail(l[1], kind == "help" || kind == "version" ? "" : "user", text, phase);
            }
        }
        if (kind == "int") {
            fail("int", "", "42", phase);
        }
        if (kind == "alloc") {
            fail("std::bad_alloc", "", "", phase);
        }
        static const char* const other[][2] = {{"range_error", "std::range_error"}, {"overflow", "std::overflow_error"}, {"underflow", "std::underflow_error"},
            {"invalid", "std::invalid_argument"}, {"length", "std::length_error"}, {"domain", "std::domain_error"}, {"valid_base", "UserError"},
            {"text", "std::string"}};
        for (const auto& l : other) {
            if (kind == l[0]) {
                fail(l[1], "", text, phase);
            }
        }
        if (kind == "range" || kind == "cast" || kind == "failure") {
            fail(kind == "range" ? "std::out_of_range" : kind == "cast" ? "std::bad_cast" : "std::ios_base::failure", "", "", phase);
        }
        if (kind == "pointer") {
            fail("const char*", "", "a text", phase);
        }
        fail(kind == "logic" ? "std::logic_error" : kind == "other" ? "Other" : "std::runtime_error", "", text, phase);
    }

    void look(Event& e, const Arg& own) {
        if (!opt_.look) {
            return;
        }
        for (const std::string& n : universe_) {
            const Arg* a = byName(n);
            if (!a) {
                e.seen += "-;";
                continue;
            }
            e.seen += (a->exists ? "x" : "") + std::to_string(a->count) + '/';
            if (e.kind == 'V' && a == &own) {
                e.seen += "being checked";
            }
            else {
                const std::size_t size = isFlat(a->kind) ? a->flat.size() : isGroups(a->kind) ? a->groups.size() : 0;
                e.seen += std::to_string(size) + '"' + escText(a->text()) + '"';
            }
            e.seen += ';';
        }
        e.seen += " +[" + joinEsc(st_.additional) + "] " + st_.bin + (st_.alt ? "A" : "") + (st_.strict ? "S" : "");
        e.seen += ' ' + std::to_string(usageText(st_).size());
    }

    void deliver(Arg& a) {
        Box* b = nullptr;
        for (Box& x : boxes_) {
            if (x.op == a.dst.op) {
                b = &x;
            }
        }
        const int base = static_cast<int>(a.dst.base);
        if (a.dst.custom) {
            Event e;
            e.op = cur_;
            e.kind = 'D';
            e.handle = a.h;
            e.opIndex = a.dst.op;
            e.exists = a.exists;
            if (a.dst.thrown && a.exists) {
                if (a.dst.container == 0) {
                    e.values.push_back(Strs(1, a.one));
                }
                else if (a.dst.container == 1) {
                    Strs all;
                    for (const Strs& r : rowsOf(a)) {
                        all.insert(all.end(), r.begin(), r.end());
                    }
                    e.values.push_back(all);
                }
                else {
                    e.values = rowsOf(a);
                }
                look(e, a);
                o_.events.push_back(e);
                userThrows(kThrown[a.dst.thrown - 1], "conversion fails", "dest");
            }
            if (a.dst.container == 0) {
                e.values.push_back(Strs(1, a.one));
                ++b->calls;
                b->scalar = customText(base, a.one, b->calls);
            }
            else {
                std::vector<Strs> rows = rowsOf(a);
                if (a.dst.container == 1) {
                    Strs all;
                    for (const Strs& r : rows) {
                        all.insert(all.end(), r.begin(), r.end());
                    }
                    rows.assign(1, all);
                }
                e.values = rows;
                for (const Strs& r : rows) {
                    std::string t;
                    for (std::size_t i = 0; i < r.size(); ++i) {
                        std::string u = customText(base, r[i], 1);
                        if (a.dst.container == 1) {
                            b->rows.push_back(u);
                        }
                        else {
                            t += (i ? ", " : "") + u;
                        }
                    }
                    if (a.dst.container == 2) {
                        b->rows.push_back("[" + t + "]");
                    }
                }
            }
            look(e, a);
            o_.events.push_back(e);
            return;
        }
        if (a.dst.container == 0) {
            if (base == D_USER) {
                fail("ParseArgumentException", "", "destination method not found for this type", "dest");
            }
            notConvertible(a, base, a.one);
            b->scalar = isBool(a.kind) ? convBool(base, a.kind == K_TRUE ? a.exists : !a.exists) : convText(base, a.one);
            return;
        }
        for (const Strs& r : rowsOf(a)) {
            std::string t;
            for (std::size_t i = 0; i < r.size(); ++i) {
                if (base == D_USER) {
                    fail("ParseArgumentException", "", "destination method not found for this type", "dest");
                }
                notConvertible(a, base, r[i]);
                std::string u = isBool(a.kind) ? convBool(base, a.kind == K_TRUE ? a.exists : !a.exists) : convText(base, r[i]);
                if (a.dst.container == 1) {
                    b->rows.push_back(u);
                }
                else {
                    t += (i ? ", " : "") + u;
                }
            }
            if (a.dst.container == 2) {
                b->rows.push_back("[" + t + "]");
            }
        }
    }

    static std::vector<Strs> rowsOf(const Arg& a) {
        if (isGroups(a.kind)) {
            return a.groups;
        }
        std::vector<Strs> r;
        if (isFlat(a.kind)) {
            for (const std::string& v : a.flat) {
                r.push_back(Strs(1, v));
            }
        }
        else {
            r.push_back(Strs(1, a.one));
        }
        return r;
    }

    // ------------------------------------------------------------ snapshot
    static Elem leaf(const std::string& v, bool parsed) {
        Elem e;
        e.str = e.stream = v;
        e.isNum = parsed && leadingNumber(v, &e.num);
        e.numThrew = !e.isNum;
        e.vecErr = "convertion to vector of string not authorized";
        return e;
    }

    void snapshot(Snapshot& sn) {
        sn.taken = true;
        std::map<const Arg*, int> index;
        for (const std::string& n : universe_) {
            Arg* a = byName(n);
            if (!a) {
                sn.byName[n] = -1;
                continue;
            }
            if (index.count(a)) {
                sn.byName[n] = index[a];
                continue;
            }
            int id = static_cast<int>(sn.args.size());
            index[a] = sn.byName[n] = id;
            sn.args.push_back(ArgObs());
            ArgObs& o = sn.args.back();
            o.handle = a->h;
            o.names = a->names;
            o.exists = a->exists;
            o.required = a->required;
            o.truth = a->kind == K_FALSE ? !a->exists : a->exists;
            o.count = a->count;
            o.nargs = a->nargs;
            o.action = a->action;
            o.help = a->help;
            o.metavar = a->metavar;
            o.def = a->def;
            o.defaults = a->defaults;
            o.str = o.stream = o.conv = a->text();
            if (isSingle(a->kind) || isFlat(a->kind) || isGroups(a->kind)) {
                o.vecOk = true;
                o.vec = a->all();
            }
            else {
                o.vecErr = "convertion to vector of string not authorized";
            }
            if (isGroups(a->kind)) {
                o.vvOk = true;
                o.vv = a->groups;
            }
            else {
                o.vvErr = "convertion to vector of vector of string not authorized";
            }
            if (isSingle(a->kind)) {
                o.isNum = a->parsed && leadingNumber(a->one, &o.num);
            }
            o.numThrew = !o.isNum;
            o.numErr = o.numThrew ? "is not a number" : "";
            o.convNumOk = o.isNum;
            o.convNum = o.num;
            if (isFlat(a->kind)) {
                for (const std::string& v : a->flat) {
                    o.el.push_back(leaf(v, a->parsed));
                    o.el.back().def = a->exists ? "" : v;
                }
            }
            if (isGroups(a->kind)) {
                for (const Strs& g : a->groups) {
                    Elem e;
                    e.numThrew = true;
                    e.vecOk = true;
                    e.vec = g;
                    for (const std::string& v : g) {
                        e.sub.push_back(leaf(v, a->parsed));
                        e.sub.back().def = a->exists ? "" : v;
                        e.def += a->exists ? "" : e.sub.size() > 1 ? ", " + v : v;
                    }
                    o.el.push_back(e);
                }
            }
        }
        sn.additional = st_.additional;
        sn.bin = st_.bin;
        sn.version = st_.version;
        sn.desc = st_.desc;
        sn.epilog = st_.epilog;
        sn.alt = st_.alt;
        sn.strict = st_.strict;
        sn.helpExc = st_.helpExc;
        sn.verExc = st_.verExc;
        if (!opt_.noUsage) {
            sn.usage = usageText(st_);
        }
        for (const Box& b : boxes_) {
            DestObs d;
            d.handle = b.h;
            d.opIndex = b.op;
            if (b.d.base == D_CSTR && (b.gone || (b.parses > 0 && !b.lastGood) || (b.d.container != 0 && b.parses > 1))) {
                d.text = "(not readable)";
            }
            else if (b.d.container == 0) {
                d.text = b.scalar;
            }
            else {
                d.text = "[";
                for (std::size_t i = 0; i < b.rows.size(); ++i) {
                    d.text += (i ? ", " : "") + b.rows[i];
                }
                d.text += "]";
            }
            sn.dests.push_back(d);
        }
    }
};

void run(Script& s, const Options& opt, Obs& o) {
    Machine m(s, opt, o);
    m.run();
}

State stateAfter(const Script& s, std::size_t n) {
    Script c = s;
    Obs o;
    Options opt;
    opt.noSnap = true;
    Machine m(c, opt, o);
    m.runTo(n);
    return m.st_;
}

} // namespace model
