// One function per property: makes a case, runs it on the library, judges it.
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <sched.h>
#include <sys/mman.h>
#include <ucontext.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <iostream>
#include <locale>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <thread>

#include "mon.h"

using namespace model;

// ---------------------------------------------------------------- helpers
static std::string phaseName(const OpResult& m) {
    if (m.exited) {
        return "exit";
    }
    return m.cls.empty() ? "ok" : m.phase;
}

static void observed(const Script& s, const Obs& mod) {
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        if (s.ops[i].k == OP_PARSE) {
            tally("parses " + phaseName(mod.ops[i]));
            tally("tokens", s.ops[i].s.size());
        }
        else if (mod.ops[i].done && !mod.ops[i].cls.empty()) {
            tally("definition calls refused");
        }
        else {
            tally("definition calls");
        }
    }
    for (const Event& e : mod.events) {
        tally(e.kind == 'V' ? "validator calls" : e.kind == 'D' ? "custom destination calls" : "validators destroyed");
    }
}

struct Runs {
    Obs real, mod;
    bool ok = true;
};

static bool judge(Case& c, Script& s, unsigned aspects, Runs& x, bool everyOp = false, const Strs& universe = Strs()) {
    Options mo;
    RunOptions ro;
    mo.snapEveryOp = ro.snapEveryOp = everyOp;
    mo.noUsage = ro.noUsage = !(aspects & A_USAGE);
    ro.universe = universe;
    model::run(s, mo, x.mod);
    runReal(s, ro, x.real);
    observed(s, x.mod);
    std::string key;
    std::string d = difference(s, x.real, x.mod, aspects, &key);
    if (!d.empty()) {
        c.fail(key, d, s);
        x.ok = false;
    }
    return x.ok;
}

static std::string lineText(const Strs& l) {
    return joinEsc(l);
}

static void tallyKinds(const Spec& s) {
    for (const Def& d : s.defs) {
        tally(std::string("kind ") + kindName(d.kind));
    }
}

static void tallyLine(const Spec& s, const Line& l) {
    static const char* const n[] = {"spelled apart", "spelled =", "spelled glued", "spelled -long", "spelled -long="};
    for (const Item& it : l.items) {
        if (it.type == Item::OCC) {
            tally(it.joined ? "spelled in a cluster" : n[it.style]);
        }
        else if (it.type == Item::SEPARATOR) {
            tally("separators");
        }
        else if (it.h < 0) {
            tally("additional tokens");
        }
        else {
            tally("positional blocks");
        }
    }
    (void)s;
}

static void note(Case& c, const Script& s, bool nontrivial = true) {
    if (nontrivial) {
        c.nontrivial(serialize(s), serialize(s));
    }
}

static const ArgObs* argOf(const Snapshot& sn, const Def& d) {
    auto it = sn.byName.find(d.names.front());
    return it == sn.byName.end() || it->second < 0 ? nullptr : &sn.args[static_cast<std::size_t>(it->second)];
}

// the library's answer against what the line was built from
static std::string truthDiff(const Spec& s, const Truth& t, const OpResult& r, bool counts, std::string* key) {
    if (!r.cls.empty() || r.exited) {
        *key = "refused";
        return "a well-formed line gave " + dumpResult(r);
    }
    for (const Def& d : s.defs) {
        const ArgObs* a = argOf(r.snap, d);
        if (!a) {
            *key = "unknown";
            return "argument " + d.names.front() + " is unknown";
        }
        auto it = t.args.find(d.h);
        const bool exists = it != t.args.end();
        auto fail = [&](const char* k, const std::string& x) {
            *key = k;
            return "argument " + d.names.front() + ": " + x;
        };
        if (a->exists != exists) {
            return fail("exists", exists ? "on the line but does not exist" : "exists but is not on the line");
        }
        if (counts && !d.pos() && a->count != (exists ? it->second.count : 0)) {
            return fail("count", "count " + std::to_string(a->count));
        }
        if (isBool(d.kind) || d.kind == K_HELP || d.kind == K_VERSION) {
            if (counts && isBool(d.kind) && a->truth != (exists != (d.kind == K_FALSE))) {
                return fail("truth", "wrong truth value");
            }
            continue;
        }
        Strs want = exists ? it->second.flat : d.defaults;
        if (isSingle(d.kind) && want.empty()) {
            want.push_back("");
        }
        if (a->vec != want) {
            return fail("values", "values [" + joinEsc(a->vec) + "], on the line [" + joinEsc(want) + "]");
        }
        if (exists && isGroups(d.kind) && a->vv != it->second.groups) {
            return fail("groups", "wrong groups");
        }
    }
    if (r.snap.additional != t.additional) {
        *key = "additional";
        return "additional arguments [" + joinEsc(r.snap.additional) + "], on the line [" + joinEsc(t.additional) + "]";
    }
    return "";
}

// every token exactly once, in order (tokens of a line built by genLine are unique)
static std::string conserved(const Spec& s, const Line& l, const OpResult& r, std::string* key) {
    std::map<std::string, int> seen;
    auto see = [&](const Strs& v) {
        for (const std::string& x : v) {
            ++seen[x];
        }
    };
    for (const Def& d : s.defs) {
        const ArgObs* a = argOf(r.snap, d);
        if (a && a->exists && a->vecOk) {
            see(a->vec);
        }
    }
    see(r.snap.additional);
    std::map<int, std::size_t> last;
    for (std::size_t i = 0; i < l.items.size(); ++i) {
        if (l.items[i].type == Item::OCC) {
            last[l.items[i].h] = i;
        }
    }
    std::map<std::string, int> want;
    for (std::size_t i = 0; i < l.items.size(); ++i) {
        const Item& it = l.items[i];
        if (it.type == Item::OCC) {
            int k = s.byHandle(it.h)->kind;
            if ((k == K_ONE || k == K_NUM || k == K_LIST) && last[it.h] != i) {
                continue; // replaced by a later occurrence
            }
        }
        for (const std::string& v : it.values) {
            ++want[v];
        }
    }
    for (const auto& w : want) {
        if (seen[w.first] != w.second) {
            *key = "lost";
            return "token value \"" + escText(w.first) + "\" is visible " + std::to_string(seen[w.first]) + " times";
        }
    }
    for (const auto& x : seen) {
        if (!want.count(x.first)) {
            *key = "invented";
            return "value \"" + escText(x.first) + "\" is not on the command line";
        }
    }
    return "";
}

// a spec with a few lines on one parser: built, spoiled or random
static void linesCase(Case& c, const Profile& p, unsigned aspects, int goodPct, int spoilPct, bool counts, bool conserve) {
    Rng& r = c.r;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    const int n = r.pct(70) ? 1 : 2;
    std::vector<std::pair<std::size_t, Line>> built;
    bool any = false;
    for (int i = 0; i < n; ++i) {
        Line l = genLine(r, s, p);
        Strs t = render(s, l);
        int k = r.below(100);
        if (k < goodPct) {
            tallyLine(s, l);
            built.push_back(std::make_pair(sc.ops.size(), l));
        }
        else if (k < goodPct + spoilPct) {
            t = spoil(r, s, t);
        }
        else {
            t = soup(r, s, 10);
        }
        any = any || !t.empty();
        sc.ops.push_back(parseOp(t, r.pct(15) ? progName(r) : "prog"));
    }
    Runs x;
    judge(c, sc, aspects, x);
    for (const auto& b : built) {
        if (!x.ok) {
            break;
        }
        std::string key, d = truthDiff(s, truthOf(s, b.second), x.real.ops[b.first], counts, &key);
        if (d.empty() && conserve) {
            d = conserved(s, b.second, x.real.ops[b.first], &key);
            tally("lines with every token accounted for");
        }
        if (!d.empty()) {
            // the reference model and the construction must agree with each other
            std::string k2, d2 = truthDiff(s, truthOf(s, b.second), x.mod.ops[b.first], counts, &k2);
            if (!d2.empty()) {
                c.fail("HARNESS", "reference model and construction disagree: " + d2, sc);
            }
            else {
                c.fail(key, d + "\nline: " + lineText(sc.ops[b.first].s), sc);
            }
            break;
        }
    }
    note(c, sc, any);
}

// ---------------------------------------------------------------- P01
static void p01(Case& c) {
    Profile p;
    p.strict = 0;
    p.w[K_VERSION] = 0;
    p.weird = 30;
    p.extras = 50;
    linesCase(c, p, A_FORM | A_VALUES | A_ADDITIONAL, 60, 25, false, true);
}

// ---------------------------------------------------------------- P02
static void p02(Case& c) {
    Profile p;
    p.same = c.r.pct(30) ? 25 : 0;
    p.w[K_VERSION] = 0;
    p.w[K_P1] = 1;
    p.w[K_PN] = p.w[K_PLIST] = p.w[K_PLISTN] = 0;
    p.w[K_FALSE] = 3;
    p.maxPos = 1;
    p.repeat = 50;
    p.defaults = 60;
    p.give = 55;
    linesCase(c, p, A_FORM | A_VALUES | A_COUNT | A_TRUTH, 70, 15, true, false);
}

// ---------------------------------------------------------------- P03
static void p03(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.w[K_VERSION] = 0;
    p.w[K_P1] = 1;
    p.w[K_ONE] = 5;
    p.w[K_TRUE] = 5;
    p.maxPos = 1;
    p.alt = 55;
    p.multiFlag = 85;
    p.weird = 45;
    p.give = 80;
    if (r.pct(20)) {
        p.valid = 30;
        p.dest = 30;
        p.tame = true;
    }
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Line l = genLine(r, s, p), m;
    respell(r, s, l, m);
    Strs a = render(s, l), b = render(s, m);
    tallyLine(s, m);
    Script x, y;
    emit(s, x);
    y = x;
    // a common end that is refused: the error must be the same too
    if (r.pct(12)) {
        std::string t = r.pct(50) ? "--unknown" : "-!";
        if (std::find(a.begin(), a.end(), "--") == a.end() && std::find(b.begin(), b.end(), "--") == b.end()) {
            a.push_back(t);
            b.push_back(t);
        }
    }
    x.ops.push_back(parseOp(a));
    y.ops.push_back(parseOp(b));
    Options mo;
    mo.noUsage = true;
    Obs ma, mb;
    model::run(x, mo, ma);
    model::run(y, mo, mb);
    std::string key, d = sameRuns(ma, x.ops.size() - 1, mb, y.ops.size() - 1, 1, S_USAGE, &key);
    if (!d.empty()) {
        tally("pairs discarded");
        return;
    }
    Runs u, v;
    const unsigned asp = A_FORM | A_VALUES | A_COUNT | A_ADDITIONAL | A_TRUTH;
    if (!judge(c, x, asp, u) || !judge(c, y, asp, v)) {
        return;
    }
    d = sameRuns(u.real, x.ops.size() - 1, v.real, y.ops.size() - 1, 1, S_USAGE, &key);
    if (!d.empty()) {
        c.fail("pair:" + key, d, x, y);
    }
    if (a != b) {
        tally("pairs of spellings");
        c.nontrivial(serialize(x) + serialize(y), serialize(x) + "and " + lineText(b));
    }
    // with the alternative mode off a single-dash token is never a long option
    if (!s.alt && r.pct(15)) {
        Strs lo = s.longFlags();
        if (!lo.empty()) {
            Script z;
            emit(s, z);
            Strs t(1, r.pick(lo).substr(1) + (r.pct(40) ? "=v" : ""));
            if (r.pct(50)) {
                t.push_back("v");
            }
            z.ops.push_back(parseOp(t));
            Runs w;
            judge(c, z, asp | A_FORMTEXT, w);
            tally("single-dash words with the alternative mode off");
        }
    }
}

// ---------------------------------------------------------------- P04
static void p04(Case& c) {
    Profile p;
    p.same = c.r.pct(30) ? 25 : 0;
    p.w[K_VERSION] = 0;
    p.maxPos = 5;
    p.maxOpts = 4;
    p.w[K_P1] = 6;
    p.w[K_PN] = p.w[K_PLIST] = p.w[K_PLISTN] = 5;
    p.strict = 35;
    p.separator = 55;
    p.extras = 55;
    p.weird = 35;
    p.required = c.r.pct(30) ? 40 : 0;
    linesCase(c, p, A_FORM | A_FORMTEXT | A_VALUES | A_ADDITIONAL, p.required ? 0 : 60, p.required ? 70 : 25, false, true);
}

// ---------------------------------------------------------------- P05
static void p05(Case& c) {
    Profile p;
    p.same = c.r.pct(30) ? 25 : 0;
    p.w[K_VERSION] = 0;
    p.w[K_ONE] = 2;
    p.w[K_NUM] = 3;
    p.w[K_LIST] = p.w[K_EXT] = p.w[K_EXTN] = 6;
    p.w[K_PLIST] = p.w[K_PLISTN] = 4;
    p.w[K_P1] = p.w[K_PN] = 1;
    p.alt = 50;
    p.weird = 60;
    p.give = 75;
    p.maxNargs = 3;
    linesCase(c, p, A_FORM | A_FORMTEXT | A_VALUES | A_ADDITIONAL | A_COUNT, 50, 25, false, true);
}

// ---------------------------------------------------------------- P06
static void p06(Case& c) {
    Profile p;
    p.weird = 30;
    p.alt = 35;
    p.strict = 30;
    p.separator = 20;
    linesCase(c, p, A_FORM | A_FORMTEXT, 15, 60, false, false);
}

// ---------------------------------------------------------------- P07
static void p07(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.w[K_VERSION] = 4;
    p.maxOpts = 5;
    p.required = 35;
    p.give = 50;
    p.userHelp = 30;
    p.oneHelpName = 35;
    p.helpToken = 30;
    p.versionToken = 35;
    p.helpExc = p.verExc = 85;
    p.texts = 45;
    p.valid = 15;
    p.dest = 10;
    p.tame = true;
    p.strict = 25;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    int n = r.pct(70) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        Line l = genLine(r, s, p);
        Strs t = render(s, l);
        if (!s.userHelp() && r.pct(30)) {
            std::string h = s.byName("-h") ? "--help" : s.byName("--help") ? "-h" : r.pct(50) ? "-h" : "--help";
            t.insert(r.pct(50) ? t.begin() : t.begin() + r.below(static_cast<int>(t.size()) + 1), h);
        }
        if (r.pct(20)) {
            t = spoil(r, s, t);
        }
        sc.ops.push_back(parseOp(t, r.pct(20) ? progName(r) : "prog"));
    }
    Runs x;
    judge(c, sc, A_PRECEDENCE, x);
    note(c, sc);
}

// ---------------------------------------------------------------- P08
static void p08(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.same = r.pct(30) ? 25 : 0;
    p.w[K_VERSION] = 0;
    p.valid = 75;
    p.numeric = 30;
    p.tame = true;
    p.dest = 15;
    p.required = 15;
    p.give = 75;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    int n = r.pct(60) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        Line l = genLine(r, s, p);
        Strs t = render(s, l);
        if (r.pct(12)) {
            t = spoil(r, s, t);
        }
        sc.ops.push_back(parseOp(t));
    }
    Runs x;
    judge(c, sc, A_VALIDERR | A_VALIDATORS | A_VALUES | A_NUMBERS | A_DESTS | A_CUSTOM, x);
    bool called = false;
    for (const Event& e : x.mod.events) {
        called = called || e.kind == 'V';
    }
    note(c, sc, called);
}

// ---------------------------------------------------------------- P09
// one argument with the built-in validator of the kind (0 number, 1 range, 2 choice, 3 path), boundary and near-miss values
static bool builtin(Case& c, Script& sc, int kind, bool absolute) {
    Rng& r = c.r;
    const std::string d = c.scratch;
    if (::access((d + "/ready").c_str(), F_OK) != 0) {
        ::mkdir((d + "/dir").c_str(), 0755);
        ::mkdir((d + "/dir/sub dir").c_str(), 0755);
        FILE* f = std::fopen((d + "/file").c_str(), "w");
        if (f) {
            std::fclose(f);
        }
        f = std::fopen((d + "/dir/f").c_str(), "w");
        if (f) {
            std::fclose(f);
        }
        if (::symlink("file", (d + "/to_file").c_str()) || ::symlink("dir", (d + "/to_dir").c_str()) ||
            ::symlink("missing", (d + "/dangling").c_str()) || ::symlink("loop", (d + "/loop").c_str())) {
            // already there
        }
        if (::mkfifo((d + "/fifo").c_str(), 0600)) {
        }
        f = std::fopen((d + "/ready").c_str(), "w");
        if (f) {
            std::fclose(f);
        }
    }
    Def def;
    def.h = 0;
    static const int kinds[] = {K_ONE, K_NUM, K_LIST, K_APP, K_EXT, K_APPN, K_EXTN, K_P1, K_PN, K_PLIST, K_PLISTN, K_TRUE};
    Profile p;
    p.kinds({kinds[r.below(12)]});
    p.maxOpts = isPos(p.w[K_ONE]) ? 0 : 1;
    p.maxPos = 0;
    for (int k = K_P1; k <= K_PLISTN; ++k) {
        if (p.w[k]) {
            p.maxOpts = 0;
            p.maxPos = 1;
        }
    }
    p.defaults = 20;
    p.repeat = 30;
    p.give = 95;
    p.weird = 0;
    p.numeric = 0;
    Spec s = genSpec(r, p);
    if (s.defs.empty()) {
        tally("empty");
        return false;
    }
    Def& a = s.defs[0];
    a.hasValid = true;
    a.valid = Op(OP_VALID, a.h);
    Op& v = a.valid;
    v.v.push_back(1);
    Strs good, near;
    switch (kind) {
        case 0:
            v.n = V_NUMBER;
            good = {"0", "12", "-3", "+4", "1.5", "-0.25", ".5", "7.", "1e3", "2E-2", "-1.5e+2", "007", "100000"};
            near = {"", " ", "-", "+", ".", "abc", "12abc", "1.2.3", "1 2", "12 ", "--1", "1-", "+-1", "1,5", "1_000", "x1", "e5", "1.5f", "\t"};
            break;
        case 1: {
            v.n = V_MINMAX;
            int lo = r.range(-20, 20), hi = r.pct(15) ? lo : r.range(-20, 20);
            bool half = r.pct(30);
            v.s.push_back(std::to_string(lo) + (half ? ".5" : ""));
            v.s.push_back(std::to_string(hi) + (half ? ".5" : ""));
            for (int b : {lo, hi}) {
                for (const char* f : {"", ".0", ".5", ".49", ".51", ".001", ".999"}) {
                    good.push_back(std::to_string(b) + f);
                    good.push_back(std::to_string(b - 1) + f);
                    good.push_back(std::to_string(b + 1) + f);
                }
            }
            for (int i = 0; i < 6; ++i) {
                good.push_back(std::to_string(r.range(lo < hi ? lo : hi, lo < hi ? hi : lo)));
            }
            near = {"", "abc", "-", "x1", ".", std::to_string(lo) + "e2", "1000", "-1000", " " + std::to_string(lo), std::to_string(hi) + "zz"};
            break;
        }
        case 2: {
            v.n = V_CHOICE;
            v.v.push_back(r.below(10));
            static const char* const all[] = {"red", "green", "blue", "", "Red", "a b", "re", "redd", "-x", "k=v", "\"q\"", "1", "01"};
            int n = r.range(1, r.pct(20) ? 13 : 4);
            Strs pool(all, all + 13);
            r.shuffle(pool);
            v.s.assign(pool.begin(), pool.begin() + n);
            good = v.s;
            near.assign(all, all + 13);
            near.insert(near.end(), {"gree", "greenn", "RED", " red", "red "});
            break;
        }
        default: {
            v.n = V_PATH;
            long mode = r.below(4);
            v.v.push_back(mode);
            Strs files = {d + "/file", d + "/dir/f", d + "/to_file", d + "//dir/../file", d + "/to_dir/f"};
            Strs dirs = {d, d + "/dir", d + "/dir/", d + "/dir/sub dir", d + "/to_dir", ".", "..", "/", d + "/to_dir/"};
            Strs others = {"/dev/null", d + "/fifo"};
            Strs none = {d + "/missing", d + "/dangling", d + "/loop", "", d + "/file/x", d + "/file/", d + "/dir/f ", std::string(5000, 'p'), "missing"};
            if (mode != 2) {
                good.insert(good.end(), files.begin(), files.end());
            }
            if (mode != 1) {
                good.insert(good.end(), dirs.begin(), dirs.end());
            }
            if (mode == 0 || mode == 3) {
                good.insert(good.end(), others.begin(), others.end());
            }
            for (const Strs* q : {&files, &dirs, &others, &none}) {
                near.insert(near.end(), q->begin(), q->end());
            }
            if (absolute) { // the same in every directory
                for (Strs* q : {&good, &near}) {
                    q->erase(std::remove_if(q->begin(), q->end(), [](const std::string& x) { return x.empty() || x[0] != '/'; }), q->end());
                }
            }
            break;
        }
    }

    emit(s, sc);
    int lines = r.range(1, 4);
    for (int i = 0; i < lines; ++i) {
        Line l = genLine(r, s, p);
        for (Item& it : l.items) {
            if (it.type == Item::SEPARATOR || it.h < 0) {
                continue;
            }
            for (std::size_t k = 0; k < it.values.size(); ++k) {
                const bool bad = r.pct(18);
                for (int t = 0; t < 30; ++t) {
                    std::string x = r.pick(bad ? near : good);
                    if (it.type == Item::FREE && x.size() > 1 && x[0] == '-') {
                        continue;
                    }
                    if (it.style == ST_GLUE && (x.empty() || x.find('=') != std::string::npos)) {
                        continue;
                    }
                    it.values[k] = x;
                    break;
                }
            }
        }
        sc.ops.push_back(parseOp(render(s, l)));
    }
    for (const Op& o : sc.ops) {
        if (o.k == OP_PARSE && (v.n == V_NUMBER || v.n == V_MINMAX)) {
            for (const std::string& t : o.s) {
                std::size_t e = t.find('=');
                if (trickyNumber(t) || (e != std::string::npos && trickyNumber(t.substr(e + 1)))) {
                    tally("discarded");
                    return false;
                }
            }
        }
    }
    return true;
}

static void p09(Case& c) {
    Script sc;
    const int kind = c.r.below(4);
    if (!builtin(c, sc, kind, false)) {
        return;
    }
    Runs x;
    judge(c, sc, A_VALIDERR | A_VALUES, x);
    static const char* const names[] = {"number validator parses", "range validator parses", "choice validator parses", "path validator parses"};
    for (std::size_t i = 0; i < sc.ops.size(); ++i) {
        if (sc.ops[i].k == OP_PARSE) {
            tally(std::string(names[kind]) + (x.mod.ops[i].cls.empty() ? " accepted" : " rejected"));
        }
    }
    note(c, sc);
}

// ---------------------------------------------------------------- P10
static bool numericBase(long b) {
    return b <= D_LDOUBLE;
}

static bool destinationsFit(const Spec& s, const Script& sc, const Obs& mod) {
    for (std::size_t i = 0; i < sc.ops.size(); ++i) {
        if (!mod.ops[i].snap.taken) {
            continue;
        }
        for (const Def& d : s.defs) {
            if (!d.hasDest || !numericBase(d.dest.n) || d.dest.v[1] || isBool(d.kind)) {
                continue;
            }
            const ArgObs* a = argOf(mod.ops[i].snap, d);
            if (!a) {
                continue;
            }
            for (const std::string& v : a->vec) {
                if (!fits(static_cast<int>(d.dest.n), v)) {
                    return false;
                }
            }
        }
    }
    return true;
}

static void p10(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.same = r.pct(30) ? 25 : 0;
    p.w[K_VERSION] = 1;
    p.dest = 85;
    p.noConversion = 2;
    p.numeric = r.pct(60) ? 75 : 20;
    p.weird = r.pct(40) ? 25 : 0;
    p.tame = true;
    p.defaults = 55;
    p.valid = r.pct(25) ? 30 : 0;
    p.required = 8;
    p.maxOpts = 4;
    p.helpToken = p.versionToken = 5;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    int n = r.pct(55) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        Strs t = render(s, genLine(r, s, p));
        if (r.pct(10)) {
            t = spoil(r, s, t);
        }
        sc.ops.push_back(parseOp(t));
    }
    {
        Script copy = sc;
        Options mo;
        Obs m;
        mo.noUsage = true;
        model::run(copy, mo, m);
        if (!destinationsFit(s, sc, m)) {
            tally("discarded (value out of the range of its type)");
            return;
        }
    }
    Runs x;
    judge(c, sc, A_DESTS | A_FAILDESTS | A_CUSTOM | A_DESTERR | A_FORM, x);
    bool bound = false;
    for (const Def& d : s.defs) {
        if (d.hasDest) {
            bound = true;
            static const char* const cn[] = {"scalar", "vector", "vector of vectors"};
            static const char* const bn[] = {"bool",  "char",   "uchar", "short",       "ushort", "int",         "uint", "long",
                                             "ulong", "llong",  "ullong", "float",      "double", "long double", "string", "const char*",
                                             "char[1]", "char[4]", "char[5]", "char[6]", "char[8]", "char[64]",   "user"};
            tally(std::string("bound ") + cn[d.dest.v[0]] + " " + bn[d.dest.n]);
        }
    }
    note(c, sc, bound);
}

// ---------------------------------------------------------------- P11
static void p11(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.w[K_VERSION] = 0;
    p.numeric = 70;
    p.weird = 15;
    p.defaults = 65;
    p.give = 55;
    p.valid = r.pct(30) ? 45 : 0;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Strs t = render(s, genLine(r, s, p));
        if (r.pct(10)) {
            t = spoil(r, s, t);
        }
        sc.ops.push_back(parseOp(t));
    }
    Runs x;
    judge(c, sc, A_NUMBERS | A_FORM, x);
    for (const OpResult& o : x.mod.ops) {
        for (const ArgObs& a : o.snap.args) {
            tally(a.isNum ? "values that are numbers" : "values that are not");
            for (const Elem& e : a.el) {
                tally(e.isNum ? "elements that are numbers" : "elements that are not");
            }
        }
    }
    note(c, sc);
}

// ---------------------------------------------------------------- P12
static Strs anyLine(Rng& r, const Spec& s, const Profile& p, int bad) {
    Strs t = render(s, genLine(r, s, p));
    if (r.pct(bad)) {
        t = r.pct(70) ? spoil(r, s, t) : soup(r, s, 8);
    }
    return t;
}

static void p12(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    const bool longLife = r.pct(2);
    if (longLife) {
        p.big = 0;
        p.maxOpts = 5;
    }
    p.same = r.pct(30) ? 25 : 0;
    p.numeric = 30;
    p.tame = true;
    p.valid = 20;
    p.dest = 15;
    p.noConversion = 1;
    p.defaults = 65;
    p.required = 12;
    p.helpToken = 8;
    p.versionToken = 8;
    p.oneHelpName = 0;
    p.texts = 15;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    // some definitions may come between the lines (a parse takes the free help names)
    const int cut = r.pct(30) && !s.userHelp() && !s.byName("-h") && !s.byName("--help") ? r.below(static_cast<int>(s.defs.size()) + 1) : static_cast<int>(s.defs.size());
    Spec first = s;
    first.defs.resize(static_cast<std::size_t>(cut));
    Script a, b;
    emit(first, a);
    const int n = longLife ? r.range(15, 70) : r.range(1, 5);
    for (int i = 0; i < n; ++i) {
        if (i == 1 || (n == 1 && i == 0)) {
            if (i == 0) {
                a.ops.push_back(parseOp(anyLine(r, first, p, 35)));
            }
            for (std::size_t k = static_cast<std::size_t>(cut); k < s.defs.size(); ++k) {
                std::vector<Op> v = defOps(s.defs[k]);
                a.ops.insert(a.ops.end(), v.begin(), v.end());
            }
            if (i == 0) {
                continue;
            }
        }
        a.ops.push_back(parseOp(anyLine(r, i == 0 ? first : s, p, 35)));
    }
    emit(s, b);
    Strs last = anyLine(r, s, p, 20);
    a.ops.push_back(parseOp(last));
    b.ops.push_back(parseOp(last));
    Runs x, y;
    const unsigned asp = A_ERROR | A_VALUES | A_COUNT | A_ADDITIONAL | A_NUMBERS | A_TRUTH | A_PROPS | A_VALIDATORS | A_CUSTOM | A_DESTS;
    {
        Script copy = a;
        Options mo;
        Obs m;
        model::run(copy, mo, m);
        if (!destinationsFit(s, copy, m)) {
            tally("discarded");
            return;
        }
    }
    Options mo;
    RunOptions ro;
    model::run(a, mo, x.mod);
    runReal(a, ro, x.real);
    ro.universe = nameUniverse(a);
    model::run(b, mo, y.mod);
    runReal(b, ro, y.real);
    observed(a, x.mod);
    std::string key, d = sameRuns(x.real, a.ops.size() - 1, y.real, b.ops.size() - 1, 1, S_DESTS, &key);
    if (!d.empty()) {
        c.fail("history:" + key, d, a, b);
        return;
    }
    d = difference(b, y.real, y.mod, asp, &key);
    if (!d.empty()) {
        // wrong on a new parser too: not what this check is about
        tally("wrong even on a new parser");
        return;
    }
    d = difference(a, x.real, x.mod, asp, &key);
    if (!d.empty()) {
        c.fail(key, d, a);
    }
    note(c, a);
}

// ---------------------------------------------------------------- P13
static void p13(Case& c) {
    Rng& r = c.r;
    static const char* const good[] = {"-a", "-b", "-c", "-d", "--aa", "--bb", "--cc", "--dd", "p", "q", "two words", "-1", "--x-y", "-=", "--a=b", "---", "-A", "--aA"};
    static const char* const bad[] = {"", "-", "--", "-ab", "-abc", "--", "-a=b"};
    const std::string help = r.pct(50) ? "-h" : "--help";
    Strs pool;
    const int poolSize = r.pct(50) ? 6 : 18;
    for (int i = 0; i < poolSize; ++i) {
        pool.push_back(good[poolSize == 18 ? i : r.below(18)]);
    }
    pool.push_back(help);
    auto name = [&]() { return r.pct(12) ? std::string(bad[r.below(7)]) : r.pick(pool); };
    Script s;
    s.ops.push_back(Op(OP_HELPEXC, -1, 1));
    s.ops.push_back(Op(OP_VEREXC, -1, 1));
    if (r.pct(30)) {
        s.ops.push_back(Op(OP_ALT, -1, 1));
    }
    int handles = 0;
    const int n = r.pct(1) ? r.range(60, 150) : r.range(4, 24);
    std::vector<int> live;
    for (int i = 0; i < n; ++i) {
        int k = r.below(100);
        if (k < 34 || live.empty()) {
            Op o(OP_ADD, handles++, r.below(10));
            int m = r.pct(4) ? 0 : r.pct(50) ? 1 : r.range(1, 4);
            for (int j = 0; j < m; ++j) {
                o.s.push_back(name());
            }
            s.ops.push_back(o);
            live.push_back(o.h);
            if (r.pct(25)) {
                static const int actions[] = {A_TRUE, A_TRUE, A_APPEND, A_APPEND, A_HELP, A_VERSION};
                s.ops.push_back(Op(OP_ACTION, o.h, actions[r.below(6)]));
                // refused on positionals: leave such an argument alone afterwards
                State st = stateAfter(s, s.ops.size());
                Script copy = s;
                Obs mod;
                Options mo;
                mo.noSnap = true;
                model::run(copy, mo, mod);
                if (!mod.ops.back().cls.empty()) {
                    s.ops.pop_back();
                }
            }
        }
        else if (k < 54) {
            Op o(OP_FLAG, r.pick(live));
            o.s.push_back(name());
            s.ops.push_back(o);
        }
        else if (k < 80) {
            Op o(OP_REMOVE, -1, r.below(10));
            int m = r.pct(3) ? 0 : r.pct(60) ? 1 : r.range(2, 4);
            for (int j = 0; j < m; ++j) {
                o.s.push_back(name());
            }
            if (m > 1 && r.pct(15)) {
                o.s.push_back(o.s[0]);
            }
            s.ops.push_back(o);
        }
        else if (k < 88) {
            Op o(OP_GET, -1, r.below(3));
            o.s.push_back(name());
            s.ops.push_back(o);
        }
        else if (k < 92) {
            Op o(OP_REQUIRED, r.pick(live), r.below(2));
            State st = stateAfter(s, s.ops.size());
            bool opt = false;
            for (const Arg& a : st.args) {
                opt = opt || (a.h == o.h && !a.pos());
            }
            if (opt) {
                s.ops.push_back(o);
            }
        }
        else if (k < 93) {
            s.ops.push_back(Op(r.pct(50) ? OP_CLEAR : OP_RENEW));
            s.ops.push_back(Op(OP_HELPEXC, -1, 1));
            s.ops.push_back(Op(OP_VEREXC, -1, 1));
        }
        else {
            Strs t;
            int m = r.below(5);
            for (int j = 0; j < m; ++j) {
                std::string x = name();
                t.push_back(r.pct(25) ? x + "=v" : x);
                if (r.pct(40)) {
                    t.push_back("v");
                }
            }
            s.ops.push_back(parseOp(t));
        }
    }
    Strs t;
    if (r.pct(60)) {
        std::string x = r.pick(pool);
        t.push_back(r.pct(30) ? x + "=v" : x);
        t.push_back("v");
        t.push_back("w");
    }
    s.ops.push_back(parseOp(t));
    Runs x;
    judge(c, s, A_BUILDER | A_NAMES | A_PROPS | A_FORM | A_FORMTEXT | A_PRECEDENCE | A_USAGE, x, true);
    note(c, s);
}

// ---------------------------------------------------------------- P14
// the same definitions in another order
static Script reorder(Rng& r, const Spec& s) {
    std::vector<std::vector<Op>> chains;
    std::vector<const Def*> defs;
    std::vector<Op> modes = modeOps(s);
    r.shuffle(modes);
    chains.push_back(modes);
    for (const Def& d : s.defs) {
        std::vector<Op> v = defOps(d, &r), rest(v.begin() + 1, v.end());
        r.shuffle(rest);
        if (d.pos()) { // settled before the next positional: keep the requirement first
            std::stable_partition(rest.begin(), rest.end(), [](const Op& o) { return o.k == OP_REQUIRED; });
        }
        std::vector<Op> c(v.begin(), v.begin() + 1);
        if (!d.required && !d.pos() && r.pct(15)) { // required for a while
            const std::size_t i = static_cast<std::size_t>(r.below(static_cast<int>(rest.size()) + 1));
            rest.insert(rest.begin() + static_cast<long>(i), Op(OP_REQUIRED, d.h, 0));
            rest.insert(rest.begin() + r.below(static_cast<int>(i) + 1), Op(OP_REQUIRED, d.h, 1));
        }
        if (d.defaults.empty() && r.pct(10)) { // no default, said aloud
            rest.insert(d.pos() ? rest.end() : rest.begin() + r.below(static_cast<int>(rest.size()) + 1), Op(OP_DEFAULTS, d.h, r.below(10)));
        }
        for (Op& o : rest) {
            // declared and declared again: the last counts
            if ((o.k == OP_HELP || o.k == OP_METAVAR) && r.pct(20)) {
                Op x = o;
                x.s[0] = "other";
                c.push_back(x);
            }
            if (o.k == OP_REQUIRED && o.n == 1 && !d.pos() && r.pct(20)) {
                c.push_back(Op(OP_REQUIRED, d.h, r.below(2)));
                c.push_back(Op(OP_REQUIRED, d.h, 0));
            }
            if (o.k == OP_DEFAULTS && r.pct(20)) {
                Op x = o;
                for (std::string& t : x.s) {
                    t = "before";
                }
                c.push_back(x);
            }
            if (o.k != OP_FLAG && r.pct(40)) {
                o.via = v[0].s[static_cast<std::size_t>(r.below(static_cast<int>(v[0].s.size())))];
            }
            c.push_back(o);
        }
        chains.push_back(c);
    }
    // merge the chains; the additions of positionals keep their order
    Script out;
    std::vector<std::size_t> at(chains.size(), 0);
    std::size_t nextPos = 0;
    auto isPosChain = [&](std::size_t i) { return i > 0 && s.defs[i - 1].pos(); };
    std::vector<std::size_t> order;
    for (std::size_t i = 1; i < chains.size(); ++i) {
        if (isPosChain(i)) {
            order.push_back(i);
        }
    }
    for (;;) {
        std::vector<std::size_t> can;
        for (std::size_t i = 0; i < chains.size(); ++i) {
            if (at[i] >= chains[i].size()) {
                continue;
            }
            if (isPosChain(i) && at[i] == 0 && (nextPos >= order.size() || order[nextPos] != i)) {
                continue;
            }
            can.push_back(i);
        }
        if (can.empty()) {
            break;
        }
        std::size_t i = r.pick(can);
        std::size_t n = isPosChain(i) && at[i] == 0 ? 1 : r.pct(50) ? 1 : chains[i].size() - at[i];
        if (isPosChain(i) && at[i] == 0) {
            ++nextPos;
            while (n < chains[i].size() && chains[i][n].k == OP_REQUIRED) {
                ++n;
            }
        }
        for (std::size_t k = 0; k < n && at[i] < chains[i].size(); ++k) {
            out.ops.push_back(chains[i][at[i]++]);
        }
    }
    return out;
}

static void p14(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.same = r.pct(30) ? 25 : 0;
    p.numeric = 20;
    p.tame = true;
    p.valid = 25;
    p.dest = 25;
    p.defaults = 60;
    p.required = 25;
    p.help = 50;
    p.metavar = 35;
    p.multiFlag = 80;
    p.texts = 20;
    p.helpToken = p.versionToken = 5;
    p.userHelp = 20;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script a;
    emit(s, a);
    if (r.pct(25)) {
        // contradictory declarations are refused, naming the argument
        std::vector<const Def*> v;
        for (const Def& d : s.defs) {
            v.push_back(&d);
        }
        if (!v.empty()) {
            const Def& d = *r.pick(v);
            Op o(r.pct(50) ? OP_ACTION : OP_DEFAULTS, d.h);
            if (o.k == OP_ACTION) {
                o.n = d.pos() ? r.range(1, 6) : r.pct(50) ? A_HELP : A_VERSION;
            }
            else {
                int n = r.range(1, 7);
                for (int i = 0; i < n; ++i) {
                    o.s.push_back("x" + std::to_string(i));
                }
            }
            Script t = a;
            t.ops.push_back(o);
            Runs x;
            judge(c, t, A_BUILDER, x);
            tally(x.mod.ops.back().cls.empty() ? "late declarations accepted" : "contradictory declarations refused");
        }
    }
    Script b;
    Obs probe;
    bool accepted = false;
    for (int t = 0; t < 8 && !accepted; ++t) {
        b = reorder(r, s);
        Script copy = b;
        Options mo;
        mo.noSnap = true;
        probe = Obs();
        model::run(copy, mo, probe);
        accepted = true;
        for (const OpResult& o : probe.ops) {
            accepted = accepted && o.cls.empty() && o.done;
        }
        if (!accepted) {
            tally("orders not accepted");
        }
    }
    if (!accepted) {
        return;
    }
    // declarations that are refused change nothing
    for (int t = r.pct(40) ? r.range(1, 3) : 0; t > 0 && !s.defs.empty(); --t) {
        const Def& d = r.pick(s.defs);
        Op o(r.pct(40) ? OP_ACTION : r.pct(50) ? OP_NARGS : OP_DEFAULTS, d.h);
        if (o.k == OP_ACTION) {
            o.n = r.below(8);
        }
        else if (o.k == OP_NARGS) {
            o.n = r.pct(10) ? '+' : r.below(6);
        }
        else {
            for (int n = r.range(1, 7); n > 0; --n) {
                o.s.push_back("x" + std::to_string(n));
            }
        }
        Script copy = b;
        const std::size_t at = static_cast<std::size_t>(r.range(0, static_cast<int>(b.ops.size())));
        copy.ops.insert(copy.ops.begin() + static_cast<long>(at), o);
        Script with = copy;
        Options mo;
        mo.noSnap = true;
        probe = Obs();
        model::run(copy, mo, probe);
        bool only = probe.ops[at].done && !probe.ops[at].cls.empty();
        for (std::size_t i = 0; i < probe.ops.size(); ++i) {
            only = only && (i == at || (probe.ops[i].cls.empty() && probe.ops[i].done));
        }
        if (only) {
            b = with;
            tally("refused declarations inserted");
        }
    }
    const std::size_t na = a.ops.size(), nb = b.ops.size();
    std::vector<Op> end(1, Op(OP_OBSERVE));
    int lines = r.range(1, 2);
    for (int i = 0; i < lines; ++i) {
        end.push_back(parseOp(anyLine(r, s, p, 15)));
    }
    a.ops.insert(a.ops.end(), end.begin(), end.end());
    b.ops.insert(b.ops.end(), end.begin(), end.end());
    {
        Script copy = a;
        Options mo;
        Obs m;
        model::run(copy, mo, m);
        if (!destinationsFit(s, copy, m)) {
            tally("discarded");
            return;
        }
    }
    Runs x, y;
    const unsigned asp = A_BUILDER | A_PROPS | A_NAMES | A_USAGE | A_VALUES | A_COUNT | A_ERROR | A_DESTS | A_VALIDATORS | A_CUSTOM;
    judge(c, a, A_BUILDER | A_PROPS | A_NAMES, x);
    judge(c, b, asp & ~A_USAGE, y);
    if (!x.ok || !y.ok) {
        return;
    }
    Obs ra, rb;
    RunOptions ro;
    runReal(a, ro, ra);
    ro.universe = nameUniverse(a);
    runReal(b, ro, rb);
    std::string key, d = sameRuns(ra, na, rb, nb, end.size(), 0, &key);
    if (!d.empty()) {
        c.fail("order:" + key, d, a, b);
    }
    tally("orders compared");
    c.nontrivial(serialize(a) + serialize(b), serialize(b));
}

// ---------------------------------------------------------------- P15
static std::string usageParts(const Spec& s, const Script& sc, const OpResult& o, const OpResult& m, std::string* key) {
    // independent of the layout: every word of every text once and in order
    const std::string& u = o.snap.usage;
    (void)sc;
    (void)m;
    std::size_t at = 0;
    for (const Op& t : s.texts) {
        if (t.k == OP_USAGE) {
            if (u != t.s[0]) {
                *key = "custom";
                return "a custom usage text does not replace everything";
            }
            return "";
        }
    }
    (void)at;
    auto wordsIn = [&](const std::string& text, std::size_t from) {
        std::string w;
        std::size_t pos = from;
        for (std::size_t i = 0; i <= text.size(); ++i) {
            if (i == text.size() || text[i] == ' ' || text[i] == '\n') {
                if (!w.empty()) {
                    pos = u.find(w, pos);
                    if (pos == std::string::npos) {
                        return w;
                    }
                    pos += w.size();
                    w.clear();
                }
            }
            else {
                w += text[i];
            }
        }
        return std::string();
    };
    for (const Op& t : s.texts) {
        if (t.k == OP_DESC || t.k == OP_EPILOG) {
            std::string w = wordsIn(t.s[0], 0);
            if (!w.empty()) {
                *key = "words";
                return "word \"" + w + "\" of the description or epilog is lost";
            }
        }
    }
    for (const Def& d : s.defs) {
        std::string w = wordsIn(d.help, 0);
        if (!w.empty()) {
            *key = "words";
            return "word \"" + w + "\" of the help of " + d.names[0] + " is lost";
        }
        for (const std::string& n : d.names) {
            if (u.find(n) == std::string::npos) {
                *key = "flag";
                return "flag " + n + " is not in the usage text";
            }
        }
    }
    return "";
}

static void p15(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.maxOpts = r.pct(20) ? 14 : 6;
    p.maxPos = r.pct(20) ? 6 : 3;
    p.texts = 70;
    p.help = 70;
    p.metavar = 30;
    p.required = 25;
    p.defaults = 45;
    p.multiFlag = 60;
    p.userHelp = 20;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    sc.ops.push_back(Op(OP_OBSERVE));
    if (r.pct(70)) {
        sc.ops.push_back(parseOp(r.pct(60) ? Strs() : render(s, genLine(r, s, p)), r.pct(15) ? "/some/where/program-name" : progName(r)));
    }
    if (r.pct(25) && !s.defs.empty()) { // later changes show
        const Def& d = s.defs[static_cast<std::size_t>(r.below(static_cast<int>(s.defs.size())))];
        Op o(OP_HELP, d.h);
        o.s.push_back(words(r, 15, true));
        sc.ops.push_back(o);
        sc.ops.push_back(Op(OP_OBSERVE));
    }
    if (r.pct(15) && s.defs.size() > 1) {
        const Def& d = s.defs[static_cast<std::size_t>(r.below(static_cast<int>(s.defs.size())))];
        Op o(OP_REMOVE, -1, 0);
        o.s.push_back(r.pick(d.names));
        sc.ops.push_back(o);
        sc.ops.push_back(Op(OP_OBSERVE));
    }
    Runs x;
    judge(c, sc, A_USAGE, x);
    if (x.ok) {
        for (std::size_t i = 0; i < sc.ops.size(); ++i) {
            if (sc.ops[i].k == OP_OBSERVE) {
                std::string key, d = usageParts(s, sc, x.real.ops[i], x.mod.ops[i], &key);
                if (!d.empty()) {
                    c.fail(key, d + "\n" + x.real.ops[i].snap.usage, sc);
                }
                break;
            }
        }
        for (const OpResult& o : x.real.ops) {
            if (o.snap.taken) {
                tally("usage texts");
                tally("usage lines", static_cast<std::uint64_t>(std::count(o.snap.usage.begin(), o.snap.usage.end(), '\n')) + 1);
            }
        }
    }
    note(c, sc);
}

// ---------------------------------------------------------------- P16
static std::string anyText(Rng& r) {
    int k = r.below(20);
    if (k == 0) {
        return std::string(static_cast<std::size_t>(r.range(100, 5000)), static_cast<char>(r.range(33, 126)));
    }
    if (k < 8) {
        return hostileText(r, 60);
    }
    if (k < 10) {
        return words(r, 10, true);
    }
    if (k < 13) {
        return numberText(r, false);
    }
    static const char* const t[] = {"-a", "-b", "-ab", "--alpha", "--al", "p", "file", "--", "-", "", "-h", "--help", "--alpha=", "-a=", "=", "nan", "inf", "1e400", "-1e400",
                                    "0x10", "99999999999999999999", "1e-400", "--v", "-v"};
    return t[r.below(24)];
}

static void wildHistory(Rng& r, Script& s, bool ownership, int big = 2) {
    auto modes = [&]() {
        s.ops.push_back(Op(OP_HELPEXC, -1, 1));
        s.ops.push_back(Op(OP_VEREXC, -1, 1));
    };
    modes();
    int handles = 0;
    std::vector<int> hs;
    auto handle = [&]() { return hs.empty() ? 0 : r.pick(hs); };
    const int again = r.pct(60) ? 0 : r.pct(50) ? V_SAME : V_SHARE;
    static const char* const flags[] = {"-a", "-b", "-c", "--alpha", "--al", "--beta", "-v", "--v", "-1", "--x"};
    static const char* const pos[] = {"p", "file", "n", "x y"};
    if (r.pct(60)) {
        Profile p;
        p.big = big;
        p.valid = ownership ? 70 : 25;
        p.dest = 25;
        p.numeric = 30;
        p.tame = true;
        p.required = 10;
        p.texts = 30;
        p.help = 30;
        Spec sp = genSpec(r, p);
        emit(sp, s);
        handles = static_cast<int>(sp.defs.size());
        for (int i = 0; i < handles; ++i) {
            hs.push_back(i);
        }
        modes();
    }
    const int n = big && r.pct(1) ? r.range(60, 150) : r.range(3, 25);
    for (int i = 0; i < n; ++i) {
        int k = r.below(100);
        if (k < 18) {
            Op o(OP_ADD, handles++, r.below(10));
            if (r.pct(25)) {
                o.s.push_back(r.pct(80) ? std::string(pos[r.below(4)]) : anyText(r));
            }
            else {
                int m = r.range(1, 3);
                for (int j = 0; j < m; ++j) {
                    o.s.push_back(r.pct(90) ? std::string(flags[r.below(10)]) : anyText(r));
                }
            }
            hs.push_back(o.h);
            s.ops.push_back(o);
        }
        else if (k < 22) {
            Op o(OP_FLAG, handle());
            o.s.push_back(r.pct(80) ? std::string(flags[r.below(10)]) : anyText(r));
            s.ops.push_back(o);
        }
        else if (k < 30) {
            s.ops.push_back(Op(OP_ACTION, handle(), r.below(8)));
        }
        else if (k < 36) {
            s.ops.push_back(Op(OP_NARGS, handle(), r.pct(20) ? '+' : r.below(5)));
        }
        else if (k < 38) {
            s.ops.push_back(Op(OP_REQUIRED, handle(), r.below(2)));
        }
        else if (k < 42) {
            Op o(OP_DEFAULTS, handle(), r.below(10));
            int m = r.below(6);
            for (int j = 0; j < m; ++j) {
                o.s.push_back(anyText(r));
            }
            s.ops.push_back(o);
        }
        else if (k < 44) {
            Op o(r.pct(50) ? OP_HELP : OP_METAVAR, handle());
            o.s.push_back(anyText(r));
            s.ops.push_back(o);
        }
        else if (k < (ownership ? 62 : 50)) {
            Def d;
            d.h = handle();
            addRandomValid(r, d, true);
            if (r.pct(10)) {
                d.valid.n = V_NULL;
            }
            else if (again && r.pct(30)) { // the same one again, or one for several arguments
                d.valid.n = again;
                d.valid.s.clear();
                d.valid.v.assign(1, r.pct(50));
                if (again == V_SHARE) {
                    d.valid.v[0] = 0;
                }
            }
            else if (again == V_SHARE && r.pct(50) && d.valid.v.empty()) {
                d.valid.v.push_back(0);
            }
            if (d.valid.n == V_MINMAX || d.valid.n == V_NUMBER) {
                // fine with any text
            }
            s.ops.push_back(d.valid);
        }
        else if (k < (ownership ? 66 : 55)) {
            Def d;
            d.h = handle();
            Profile p;
            p.numeric = 0; // conversions of arbitrary texts to numbers: see the known findings
            addRandomDest(r, d, p);
            d.dest.n = r.pct(40) ? D_STRING : r.pct(50) ? D_CSTR : D_USER;
            d.dest.v[0] = r.below(3);
            d.dest.v[1] = d.dest.n == D_USER || (d.dest.n == D_STRING && r.pct(25));
            if (r.pct(20) && d.dest.v[0] == 0) {
                d.dest.n = D_ARR1 + r.below(6);
                d.dest.v[1] = 0;
            }
            s.ops.push_back(d.dest);
        }
        else if (k < 72) {
            Op o(OP_REMOVE, -1, r.below(10));
            int m = r.range(1, 3);
            for (int j = 0; j < m; ++j) {
                o.s.push_back(r.pct(70) ? std::string(flags[r.below(10)]) : r.pct(60) ? std::string(pos[r.below(4)]) : anyText(r));
            }
            s.ops.push_back(o);
        }
        else if (k < 74) {
            s.ops.push_back(Op(r.pct(60) ? OP_CLEAR : OP_RENEW));
            modes();
        }
        else if (k < 76) {
            s.ops.push_back(Op(OP_COPY, handle()));
        }
        else if (k < 79) {
            Op o(OP_WIDTH);
            for (int j = 0; j < 4; ++j) {
                o.v.push_back(r.pct(20) ? 0 : r.below(60));
            }
            s.ops.push_back(o);
        }
        else if (k < 82) {
            static const int kk[] = {OP_SETVERSION, OP_SETBIN, OP_DESC, OP_EPILOG, OP_USAGE};
            Op o(kk[r.below(5)]);
            o.s.push_back(anyText(r));
            s.ops.push_back(o);
        }
        else if (k < 85) {
            s.ops.push_back(Op(r.pct(50) ? OP_ALT : OP_STRICT, -1, r.below(2)));
        }
        else if (k < 87) {
            s.ops.push_back(Op(OP_OBSERVE));
        }
        else {
            Op o(OP_PARSE);
            int m = r.pct(3) ? r.range(50, 400) : r.below(9);
            if (!r.pct(3)) {
                o.s.push_back(r.pct(90) ? "prog" : anyText(r));
                for (int j = 0; j < m; ++j) {
                    o.s.push_back(r.pct(35) ? std::string(flags[r.below(10)]) : anyText(r));
                }
            }
            if (r.pct(10)) {
                o.v.push_back(r.below(static_cast<int>(o.s.size()) + 1));
                o.v.push_back(r.below(2));
            }
            s.ops.push_back(o);
        }
    }
    if (r.pct(50)) {
        Op o(OP_PARSE);
        o.s.push_back("prog");
        int m = r.below(8);
        for (int j = 0; j < m; ++j) {
            o.s.push_back(r.pct(35) ? std::string(flags[r.below(10)]) : anyText(r));
        }
        s.ops.push_back(o);
    }
}

static void p16(Case& c) {
    Rng& r = c.r;
    Script s;
    if (r.pct(2)) { // large
        Op h(OP_HELPEXC, -1, 1);
        s.ops.push_back(h);
        int n = r.range(20, 90);
        for (int i = 0; i < n; ++i) {
            Op o(OP_ADD, i);
            o.s.push_back("--option" + std::to_string(i));
            s.ops.push_back(o);
            s.ops.push_back(Op(OP_ACTION, i, r.below(8) == A_HELP ? 0 : r.pct(50) ? A_EXTEND : A_APPEND));
        }
        Op p(OP_PARSE);
        p.s.push_back("prog");
        int m = r.range(200, 3000);
        for (int i = 0; i < m; ++i) {
            p.s.push_back(r.pct(40) ? "--option" + std::to_string(r.below(n + 1)) : hostileText(r, 20));
        }
        s.ops.push_back(p);
    }
    else {
        wildHistory(r, s, false);
    }
    Obs o;
    RunOptions ro;
    ro.noFork = true;
    ro.snapEveryOp = r.pct(10);
    runReal(s, ro, o);
    bool parsed = false;
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        if (s.ops[i].k == OP_PARSE) {
            parsed = true;
            tally(o.ops[i].cls.empty() ? "parses ok" : "parses " + o.ops[i].cls);
        }
        else {
            tally(o.ops[i].cls.empty() ? "calls" : "calls refused");
        }
        if (o.ops[i].cls == "unknown exception" || o.ops[i].cls == "std::exception" || o.ops[i].cls == "std::bad_alloc" || o.ops[i].cls == "std::out_of_range") {
            c.fail("exception:" + o.ops[i].cls, "operation " + std::to_string(i) + " ended with " + o.ops[i].cls, s);
        }
        for (const DestObs& d : o.ops[i].snap.dests) {
            if (d.text.find("OVERRUN") != std::string::npos) {
                c.fail("overrun", "a character array was overrun", s);
            }
        }
    }
    note(c, s, parsed);
}

// ---------------------------------------------------------------- P17
static void p17(Case& c) {
    Script s;
    Rng& r = c.r;
    wildHistory(r, s, true);
    // contradictory or uncertain states are allowed: only the ledger is judged, against its own rules
    Obs o;
    RunOptions ro;
    ro.noSnap = r.pct(70);
    runReal(s, ro, o);
    // which validators are attached, by the answers of the library
    std::map<int, int> attached; // handle -> operation
    std::map<int, bool> owned;
    std::map<int, int> handleOf;
    std::set<int> live;
    std::map<int, int> dead;
    std::map<std::string, int> nameOf;
    std::map<int, Strs> names;
    bool any = false;
    auto destroyedDuring = [&](int op) {
        std::multiset<int> v;
        for (const Event& e : o.events) {
            if (e.kind == '~' && e.op == op) {
                v.insert(e.opIndex);
            }
        }
        return v;
    };
    auto release = [&](int h, std::multiset<int>& want) {
        auto it = attached.find(h);
        if (it != attached.end()) {
            if (owned[it->second]) {
                want.insert(it->second);
            }
            attached.erase(it);
        }
        live.erase(h);
    };
    for (std::size_t i = 0; i <= s.ops.size(); ++i) {
        std::multiset<int> want;
        const bool end = i == s.ops.size();
        const Op* op = end ? nullptr : &s.ops[i];
        const bool ok = !end && o.ops[i].done && o.ops[i].cls.empty();
        if (end || (ok && (op->k == OP_CLEAR || op->k == OP_RENEW))) {
            std::vector<int> hs;
            for (const auto& a : attached) {
                hs.push_back(a.first);
            }
            for (int h : hs) {
                release(h, want);
            }
            live.clear();
            names.clear();
        }
        else if (ok && op->k == OP_ADD) {
            live.insert(op->h);
            for (const std::string& n : op->s) {
                if (std::find(names[op->h].begin(), names[op->h].end(), n) == names[op->h].end()) {
                    names[op->h].push_back(n);
                }
            }
        }
        else if (ok && op->k == OP_FLAG) {
            names[op->h].push_back(op->s[0]);
        }
        else if (ok && op->k == OP_REMOVE) {
            for (const std::string& n : op->s) {
                for (auto& e : names) {
                    auto it = std::find(e.second.begin(), e.second.end(), n);
                    if (it != e.second.end() && live.count(e.first)) {
                        e.second.erase(it);
                        if (e.second.empty()) {
                            release(e.first, want);
                        }
                    }
                }
            }
        }
        else if (!end && o.ops[i].done && op->k == OP_VALID) {
            if (ok && op->n == V_SAME) {
                auto it = attached.find(op->h);
                if (it != attached.end()) {
                    owned[it->second] = op->v.empty() || op->v[0] != 0;
                    tally("validators attached again");
                }
            }
            else if (ok) {
                auto it = attached.find(op->h);
                if (it != attached.end()) {
                    if (owned[it->second]) {
                        want.insert(it->second);
                    }
                    attached.erase(it);
                }
                if (op->n == V_SHARE) {
                    tally("validators shared");
                }
                else if (op->n != V_NULL) {
                    any = true;
                    attached[op->h] = static_cast<int>(i);
                    owned[static_cast<int>(i)] = op->v.empty() || op->v[0] != 0;
                    tally(owned[static_cast<int>(i)] ? "validators given" : "validators lent");
                }
            }
        }
        std::multiset<int> got = destroyedDuring(static_cast<int>(i));
        if (got != want) {
            std::string t = "during operation " + std::to_string(i) + " destroyed:";
            for (int x : got) {
                t += " " + std::to_string(x);
            }
            t += ", expected:";
            for (int x : want) {
                t += " " + std::to_string(x);
            }
            c.fail(got.size() > want.size() ? "early" : "late", t + " (numbers of the operations that attached them)", s);
            break;
        }
        tally("ledger entries", got.size());
    }
    note(c, s, any);
}

// ---------------------------------------------------------------- P18
// the order in which the threads took their steps; relaxed, so that it orders nothing
static std::atomic<int> g_step(0);
static const int kSteps = 4096;
static unsigned char g_order[kSteps];
static thread_local int t_thread = 0;
static thread_local std::uint64_t t_jitter = 1;

static void takeStep() {
    int at = g_step.fetch_add(1, std::memory_order_relaxed);
    if (at < kSteps) {
        __atomic_store_n(&g_order[at], static_cast<unsigned char>(t_thread), __ATOMIC_RELAXED);
    }
    if (t_thread == 0) {
        // a thread of the executor: any number will do
        t_thread = 1 + static_cast<int>((reinterpret_cast<std::size_t>(&t_thread) >> 12) % 250);
        t_jitter = reinterpret_cast<std::size_t>(&t_thread);
    }
    t_jitter = t_jitter * 6364136223846793005ull + 1442695040888963407ull;
    switch ((t_jitter >> 33) % 16) {
        case 0:
            sched_yield();
            break;
        case 1:
        case 2:
            for (volatile int i = 0; i < 300; ++i) {
            }
            break;
        default:
            break;
    }
}

static std::string orderTaken() {
    int n = std::min(g_step.load(std::memory_order_relaxed), kSteps);
    std::string o(reinterpret_cast<const char*>(g_order), static_cast<std::size_t>(n));
    int switches = 0;
    std::map<char, char> shortNames; // thread numbers in order of appearance
    for (std::size_t i = 0; i < o.size(); ++i) {
        switches += i > 0 && o[i] != o[i - 1];
    }
    for (char& x : o) {
        x = shortNames.insert(std::make_pair(x, static_cast<char>('a' + shortNames.size()))).first->second;
    }
    tally("steps of threads", static_cast<std::uint64_t>(n));
    tally("switches between threads", static_cast<std::uint64_t>(switches));
    return o;
}

static Script parserLife(Rng& r, int big = 2) {
    Script s;
    if (r.pct(30)) {
        wildHistory(r, s, false, big);
        return s;
    }
    Profile p;
    p.big = big;
    p.numeric = 25;
    p.valid = 35;
    p.dest = 35;
    p.defaults = 60;
    p.texts = 30;
    p.help = 40;
    p.required = 10;
    p.tame = true;
    p.helpToken = p.versionToken = 5;
    Spec sp = genSpec(r, p);
    tallyKinds(sp);
    sp.helpExc = sp.verExc = true;
    emit(sp, s, &r);
    for (int i = r.range(1, 3); i > 0; --i) {
        s.ops.push_back(parseOp(anyLine(r, sp, p, 25)));
    }
    return s;
}

static void p18(Case& c) {
    Rng& r = c.r;
    stepHook = nullptr;
    g_step.store(0, std::memory_order_relaxed);
    RunOptions ro;
    ro.noFork = true;
    const int threads = r.range(2, 4);
    std::string shown;
    if (r.pct(60)) {
        tally("rounds of private parsers");
        std::vector<Script> scripts;
        std::vector<std::string> alone;
        for (int i = 0; i < threads; ++i) {
            scripts.push_back(i > 0 && r.pct(25) ? scripts[0] : parserLife(r));
        }
        // the threads come first: nothing has used the library in this process before them
        std::vector<std::string> together(scripts.size()), second(scripts.size());
        std::atomic<int> ready(0);
        stepHook = &takeStep;
        std::vector<std::thread> ts;
        for (std::size_t i = 0; i < scripts.size(); ++i) {
            ts.push_back(std::thread([&, i]() {
                t_thread = static_cast<int>(i) + 1;
                t_jitter = c.index * 31 + i;
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) {
                }
                for (int k = 0; k < 2; ++k) {
                    Obs o;
                    runReal(scripts[i], ro, o);
                    std::string d = dump(o);
                    if (k == 0) {
                        together[i] = d;
                    }
                    else {
                        second[i] = d;
                    }
                }
            }));
        }
        for (std::thread& t : ts) {
            t.join();
        }
        stepHook = nullptr;
        shown = orderTaken();
        for (std::size_t i = 0; i < scripts.size(); ++i) {
            Obs o;
            runReal(scripts[i], ro, o);
            alone.push_back(dump(o));
        }
        for (std::size_t i = 0; i < scripts.size(); ++i) {
            tally("lives of parsers compared", 2);
            if (together[i] == alone[i]) {
                together[i] = second[i];
            }
            if (together[i] != alone[i]) {
                c.fail("together", "a parser used while others were used by other threads gave\n" + together[i] + "alone it gives\n" + alone[i], scripts[i]);
                return;
            }
        }
        c.nontrivial(shown + serialize(scripts[0]) + serialize(scripts[1]), "order of the steps: " + shown + "\nfirst thread:\n" + serialize(scripts[0]));
        return;
    }
    tally("rounds of one shared parser");
    Script s = parserLife(r);
    s.ops.push_back(Op(OP_OBSERVE));
    ro.readers = threads;
    stepHook = &takeStep;
    Obs o;
    runReal(s, ro, o);
    stepHook = nullptr;
    shown = orderTaken();
    tally("shared readings compared", static_cast<std::uint64_t>(threads) * 3);
    if (!o.ops.back().snap.error.empty()) {
        c.fail("shared", o.ops.back().snap.error, s);
        return;
    }
    c.nontrivial(shown + serialize(s), "order of the steps: " + shown + "\nhistory:\n" + serialize(s));
}

// ---------------------------------------------------------------- P19
static void shift(Spec& s, int by) {
    for (Def& d : s.defs) {
        d.h += by;
        d.valid.h += by;
        d.dest.h += by;
    }
}

// the observation log of a history: its signature is what builds are compared by
static void p19(Case& c) {
    Rng& r = c.r;
    Script s;
    if (r.pct(45)) {
        wildHistory(r, s, false);
    }
    else {
        Profile p;
        p.numeric = r.pct(50) ? 60 : 20;
        p.valid = r.pct(50) ? 50 : 10;
        p.dest = r.pct(50) ? 60 : 10;
        p.defaults = 55;
        p.texts = 60;
        p.help = 60;
        p.alt = 45;
        p.tame = r.pct(60);
        p.required = 15;
        p.userHelp = 20;
        p.helpToken = p.versionToken = 6;
        Spec sp = genSpec(r, p);
        sp.helpExc = r.pct(75);
        sp.verExc = r.pct(75);
        tallyKinds(sp);
        emit(sp, s, &r);
        for (int i = r.range(1, 3); i > 0; --i) {
            s.ops.push_back(parseOp(anyLine(r, sp, p, 30)));
            if (r.pct(25)) {
                s.ops.push_back(Op(OP_OBSERVE));
            }
        }
        if (r.pct(15)) {
            s.ops.push_back(Op(OP_CLEAR));
            shift(sp, 1000);
            emit(sp, s, &r);
            s.ops.push_back(parseOp(anyLine(r, sp, p, 30)));
        }
        Options mo;
        Obs m;
        model::run(s, mo, m); // marks the parses that end the process
        if (!destinationsFit(sp, s, m)) {
            tally("discarded");
            return;
        }
    }
    Obs o;
    RunOptions ro;
    ro.snapEveryOp = r.pct(20);
    runReal(s, ro, o);
    for (const OpResult& x : o.ops) {
        tally(x.exited ? "calls that ended the process" : x.cls.empty() ? "calls that returned" : "calls ended by " + x.cls);
    }
    const std::string d = dump(o);
    c.nontrivial(d, serialize(s) + "-- observed\n" + d);
}

// ---------------------------------------------------------------- P20

static void p20(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.numeric = 25;
    p.tame = true;
    p.valid = 20;
    p.dest = 15;
    p.texts = 75;
    p.required = 10;
    p.helpToken = p.versionToken = 8;
    p.userHelp = 25;
    p.alt = 50;
    p.strict = 50;
    p.oneHelpName = 10;
    Spec s1 = genSpec(r, p), s2 = genSpec(r, p);
    s2.texts.resize(static_cast<std::size_t>(r.below(static_cast<int>(s2.texts.size()) + 1)));
    shift(s2, 1000);
    Script a, b;
    emit(s1, a);
    int n = r.below(3);
    for (int i = 0; i < n; ++i) {
        a.ops.push_back(parseOp(anyLine(r, s1, p, 30), r.pct(50) ? "prog" : progName(r)));
        if (r.pct(40)) { // modes and texts set between the lines
            Spec other = genSpec(r, p);
            std::vector<Op> m = modeOps(other);
            r.shuffle(m);
            m.resize(static_cast<std::size_t>(r.range(0, static_cast<int>(m.size()))));
            a.ops.insert(a.ops.end(), m.begin(), m.end());
        }
    }
    if (r.pct(40)) {
        a.ops.push_back(Op(OP_OBSERVE));
    }
    if (r.pct(20) && !s1.defs.empty()) {
        Op o(OP_REMOVE);
        o.s.push_back(s1.defs[0].names[0]);
        a.ops.push_back(o);
    }
    a.ops.push_back(Op(OP_CLEAR));
    if (r.pct(15)) {
        a.ops.push_back(Op(OP_CLEAR));
    }
    const std::size_t na = a.ops.size();
    std::vector<Op> tail(1, Op(OP_OBSERVE));
    Script second;
    emit(s2, second);
    tail.insert(tail.end(), second.ops.begin(), second.ops.end());
    tail.push_back(Op(OP_OBSERVE));
    n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        tail.push_back(parseOp(anyLine(r, s2, p, 25), r.pct(50) ? "prog" : progName(r)));
    }
    a.ops.insert(a.ops.end(), tail.begin(), tail.end());
    b.ops = tail;
    {
        Script copy = a;
        Options mo;
        Obs m;
        model::run(copy, mo, m);
        if (!destinationsFit(s1, copy, m) || !destinationsFit(s2, copy, m)) {
            tally("discarded");
            return;
        }
    }
    Options mo;
    RunOptions ro;
    Obs ra, rb, ma, mb;
    model::run(a, mo, ma);
    model::run(b, mo, mb);
    runReal(a, ro, ra);
    ro.universe = nameUniverse(a);
    runReal(b, ro, rb);
    observed(a, ma);
    std::string key, d = sameRuns(ra, na, rb, 0, tail.size(), S_DESTS, &key);
    if (!d.empty()) {
        c.fail("cleared:" + key, d, a, b);
        return;
    }
    d = difference(a, ra, ma, A_TEXTS, &key);
    if (!d.empty()) {
        c.fail("texts:" + key, d, a);
        return;
    }
    const Snapshot& e = ra.ops[na].snap;
    if (!e.args.empty() || !e.additional.empty() || !e.bin.empty() || !e.version.empty() || !e.desc.empty() || !e.epilog.empty() || e.alt || e.strict ||
        e.helpExc || e.verExc || e.usage != ma.ops[na].snap.usage) {
        c.fail("remains", "after clearing: " + dumpSnapshot(e), a);
    }
    note(c, a);
}

// ---------------------------------------------------------------- P21
static void p21(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.same = r.pct(30) ? 25 : 0;
    p.numeric = 30;
    p.tame = false;
    p.weird = 30;
    p.valid = 15;
    p.required = 5;
    p.helpToken = p.versionToken = 5;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        sc.ops.push_back(parseOp(anyLine(r, s, p, 25)));
    }
    Options mo;
    RunOptions ro;
    mo.noUsage = ro.noUsage = true;
    mo.snapEveryOp = ro.snapEveryOp = true;
    ro.copies = r.pct(40);
    Obs ra, ma;
    model::run(sc, mo, ma);
    runReal(sc, ro, ra);
    observed(sc, ma);
    for (std::size_t i = 0; i < sc.ops.size(); ++i) {
        std::string key, d = viewsAgree(ra.ops[i].snap, &key);
        tally("arguments viewed", ra.ops[i].snap.args.size());
        if (!d.empty()) {
            c.fail("views:" + key, "after operation " + std::to_string(i) + ": " + d, sc);
            return;
        }
    }
    std::string key, d = difference(sc, ra, ma, A_VIEWS | A_TRUTH, &key);
    if (!d.empty()) {
        c.fail(key, d, sc);
    }
    note(c, sc);
}

// ---------------------------------------------------------------- P22
static void p22(Case& c) {
    Rng& r = c.r;
    if (!allocHooks.arm) {
        c.fail("HARNESS", "no allocation faults in this build", Script());
        return;
    }
    Profile p;
    p.userHelp = r.pct(50) ? 100 : 0;
    p.numeric = 20;
    p.tame = true;
    p.valid = 40;
    p.dest = 40;
    p.defaults = 60;
    p.required = 8;
    p.helpToken = p.versionToken = 5;
    p.oneHelpName = 0;
    p.big = 0; // the number of points to fail is what takes the time
    Spec s = genSpec(r, p);
    if (p.userHelp && !s.userHelp()) {
        Def d;
        d.h = static_cast<int>(s.defs.size());
        d.kind = K_HELP;
        d.names.push_back(s.byName("-h") ? "--help" : "-h");
        if (s.byName(d.names[0])) {
            d.names[0] = "--show-help";
        }
        d.action = A_HELP;
        d.hasAction = true;
        s.defs.push_back(d);
    }
    s.helpExc = s.verExc = true;
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    if (r.pct(30)) {
        sc.ops.push_back(parseOp(anyLine(r, s, p, 30)));
    }
    const int at = static_cast<int>(sc.ops.size());
    sc.ops.push_back(parseOp(anyLine(r, s, p, 25)));
    sc.ops.push_back(parseOp(anyLine(r, s, p, 15)));
    Options mo;
    mo.noUsage = true;
    Obs mod;
    {
        model::run(sc, mo, mod);
        if (!destinationsFit(s, sc, mod)) {
            tally("discarded");
            return;
        }
    }
    RunOptions ro;
    ro.noUsage = true;
    ro.faultOp = at;
    Obs base;
    runReal(sc, ro, base);
    observed(sc, mod);
    const long n = base.allocations;
    tally("allocations of the parse", static_cast<std::uint64_t>(n));
    const std::size_t b = static_cast<std::size_t>(at) + 1;
    bool skipped = false;
    for (int all = 0; all < 2; ++all) {
        for (long k = 1; k <= n; ++k) {
            if (n > 400 && r.below(static_cast<int>(n)) > 400) {
                skipped = true;
                continue;
            }
            if (all && r.pct(70)) {
                continue;
            }
            Obs o;
            ro.faultAt = k;
            ro.faultAll = all != 0;
            runReal(sc, ro, o);
            const OpResult& res = o.ops[static_cast<std::size_t>(at)];
            const std::string where = std::string("allocation ") + std::to_string(k) + (all ? " and all after it" : "") + " of operation " + std::to_string(at) + " failed: ";
            std::string key, d;
            tally(all ? "lasting failures" : "single failures");
            if (res.cls == "std::bad_alloc") {
                tally("reported as out of memory");
            }
            else {
                d = sameRuns(base, static_cast<std::size_t>(at), o, static_cast<std::size_t>(at), 1, 0, &key);
                tally("parse completed all the same");
                if (!d.empty()) {
                    c.fail("fault:" + key, where + "the parse did not report it and gave another result\n" + d, sc);
                    return;
                }
            }
            d = sameRuns(base, b, o, b, 1, S_DESTS, &key);
            if (!d.empty()) {
                c.fail("after:" + key, where + "the next parse differs\n" + d, sc);
                return;
            }
            if (o.destroyedAtEnd != base.destroyedAtEnd) {
                c.fail("release", where + "validators are not destroyed exactly once", sc);
                return;
            }
        }
    }
    tally(skipped ? "parses with some allocations failed" : "parses with every allocation failed");
    note(c, sc, n > 0);
}

// ---------------------------------------------------------------- P23
static Op textOp(int k, const std::string& t, int h = -1) {
    Op o(k, h);
    o.s.push_back(t);
    return o;
}

static void p23(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.same = r.pct(30) ? 25 : 0;
    p.numeric = 20;
    p.tame = true;
    p.texts = 60;
    p.help = 50;
    p.metavar = 30;
    p.valid = 20;
    p.dest = 30;
    p.weird = 30;
    p.oneHelpName = 0;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script a, b;
    emit(s, a, &r);
    if (!s.defs.empty() && r.pct(60)) { // texts that the parser has already, for something else or again for the same
        if (r.pct(50)) {
            a.ops.push_back(parseOp(anyLine(r, s, p, 20), progName(r)));
        }
        for (int i = r.range(1, 6); i > 0; --i) {
            Strs have;
            for (const Op& o : a.ops) {
                if (o.k == OP_HELP || o.k == OP_METAVAR || o.k == OP_DEFAULTS || o.k == OP_SETVERSION || o.k == OP_ADD || o.k == OP_FLAG || o.k == OP_SETBIN || o.k == OP_PARSE) {
                    have.insert(have.end(), o.s.begin(), o.s.end());
                }
            }
            const Def& d = r.pick(s.defs);
            if (r.pct(50)) {
                have = {!d.help.empty() ? d.help : !d.metavar.empty() ? d.metavar : d.names[0]};
            }
            static const int kinds[] = {OP_HELP, OP_HELP, OP_HELP, OP_METAVAR, OP_METAVAR, OP_SETBIN, OP_SETVERSION, OP_DESC, OP_EPILOG, OP_GET, OP_FLAG};
            const int k = kinds[r.below(11)];
            if (!have.empty() && !(k == OP_FLAG && d.pos())) {
                std::string t = r.pick(have);
                if (k != OP_GET && k != OP_FLAG && !t.empty() && r.pct(30)) {
                    t.erase(0, static_cast<std::size_t>(r.below(static_cast<int>(t.size()))));
                }
                a.ops.push_back(textOp(k, t, k == OP_HELP || k == OP_METAVAR || k == OP_FLAG ? d.h : -1));
            }
        }
    }
    b = a;
    const std::size_t na = a.ops.size();
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        Op o = parseOp(anyLine(r, s, p, 20), progName(r));
        const int argc = r.pct(60) ? r.below(static_cast<int>(o.s.size()) + 1) : static_cast<int>(o.s.size());
        Op q = o;
        q.s.resize(static_cast<std::size_t>(argc));
        b.ops.push_back(q);
        o.v.push_back(argc);
        o.v.push_back(r.pct(30));
        a.ops.push_back(o);
        tally(argc < static_cast<int>(o.s.size()) ? "vectors longer than the count" : "whole vectors");
    }
    {
        Script copy = a;
        Options mo;
        Obs m;
        model::run(copy, mo, m);
        if (!destinationsFit(s, copy, m)) {
            tally("discarded");
            return;
        }
    }
    Runs x;
    if (!judge(c, a, A_ARGV | A_TEXTS | A_PROPS | A_NAMES | A_VALUES | A_ADDITIONAL | A_DESTS | A_USAGE, x)) {
        return;
    }
    RunOptions ro;
    {
        Obs own;
        ro.ownTexts = true;
        ro.universe = nameUniverse(a);
        runReal(a, ro, own);
        ro.ownTexts = false;
        ro.universe.clear();
        tally("calls given a text of the parser itself", static_cast<std::uint64_t>(own.ownTexts));
        std::string key, d = sameRuns(x.real, 0, own, 0, a.ops.size(), 0, &key);
        if (!d.empty()) {
            c.fail("own:" + key, "given the parser's own texts where it has them\n" + d, a, a);
            return;
        }
    }
    Obs rb;
    Options mo;
    Obs mb;
    model::run(b, mo, mb);
    runReal(b, ro, rb);
    std::string key, d = sameRuns(x.real, na, rb, na, static_cast<std::size_t>(n), 0, &key);
    if (!d.empty()) {
        c.fail("count:" + key, d, a, b);
    }
    note(c, a);
}

// ---------------------------------------------------------------- P24
static void p24(Case& c) {
    Rng& r = c.r;
    static const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25};
    const int n = sizes[r.below(23)];
    Strs items;
    for (int i = 0; i < n; ++i) {
        items.push_back(r.pct(15) ? hostileText(r, 20) : r.pct(10) ? "" : "item " + std::to_string(i));
    }
    Script s;
    Op o(OP_ADD, 0);
    const int use = r.below(3);
    tally(use == 0 ? "lists of names" : use == 1 ? "lists of defaults" : "lists of choices");
    if (use == 0) {
        for (int i = 0; i < n; ++i) {
            o.s.push_back(i % 2 ? "--name" + std::to_string(i) : std::string("-") + static_cast<char>('A' + i));
        }
        if (n > 2 && r.pct(10)) {
            o.s[static_cast<std::size_t>(r.below(n))] = items[0];
        }
        s.ops.push_back(o);
        if (n > 1 && r.pct(40)) {
            Op q(OP_REMOVE);
            q.s.assign(o.s.begin() + r.below(n), o.s.end());
            r.shuffle(q.s);
            s.ops.push_back(q);
        }
    }
    else {
        o.s.push_back("--list");
        s.ops.push_back(o);
        s.ops.push_back(Op(OP_ACTION, 0, A_EXTEND));
        if (use == 1) {
            if (n == 0) {
                return;
            }
            Op q(OP_DEFAULTS, 0);
            q.s = items;
            s.ops.push_back(q);
        }
        else {
            Op q(OP_VALID, 0, V_CHOICE);
            q.s = items;
            q.v.push_back(1);
            q.v.push_back(0);
            s.ops.push_back(q);
        }
    }
    s.ops.push_back(Op(OP_OBSERVE));
    Strs line;
    if (use == 2) {
        line.push_back("--list=" + (n && r.pct(80) ? r.pick(items) : "other"));
        if (n && r.pct(50)) {
            line.push_back("--list=" + r.pick(items));
        }
    }
    else if (use == 0 && n) {
        line.push_back(o.s[static_cast<std::size_t>(r.below(n))] + "=v");
    }
    s.ops.push_back(parseOp(line));
    Obs first;
    std::size_t done = 0;
    for (int style = 0; style < 10; ++style) {
        Script t = s;
        for (Op& q : t.ops) {
            if (q.k == OP_ADD || q.k == OP_DEFAULTS || q.k == OP_REMOVE) {
                q.n = style;
            }
            if (q.k == OP_VALID) {
                q.v[1] = style;
            }
        }
        Runs x;
        t.ops.insert(t.ops.begin(), Op(OP_HELPEXC, -1, 1));
        if (!judge(c, t, A_BUILDER | A_NAMES | A_PROPS | A_VALUES | A_VALIDERR | A_FORM | A_FORMTEXT, x)) {
            return;
        }
        if (style == 0) {
            first = x.real;
        }
        else {
            std::string key, d = sameRuns(first, 0, x.real, 0, t.ops.size(), 0, &key);
            if (!d.empty()) {
                c.fail("style:" + key, d + "\nway of writing " + std::to_string(style), t);
                return;
            }
        }
        ++done;
    }
    tally("ways of writing compared", done);
    tally("lists of " + std::to_string(n));
    note(c, s);
}

// ---------------------------------------------------------------- P25
static std::string expectedBases(const std::string& cls) {
    std::string r = "std::exception Exception ";
    if (cls == "Exception") {
        return r;
    }
    if (cls == "HelpException" || cls == "VersionException") {
        return r + cls + " ";
    }
    r += "ArgumentException ";
    if (cls == "ArgumentException") {
        return r;
    }
    if (cls == "AccessDeniedException") {
        return r + cls + " ";
    }
    r += "ParseArgumentException ";
    return cls == "ParseArgumentException" ? r : r + cls + " ";
}

static void p25(Case& c) {
    Rng& r = c.r;
    Script s;
    bool user = false; // user code throws
    const bool wild = r.pct(35);
    if (wild) {
        wildHistory(r, s, false);
        user = true;
    }
    else {
        Profile p;
        p.tame = true;
        p.valid = r.pct(50) ? 40 : 5;
        p.dest = 10;
        p.noConversion = 20;
        p.required = 25;
        p.texts = 25;
        p.help = 30;
        p.helpToken = p.versionToken = 12;
        Spec sp = genSpec(r, p);
        tallyKinds(sp);
        emit(sp, s, &r);
        for (int i = r.range(1, 4); i > 0; --i) {
            s.ops.push_back(parseOp(anyLine(r, sp, p, 50)));
            if (r.pct(40) && !sp.defs.empty()) { // refused definitions
                const Def& d = r.pick(sp.defs);
                const int k = r.below(7);
                Op o(k == 0 ? OP_ADD : k == 1 ? OP_FLAG : k == 2 ? OP_GET : k == 3 ? OP_REMOVE : k == 4 ? OP_NARGS : k == 5 ? OP_ACTION : OP_DEFAULTS, k == 0 ? 900 + i : d.h);
                const std::string bad = r.pct(50) ? r.pick(d.names) : hostileText(r, 40);
                o.s.push_back(bad);
                if (k == 2 || k == 3) {
                    o.s[0] = r.pct(20) ? r.pick(d.names) : hostileText(r, 40);
                    o.n = k == 2 ? r.below(3) : 0;
                }
                if (k == 4) {
                    o.s.clear();
                    o.n = r.below(4);
                }
                if (k == 5) {
                    o.s.clear();
                    o.n = r.below(8);
                }
                if (k == 6) {
                    o.s.assign(static_cast<std::size_t>(r.range(1, 4)), "d");
                }
                s.ops.push_back(o);
            }
        }
        for (const Def& d : sp.defs) {
            user = user || (d.hasValid && d.valid.n == V_FOREIGN);
        }
    }
    Obs mod;
    {
        Script copy = s;
        Options mo;
        mo.noSnap = true;
        model::run(copy, mo, mod); // marks the parses that end the process
        s = copy;
    }
    RunOptions ro;
    ro.noSnap = true;
    ro.errors = true;
    Obs o;
    runReal(s, ro, o);
    bool any = false;
    std::string seen;
    for (std::size_t i = 0; i < o.ops.size(); ++i) {
        const OpResult& x = o.ops[i];
        if (x.cls.empty() || s.ops[i].n == 1) {
            continue; // no failure, or in a child process
        }
        any = true;
        seen += std::to_string(i) + x.cls + x.arg + "|" + x.what + "\n";
        tally("caught " + x.cls);
        const std::string at = "operation " + std::to_string(i) + " threw " + x.cls + " (" + escText(x.arg) + ": " + escText(x.what) + "): ";
        static const char* const known[] = {"Exception", "HelpException", "VersionException", "ArgumentException", "AccessDeniedException",
            "ParseArgumentException", "ParseArgumentRequiredException", "ParseArgumentValidException"};
        if (std::find(std::begin(known), std::end(known), x.cls) == std::end(known)) {
            if (!(user && x.cls == "std::runtime_error")) {
                c.fail("class", at + "not a documented exception", s);
                return;
            }
            continue;
        }
        if (!wild && x.cls != mod.ops[i].cls) {
            c.fail("kind", at + "expected " + (mod.ops[i].cls.empty() ? "no failure" : mod.ops[i].cls + " (" + escText(mod.ops[i].arg) + ": " + escText(mod.ops[i].what) + ")"), s);
            return;
        }
        if (x.bases != expectedBases(x.cls)) {
            c.fail("bases", at + "is caught as " + x.bases + "and should be as " + expectedBases(x.cls), s);
            return;
        }
        if (x.later != x.arg + "|" + x.what) {
            c.fail("later", at + "a copy of it says " + escText(x.later) + " when the rest is gone", s);
            return;
        }
        tally("copies of exceptions read at the end");
    }
    c.nontrivial(any ? serialize(s) : std::string(), serialize(s) + seen);
    if (!any) {
        c.signature = 0;
    }
}

// ---------------------------------------------------------------- P26
static void p26(Case& c) {
    Rng& r = c.r;
    Script s;
    if (r.pct(35)) {
        wildHistory(r, s, true, 0);
    }
    else {
        Profile p;
        p.same = r.pct(30) ? 25 : 0;
        p.big = r.pct(3) ? 1 : 0;
        p.numeric = 30;
        p.tame = true;
        p.valid = 25;
        p.dest = 25;
        p.defaults = 60;
        p.texts = 45;
        p.help = 40;
        p.required = 15;
        p.userHelp = 20;
        p.helpToken = p.versionToken = 6;
        Spec sp = genSpec(r, p);
        sp.helpExc = r.pct(80);
        sp.verExc = r.pct(80);
        tallyKinds(sp);
        emit(sp, s, &r);
        for (int i = r.range(1, 4); i > 0; --i) {
            s.ops.push_back(parseOp(anyLine(r, sp, p, 30)));
        }
        if (r.pct(20)) {
            s.ops.push_back(Op(OP_CLEAR));
            shift(sp, 1000);
            emit(sp, s, &r);
            s.ops.push_back(parseOp(anyLine(r, sp, p, 30)));
        }
    }
    s.ops.push_back(Op(OP_OBSERVE));
    {
        Options mo;
        mo.noSnap = true;
        Obs m;
        model::run(s, mo, m);
        observed(s, m);
    }
    RunOptions a, b;
    a.noSnap = true;
    a.snapLast = true;
    a.universe.push_back("--nobody");
    a.universe.push_back("");
    a.universe.push_back("-");
    a.universe.push_back("-help");
    b.universe = a.universe;
    b.snapEveryOp = true;
    b.twice = true;
    b.copies = r.pct(50);
    Obs x, y;
    runReal(s, a, x);
    runReal(s, b, y);
    tally("readings of the whole parser", 2 * s.ops.size());
    for (std::size_t i = 0; i < y.ops.size(); ++i) {
        if (!y.ops[i].snap.error.empty()) {
            c.fail("twice", "after operation " + std::to_string(i) + ": " + y.ops[i].snap.error, s);
            return;
        }
        if (i + 1 < y.ops.size()) {
            y.ops[i].snap = Snapshot();
        }
    }
    const std::string p = dump(x), q = dump(y);
    if (p != q) {
        c.fail("reading", "without readings\n" + p + "with readings after every operation\n" + q, s);
        return;
    }
    note(c, s);
}

// ---------------------------------------------------------------- P27
static void p27(Case& c) {
    Rng& r = c.r;
    Profile p;
    const bool longLife = r.pct(2);
    if (longLife) {
        p.big = 0;
        p.maxOpts = 5;
    }
    p.numeric = 20;
    p.tame = true;
    p.valid = 50;
    p.dest = 50;
    p.throws = 45;
    p.defaults = 50;
    p.required = 5;
    p.give = 45;
    p.helpToken = p.versionToken = 3;
    p.oneHelpName = 0;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    Script a, b;
    emit(s, a);
    emit(s, b);
    for (int i = longLife ? r.range(15, 40) : r.range(1, 4); i > 0; --i) {
        a.ops.push_back(parseOp(anyLine(r, s, p, 15)));
    }
    const Strs last = anyLine(r, s, p, 10);
    a.ops.push_back(parseOp(last));
    b.ops.push_back(parseOp(last));
    Options mo;
    RunOptions ro;
    Runs x, y;
    model::run(a, mo, x.mod);
    if (!destinationsFit(s, a, x.mod)) {
        tally("discarded");
        return;
    }
    model::run(b, mo, y.mod);
    runReal(a, ro, x.real);
    ro.universe = nameUniverse(a);
    runReal(b, ro, y.real);
    observed(a, x.mod);
    bool any = false;
    for (std::size_t i = 0; i < a.ops.size(); ++i) {
        const OpResult& m = x.mod.ops[i];
        if (a.ops[i].k == OP_PARSE && (m.phase == "dest" || (m.phase == "valid" && m.cls != "ParseArgumentValidException"))) {
            any = true;
            tally((m.phase == "dest" ? "thrown by a conversion: " : "thrown by a validator: ") + m.cls);
        }
    }
    std::string key;
    std::string d = difference(a, x.real, x.mod, A_ERROR | A_VALIDATORS | A_CUSTOM | A_DESTS | A_FAILDESTS | A_VALUES | A_COUNT | A_DESTROY, &key);
    if (!d.empty()) {
        c.fail(key, d, a);
        return;
    }
    d = sameRuns(x.real, a.ops.size() - 1, y.real, b.ops.size() - 1, 1, S_DESTS, &key);
    if (!d.empty()) {
        c.fail("after:" + key, "a line after exceptions of user code against the same line on a new parser: " + d, a, b);
        return;
    }
    note(c, a, any);
}

// ---------------------------------------------------------------- P28
// Parsers used alternately: every history runs on a stack of its own, and at every call, reading, validator
// call and conversion the next one to go on is chosen anew.  One thread throughout.
extern "C" void* __cxa_get_globals();

struct Fiber {
    ucontext_t at;
    const Script* script = nullptr;
    const RunOptions* opt = nullptr;
    Obs obs;
    bool done = false;
    ExecutorContext executor = {nullptr, 0};
    char exceptions[2 * sizeof(void*)] = {};
};
static std::vector<Fiber*> g_fibers;
static std::size_t g_running;
static ucontext_t g_back;
static Rng* g_choice;
static int g_switchPct;
static std::string g_schedule;

static void goTo(std::size_t to) {
    const std::size_t from = g_running;
    if (from == to) {
        return;
    }
    Fiber &f = *g_fibers[from], &t = *g_fibers[to];
    f.executor = executorContext();
    std::memcpy(f.exceptions, __cxa_get_globals(), sizeof f.exceptions);
    std::memcpy(__cxa_get_globals(), t.exceptions, sizeof t.exceptions);
    setExecutorContext(t.executor);
    g_running = to;
    if (g_schedule.size() < 4000) {
        g_schedule += static_cast<char>('a' + to);
    }
    tally("switches between parsers");
    swapcontext(&f.at, &t.at);
}

static bool chooseNext(std::size_t* to) {
    std::vector<std::size_t> live;
    for (std::size_t i = 0; i < g_fibers.size(); ++i) {
        if (!g_fibers[i]->done) {
            live.push_back(i);
        }
    }
    if (live.empty()) {
        return false;
    }
    *to = g_choice->pick(live);
    return true;
}

static void fiberStep() {
    std::size_t to;
    if (g_choice->pct(g_switchPct) && chooseNext(&to)) {
        goTo(to);
    }
}

static void fiberMain() {
    Fiber& f = *g_fibers[g_running];
    runReal(*f.script, *f.opt, f.obs);
    f.done = true;
    std::size_t to;
    if (chooseNext(&to)) {
        goTo(to); // never comes back
    }
    setcontext(&g_back);
}

// four stacks, each with a page below it that cannot be touched
static const std::size_t kFiberStack = 4 << 20;
static void* fiberStack(std::size_t i) {
    static char* stacks[4];
    if (!stacks[i]) {
        void* m = mmap(nullptr, kFiberStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) {
            throw std::bad_alloc();
        }
        mprotect(m, 4096, PROT_NONE);
        stacks[i] = static_cast<char*>(m) + 4096;
    }
    return stacks[i];
}

static void p28(Case& c) {
    Rng& r = c.r;
    const int n = r.range(2, 4);
    std::vector<Script> scripts;
    RunOptions ro;
    ro.noFork = true;
    ro.snapEveryOp = r.pct(20);
    for (int i = 0; i < n; ++i) {
        scripts.push_back(i > 0 && r.pct(20) ? scripts[0] : parserLife(r, 0));
    }
    stepHook = nullptr;
    std::vector<Fiber> fibers(scripts.size());
    g_fibers.clear();
    for (std::size_t i = 0; i < fibers.size(); ++i) {
        fibers[i].script = &scripts[i];
        fibers[i].opt = &ro;
        getcontext(&fibers[i].at);
        fibers[i].at.uc_stack.ss_sp = fiberStack(i);
        fibers[i].at.uc_stack.ss_size = kFiberStack;
        fibers[i].at.uc_link = nullptr;
        makecontext(&fibers[i].at, &fiberMain, 0);
        g_fibers.push_back(&fibers[i]);
    }
    static const int often[] = {3, 15, 50, 100};
    g_switchPct = often[r.below(4)];
    g_choice = &r;
    g_schedule.clear();
    g_running = 0;
    const ExecutorContext mine = executorContext();
    char exceptions[2 * sizeof(void*)];
    std::memcpy(exceptions, __cxa_get_globals(), sizeof exceptions);
    stepHook = &fiberStep;
    swapcontext(&g_back, &fibers[0].at);
    stepHook = nullptr;
    setExecutorContext(mine);
    std::memcpy(__cxa_get_globals(), exceptions, sizeof exceptions);
    std::string all;
    for (std::size_t i = 0; i < scripts.size(); ++i) {
        Obs alone;
        runReal(scripts[i], ro, alone);
        const std::string p = dump(fibers[i].obs), q = dump(alone);
        tally("lives of parsers compared");
        for (const Event& e : alone.events) {
            tally(e.kind == 'V' ? "validator calls" : e.kind == 'D' ? "conversions" : "validators destroyed");
        }
        if (p != q) {
            c.fail("alternately", "a parser used alternately with others gave\n" + p + "alone it gives\n" + q + "schedule " + g_schedule, scripts[i]);
            return;
        }
        all += serialize(scripts[i]) + "%% other\n";
    }
    c.nontrivial(g_schedule + all, "schedule: " + g_schedule + "\n" + all);
}

// ---------------------------------------------------------------- P29
static void p29(Case& c) {
    Rng& r = c.r;
    if (!allocHooks.arm) {
        c.fail("HARNESS", "no allocation faults in this build", Script());
        return;
    }
    Script s;
    if (r.pct(40)) {
        wildHistory(r, s, true, 0);
    }
    else {
        Profile p;
        p.big = 0;
        p.numeric = 20;
        p.tame = true;
        p.valid = 45;
        p.dest = 45;
        p.defaults = 70;
        p.texts = 50;
        p.help = 40;
        p.metavar = 30;
        p.required = 10;
        p.oneHelpName = 0;
        p.helpToken = p.versionToken = 5;
        Spec sp = genSpec(r, p);
        sp.helpExc = sp.verExc = true;
        tallyKinds(sp);
        emit(sp, s, &r);
        if (r.pct(50)) { // something defined once more, after a parse or not
            if (r.pct(60)) {
                s.ops.push_back(parseOp(anyLine(r, sp, p, 20)));
            }
            std::vector<Op> again;
            for (const Op& o : s.ops) {
                const bool text = o.k == OP_SETVERSION || o.k == OP_SETBIN || o.k == OP_DESC || o.k == OP_EPILOG || o.k == OP_USAGE;
                if ((text || o.k == OP_DEFAULTS || o.k == OP_ACTION || o.k == OP_NARGS || o.k == OP_HELP || o.k == OP_METAVAR) && r.pct(60)) {
                    again.push_back(o);
                    for (std::string& t : again.back().s) {
                        t += r.pct(50) ? " and a text that does not fit into a short string" : "+";
                    }
                }
            }
            for (const Def& d : sp.defs) {
                if (!d.pos() && r.pct(40)) {
                    Op o(OP_FLAG, d.h);
                    o.s.push_back(r.pct(50) ? "--another-flag-with-a-long-name-" + std::to_string(d.h) : std::string("-") + "0123456789ZY"[r.below(12)]);
                    again.push_back(o);
                }
                if (r.pct(25)) {
                    Op o(OP_REMOVE, -1, r.below(10));
                    o.s.push_back(r.pick(d.names));
                    if (r.pct(40)) {
                        o.s.push_back(r.pick(r.pick(sp.defs).names));
                    }
                    again.push_back(o);
                }
            }
            s.ops.insert(s.ops.end(), again.begin(), again.end());
        }
        for (int i = r.range(1, 2); i > 0; --i) {
            s.ops.push_back(parseOp(anyLine(r, sp, p, 20)));
        }
    }
    std::map<int, std::vector<std::size_t> > places;
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        Op& o = s.ops[i];
        switch (o.k) {
            case OP_DEST:
                if (o.n == D_CSTR) {
                    o.n = D_STRING; // its text is not promised beyond the next definition
                }
                // fall through
            case OP_ADD:
            case OP_FLAG:
            case OP_ACTION:
            case OP_NARGS:
            case OP_REQUIRED:
            case OP_METAVAR:
            case OP_HELP:
            case OP_DEFAULTS:
            case OP_REMOVE:
            case OP_SETVERSION:
            case OP_SETBIN:
            case OP_DESC:
            case OP_EPILOG:
            case OP_USAGE:
            case OP_GET:
                places[o.k].push_back(i);
                break;
            default:
                break;
        }
    }
    if (places.empty()) {
        tally("discarded");
        return;
    }
    std::vector<int> kinds;
    for (const auto& p : places) {
        const bool weighty = p.first == OP_ADD || p.first == OP_FLAG || p.first == OP_DEFAULTS || p.first == OP_REMOVE || p.first == OP_DEST || p.first == OP_NARGS || p.first == OP_ACTION;
        kinds.insert(kinds.end(), weighty ? 4 : 1, p.first);
    }
    const int kind = r.pick(kinds);
    std::size_t at = r.pick(places[kind]);
    Options mo;
    mo.noUsage = true;
    if (r.pct(50)) { // help and version are still what they were
        Strs special(1, "--help");
        for (const Op& o : s.ops) {
            if (o.k == OP_ACTION && (o.n == 1 || o.n == 2)) {
                for (const Op& q : s.ops) {
                    if (q.k == OP_ADD && q.h == o.h) {
                        special.insert(special.end(), q.s.begin(), q.s.end());
                    }
                }
            }
        }
        s.ops.push_back(parseOp(Strs(1, r.pick(special))));
        s.ops.insert(s.ops.begin(), Op(OP_HELPEXC, -1, 1));
        s.ops.insert(s.ops.begin(), Op(OP_VEREXC, -1, 1));
        at += 2;
    }
    Obs mod;
    model::run(s, mo, mod);
    // once without the call that fails, once with it
    // or: what follows as if the call had not been made
    const bool dropped = r.pct(50);
    tally(dropped ? "call not made again" : "call made again");
    Script once = s, twice = s;
    if (dropped) {
        once.ops[at] = Op(OP_OBSERVE);
    }
    else {
        once.ops.insert(once.ops.begin() + static_cast<long>(at), Op(OP_OBSERVE));
        twice.ops.insert(twice.ops.begin() + static_cast<long>(at), s.ops[at]);
    }
    RunOptions ro;
    ro.noFork = true;
    ro.universe = nameUniverse(s);
    for (const Op& o : s.ops) {
        if (o.k == OP_PARSE && o.n == 1) {
            tally("discarded");
            return;
        }
    }
    Obs base, count;
    runReal(once, ro, base);
    ro.faultOp = static_cast<int>(at);
    runReal(twice, ro, count);
    observed(s, mod);
    const long n = count.allocations;
    tally("allocations of the call", static_cast<std::uint64_t>(n));
    tally("calls of kind " + std::to_string(kind));
    bool any = false;
    for (int all = 0; all < 2; ++all) {
        for (long k = 1; k <= n; ++k) {
            if (all && r.pct(60)) {
                continue;
            }
            Obs o;
            ro.faultAt = k;
            ro.faultAll = all != 0;
            runReal(twice, ro, o);
            const std::string where = std::string("allocation ") + std::to_string(k) + (all ? " and all after it" : "") + " of operation " + std::to_string(at) + " failed: ";
            tally(all ? "lasting failures" : "single failures");
            std::string key, d;
            if (o.ops[at].cls != "std::bad_alloc") {
                tally("completed all the same");
                if (dropped) {
                    continue;
                }
                d = sameRuns(base, at + 1, o, at, 1, S_EVENTS | S_DESTS, &key);
                if (!d.empty()) {
                    c.fail("fault:" + key, where + "the call did not report it and gave another result\n" + d, twice);
                    return;
                }
                continue;
            }
            any = true;
            tally("reported as out of memory");
            const std::string u = dumpSnapshot(base.ops[at].snap), v = dumpSnapshot(o.ops[at].snap);
            if (u != v) {
                c.fail("changed", where + "the parser is not as before the call\nbefore:\n" + u + "after:\n" + v, twice);
                return;
            }
            d = sameRuns(base, at + 1, o, at + 1, base.ops.size() - at - 1, 0, &key);
            if (!d.empty()) {
                c.fail("after:" + key, where + (dropped ? "what follows differs from what it gives without the call\n" : "the same call made again, or what follows, differs\n") + d, once, twice);
                return;
            }
            if (o.destroyedAtEnd != base.destroyedAtEnd) {
                c.fail("release", where + "validators are not destroyed exactly once", twice);
                return;
            }
        }
    }
    note(c, s, any);
}

// ---------------------------------------------------------------- P30
struct Cost {
    double allocations = 0, peak = 0, parse = 1e9, read = 1e9;
    bool ok = false;
    std::string end;
};

static Cost costOf(const Script& s, std::size_t at, int times) {
    Cost c;
    RunOptions ro;
    ro.noFork = true;
    ro.noUsage = true;
    ro.noSnap = false;
    ro.faultOp = static_cast<int>(at);
    for (int i = 0; i < times; ++i) {
        Obs o;
        runReal(s, ro, o);
        c.allocations = static_cast<double>(o.allocations);
        c.peak = static_cast<double>(o.peak);
        c.parse = std::min(c.parse, o.parseSeconds);
        c.read = std::min(c.read, o.readSeconds);
        c.ok = o.ops[at].cls.empty();
        c.end = o.ops[at].cls;
    }
    return c;
}

static void p30(Case& c) {
    Rng& r = c.r;
    if (!allocHooks.arm) {
        c.fail("HARNESS", "allocations are not counted in this build", Script());
        return;
    }
    Profile p;
    p.big = 0;
    p.maxOpts = 5;
    p.w[K_LIST] = p.w[K_APP] = p.w[K_EXT] = p.w[K_APPN] = p.w[K_EXTN] = 4;
    p.w[K_PLIST] = p.w[K_PLISTN] = 4;
    p.alt = 30;
    p.strict = 0;
    p.required = 0;
    p.helpToken = p.versionToken = 0;
    p.numeric = 20;
    p.tame = true;
    p.valid = 25;
    p.dest = 25;
    p.separator = 15;
    Spec s = genSpec(r, p);
    s.strict = false;
    tallyKinds(s);
    Script head;
    emit(s, head);
    const std::size_t at = head.ops.size();
    Strs before, unit, after;
    std::string what;
    bool bytes = false; // the text of one token grows, not the number of tokens
    if (r.pct(75)) {
        what = "repeated part of a line";
        const Strs line = anyLine(r, s, p, 5);
        if (line.empty()) {
            tally("discarded");
            return;
        }
        const std::size_t from = static_cast<std::size_t>(r.below(static_cast<int>(line.size())));
        const std::size_t to = from + 1 + static_cast<std::size_t>(r.below(static_cast<int>(std::min<std::size_t>(line.size() - from, 8))));
        before.assign(line.begin(), line.begin() + static_cast<long>(from));
        unit.assign(line.begin() + static_cast<long>(from), line.begin() + static_cast<long>(to));
        after.assign(line.begin() + static_cast<long>(to), line.end());
    }
    else {
        bytes = true;
        const Def& d = r.pick(s.defs);
        const Strs shorts = s.shortFlags();
        if (r.pct(40) && !shorts.empty()) {
            what = "cluster of many flags";
            unit.push_back(r.pick(shorts).substr(1));
            before.push_back("-");
            if (r.pct(40) && !d.pos()) {
                before.insert(before.begin(), d.names[0]); // looked at from within a list
            }
        }
        else {
            static const char* const texts[] = {"x", "1", " ", "=", "-", "a b", "\xff", "0.", "e5", "\n"};
            what = "long value";
            unit.push_back(texts[r.below(10)]);
            if (d.pos()) {
                before.push_back("v");
            }
            else {
                before.push_back(d.names[0]);
                before.push_back(r.pct(50) ? "v" : "=");
            }
        }
    }
    auto build = [&](std::size_t n) {
        Strs line = before;
        if (bytes) {
            if (what == "long value" && line.size() == 2 && line[1] == "=") {
                line.pop_back();
                line.back() += "=";
            }
            std::string& t = line.back();
            while (t.size() < n * 12) {
                t += unit[0];
            }
        }
        else {
            while (line.size() < n) {
                line.insert(line.end(), unit.begin(), unit.end());
            }
            line.insert(line.end(), after.begin(), after.end());
        }
        Script t = head;
        t.ops.push_back(parseOp(line));
        return t;
    };
    const std::size_t small = 1200, large = 16 * small;
    const Script a = build(small), b = build(large);
    {
        Options mo;
        mo.noUsage = true;
        Obs mod;
        Script t = a;
        model::run(t, mo, mod);
        if (t.ops.back().n == 1 || !destinationsFit(s, a, mod)) {
            tally("discarded");
            return;
        }
        observed(a, mod);
    }
    Cost x = costOf(a, at, 2), y = costOf(b, at, 1);
    std::string said;
    for (int again = 0; again < 4; ++again) {
        std::string key;
        auto text = [](double v) { return std::to_string(v); };
        if (x.end != y.end) {
            break; // a longer line is another line
        }
        if (y.allocations > 24 * x.allocations + 3000) {
            key = "allocations";
            said = "allocations of the parse grow from " + text(x.allocations) + " to " + text(y.allocations);
        }
        else if (y.peak > 40 * x.peak + (4 << 20)) {
            key = "memory";
            said = "bytes held during the parse grow from " + text(x.peak) + " to " + text(y.peak);
        }
        else if (y.parse > 0.05 && y.parse > 70 * x.parse) {
            key = "time";
            said = "seconds of the parse grow from " + text(x.parse) + " to " + text(y.parse);
        }
        else if (y.read > 0.1 && y.read > 70 * x.read) {
            key = "reading";
            said = "seconds to read everything grow from " + text(x.read) + " to " + text(y.read);
        }
        if (key.empty()) {
            break;
        }
        if (again == 3 || key == "allocations" || key == "memory") {
            c.fail(key, said + " when the line grows 16 times (" + what + ")", a);
            return;
        }
        const Cost u = costOf(a, at, 3), v = costOf(b, at, 1); // once more, the best counts
        x.parse = std::min(x.parse, u.parse);
        x.read = std::min(x.read, u.read);
        y.parse = std::min(y.parse, v.parse);
        y.read = std::min(y.read, v.read);
    }
    tally(x.ok && y.ok ? "pairs parsed, " + what : "pairs refused, " + what);
    if (x.ok && y.ok) {
        tally(y.parse > 40 * x.parse ? "time of the parse grew more than 40 times" : y.parse > 25 * x.parse ? "time of the parse grew 25 to 40 times" : "time of the parse grew less than 25 times");
        tally("allocations of the longer parses", static_cast<std::uint64_t>(y.allocations));
    }
    Script shown = head;
    shown.ops.push_back(parseOp(before));
    shown.ops.push_back(parseOp(unit));
    note(c, shown, x.ok && y.ok);
}

// ---------------------------------------------------------------- P31
WorldHooks worldHooks = {nullptr, nullptr};

static std::string streamState(std::ios& s) {
    return std::to_string(static_cast<long>(s.flags())) + ',' + std::to_string(s.precision()) + ',' + std::to_string(s.width()) + ',' +
           std::to_string(static_cast<unsigned char>(s.fill())) + ',' + std::to_string(static_cast<int>(s.rdstate())) + ',' +
           std::to_string(static_cast<int>(s.exceptions())) + ',' + std::to_string(reinterpret_cast<unsigned long>(s.rdbuf())) + ',' +
           std::to_string(reinterpret_cast<unsigned long>(s.tie())) + ',' + s.getloc().name();
}

static std::string linesIn(const char* dir, bool targets) {
    std::string r;
    DIR* d = opendir(dir);
    if (!d) {
        return "?";
    }
    std::vector<std::string> v;
    while (struct dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n[0] == '.' || (targets && std::atoi(n.c_str()) == dirfd(d))) {
            continue;
        }
        if (targets) {
            char b[512];
            const ssize_t k = readlink((std::string(dir) + '/' + n).c_str(), b, sizeof b);
            v.push_back(n + "->" + std::string(b, k > 0 ? static_cast<std::size_t>(k) : 0));
        }
        else {
            v.push_back(n);
        }
    }
    closedir(d);
    std::sort(v.begin(), v.end());
    for (const std::string& x : v) {
        r += x + ' ';
    }
    return r;
}

// everything of the process that calls of the library must leave alone, by name
static std::map<std::string, std::string> world() {
    std::map<std::string, std::string> w;
    for (char** e = environ; e && *e; ++e) {
        w["environment"] += std::string(*e) + '\n';
    }
    char cwd[4096];
    w["directory"] = getcwd(cwd, sizeof cwd) ? cwd : "?";
    const mode_t m = umask(0);
    umask(m);
    w["umask"] = std::to_string(m);
    w["cout"] = streamState(std::cout);
    w["cerr"] = streamState(std::cerr);
    w["clog"] = streamState(std::clog);
    w["cin"] = streamState(std::cin);
    w["locale"] = std::string(setlocale(LC_ALL, nullptr)) + ' ' + std::locale().name();
    w["files"] = linesIn("/proc/self/fd", true);
    w["threads"] = linesIn("/proc/self/task", false);
    for (int s = 1; s < 65; ++s) {
        struct sigaction a;
        std::memset(&a, 0, sizeof a);
        if (sigaction(s, nullptr, &a) == 0) {
            w["signals"] += std::to_string(reinterpret_cast<unsigned long>(a.sa_handler)) + ',' + std::to_string(a.sa_flags) + ' ';
        }
    }
    sigset_t mask;
    sigprocmask(SIG_SETMASK, nullptr, &mask);
    for (int s = 1; s < 65; ++s) {
        w["signals"] += sigismember(&mask, s) == 1 ? '1' : '0';
    }
    w["rounding"] = std::to_string(fegetround());
    w["handlers"] = std::to_string(reinterpret_cast<unsigned long>(std::get_new_handler())) + ' ' + std::to_string(reinterpret_cast<unsigned long>(std::get_terminate()));
    w["timer"] = std::to_string(alarm(0));
    w["children"] = waitpid(-1, nullptr, WNOHANG) == -1 ? "none" : "left";
    w["input read"] = std::to_string(static_cast<long>(lseek(0, 0, SEEK_CUR)));
    w["output written"] = std::to_string(static_cast<long>(lseek(1, 0, SEEK_END))) + ' ' + std::to_string(static_cast<long>(lseek(2, 0, SEEK_END)));
    return w;
}

static void poisonErrno() {
    errno = ERANGE;
}

// a history that is run before main, in it, and after it ended
static Script aroundMain() {
    Script s;
    auto add = [&](int h, const char* a, const char* b) {
        Op o(OP_ADD, h);
        o.s.push_back(a);
        if (b) {
            o.s.push_back(b);
        }
        s.ops.push_back(o);
    };
    auto list = [&](int k, int h, std::initializer_list<const char*> v, long n = 0) {
        Op o(k, h, n);
        o.s.assign(v.begin(), v.end());
        s.ops.push_back(o);
        return &s.ops.back();
    };
    s.ops.push_back(Op(OP_HELPEXC, -1, 1));
    s.ops.push_back(Op(OP_VEREXC, -1, 1));
    list(OP_DESC, -1, {"a description of this, somewhat longer than a line of the usage text is, so that it has to be wrapped"});
    list(OP_SETVERSION, -1, {"1.2.3"});
    add(0, "-n", "--number");
    list(OP_VALID, 0, {}, V_NUMBER);
    list(OP_HELP, 0, {"a number of some kind"});
    list(OP_DEFAULTS, 0, {"12.5"});
    list(OP_DEST, 0, {}, D_DOUBLE)->v.assign(3, 0);
    add(1, "--range", nullptr);
    s.ops.push_back(Op(OP_NARGS, 1, 2));
    list(OP_VALID, 1, {"1", "10"}, V_MINMAX);
    add(2, "-c", "--choice");
    s.ops.push_back(Op(OP_ACTION, 2, A_APPEND));
    list(OP_VALID, 2, {"red", "green"}, V_CHOICE);
    add(3, "--path", nullptr);
    list(OP_VALID, 3, {}, V_PATH);
    add(4, "-v", nullptr);
    s.ops.push_back(Op(OP_ACTION, 4, A_TRUE));
    add(5, "-q", "--quiet");
    s.ops.push_back(Op(OP_ACTION, 5, A_FALSE));
    add(6, "--more", nullptr);
    s.ops.push_back(Op(OP_ACTION, 6, A_EXTEND));
    s.ops.push_back(Op(OP_NARGS, 6, 2));
    list(OP_DEFAULTS, 6, {"1", "2", "3", "4"});
    add(7, "--version", nullptr);
    s.ops.push_back(Op(OP_ACTION, 7, A_VERSION));
    add(8, "first", nullptr);
    s.ops.push_back(Op(OP_REQUIRED, 8, 1));
    list(OP_DEST, 8, {}, D_STRING)->v.assign(3, 0);
    add(9, "rest", nullptr);
    s.ops.push_back(Op(OP_ACTION, 9, A_INFINITE));
    static const char* const lines[][12] = {{"-n", "7", "--range", "2", "9", "-c", "red", "-cgreen", "-vv", "x", "y", "--"}, {"one", "two", "--more", "a", "b", "c", "d"}, {"-n", "no", "x"},
        {"--range", "1", "11", "x"}, {"x", "-c", "blue"}, {"--path", "/nowhere/at/all", "x"}, {"-v"}, {"--help"}, {"--version"}, {"--number"}, {"x", "-q", "-vq", "--", "-v", "--more"}, {"x", "-z"}};
    for (const auto& l : lines) {
        Strs t;
        for (const char* w : l) {
            if (w) {
                t.push_back(w);
            }
        }
        s.ops.push_back(parseOp(t));
    }
    list(OP_REMOVE, -1, {"--more", "-q"});
    add(10, "-n", nullptr); // refused
    s.ops.push_back(parseOp(Strs(1, "again")));
    s.ops.push_back(Op(OP_CLEAR));
    s.ops.push_back(parseOp(Strs(1, "additional")));
    return s;
}

static std::string runAround() {
    Obs o;
    runReal(aroundMain(), RunOptions(), o);
    return dump(o);
}

static const char* g_early = nullptr; // what it gave before main
static int g_late = -1;               // where to write what it gives after main
static bool g_aroundWanted = false;

struct Around {
    Around() {
        // only where it is looked at: the arguments of main are not known yet
        FILE* f = std::fopen("/proc/self/cmdline", "rb");
        char b[4096];
        const std::size_t n = f ? std::fread(b, 1, sizeof b, f) : 0;
        if (f) {
            std::fclose(f);
        }
        for (std::size_t i = 0; i + 3 < n; ++i) {
            g_aroundWanted = g_aroundWanted || std::memcmp(b + i, "P31", 4) == 0;
        }
        if (g_aroundWanted) {
            g_early = strdup(runAround().c_str());
        }
    }
    ~Around() {
        if (g_late >= 0) {
            const std::string t = runAround();
            std::size_t at = 0;
            while (at < t.size()) {
                const ssize_t k = write(g_late, t.c_str() + at, t.size() - at);
                if (k <= 0) {
                    break;
                }
                at += static_cast<std::size_t>(k);
            }
            _exit(0);
        }
    }
};
static Around g_around __attribute__((init_priority(150)));

static std::string runLate() {
    int p[2];
    if (pipe(p) != 0) {
        return "no pipe";
    }
    const pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        g_late = p[1];
        std::exit(0);
    }
    close(p[1]);
    std::string t;
    char b[4096];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) {
        t.append(b, static_cast<std::size_t>(k));
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) + " after\n" + t : t;
}

static void p31(Case& c) {
    Rng& r = c.r;
    if (g_early && r.pct(1)) {
        const std::string now = runAround();
        if (now != g_early) {
            c.fail("early", std::string("before main\n") + g_early + "in it\n" + now, aroundMain());
            return;
        }
        const std::string late = runLate();
        if (now != late) {
            c.fail("late", "after main ended\n" + late + "\nin it\n" + now, aroundMain());
            return;
        }
        tally("histories before main and after it");
    }
    if (!worldHooks.other) {
        c.fail("HARNESS", "the surroundings cannot be changed in this build", Script());
        return;
    }
    static std::ios asFirst[4] = {std::ios(nullptr), std::ios(nullptr), std::ios(nullptr), std::ios(nullptr)};
    static bool first = true;
    std::ios* const streams[4] = {&std::cout, &std::cerr, &std::clog, &std::cin};
    for (int i = 0; i < 4; ++i) { // what an earlier case did to them must not hide what this one does
        (first ? asFirst[i] : *streams[i]).copyfmt(first ? *streams[i] : asFirst[i]);
    }
    first = false;
    Script s;
    const bool files = r.pct(20);
    if (files) {
        if (!builtin(c, s, r.pct(75) ? 3 : r.below(3), true)) {
            return;
        }
        s.ops.push_back(Op(OP_OBSERVE));
    }
    else if (r.pct(50)) {
        s = parserLife(r, 0);
    }
    else { // real exits, usage texts
        Profile p;
        p.big = 0;
        p.numeric = 40;
        p.tame = true;
        p.valid = 45;
        p.dest = 35;
        p.defaults = 50;
        p.texts = 50;
        p.help = 60;
        p.required = 8;
        p.userHelp = 20;
        p.helpToken = p.versionToken = 4;
        Spec sp = genSpec(r, p);
        sp.helpExc = r.pct(70);
        sp.verExc = r.pct(70);
        tallyKinds(sp);
        emit(sp, s, &r);
        for (int i = r.range(1, 3); i > 0; --i) {
            s.ops.push_back(parseOp(r.pct(8) ? Strs(1, r.pct(50) ? "-h" : "--help") : anyLine(r, sp, p, 30)));
        }
        if (r.pct(15)) {
            s.ops.push_back(Op(OP_CLEAR));
        }
    }
    bool path = false;
    for (const Op& o : s.ops) {
        path = path || (!files && o.k == OP_VALID && o.n == V_PATH);
    }
    {
        Options mo;
        mo.noSnap = true;
        Obs m;
        model::run(s, mo, m);
        observed(s, m);
    }
    stepHook = nullptr;
    RunOptions ro;
    // the worker's own streams are put aside
    int was[3], mine[3];
    for (int i = 0; i < 3; ++i) {
        was[i] = dup(i);
        mine[i] = memfd_create("stream", 0);
        if (i == 0 && write(mine[i], "some input\n7\n", 13) == 13) {
            lseek(mine[i], 3, SEEK_SET);
        }
        dup2(mine[i], i);
    }
    std::cin.clear();
    std::srand(5);
    const int firstRandom = std::rand();
    std::srand(5);
    typedef std::map<std::string, std::string> World;
    const World w0 = world();
    Obs x, y;
    runReal(s, ro, x);
    const World w1 = world();
    const bool random = std::rand() == firstRandom;
    // the same in other surroundings
    std::vector<std::string> keptEnv;
    for (char** e = environ; e && *e; ++e) {
        keptEnv.push_back(*e);
    }
    char cwd[4096];
    const bool moved = !path && getcwd(cwd, sizeof cwd) && chdir(r.pct(50) ? "/" : c.scratch.c_str()) == 0;
    static const char* const vars[] = {"COLUMNS=30", "LINES=5", "LANG=tr_TR.UTF-8", "LC_ALL=de_DE.UTF-8", "LC_NUMERIC=fr_FR", "POSIXLY_CORRECT=1", "TERM=dumb", "NO_COLOR=1",
        "HOME=/nowhere", "DEBUG=1", "ARGS_DEBUG=1"};
    for (const char* v : vars) {
        if (r.pct(60)) {
            const char* eq = std::strchr(v, '=');
            setenv(std::string(v, static_cast<std::size_t>(eq - v)).c_str(), eq + 1, 1);
        }
    }
    std::ios old[4] = {std::ios(nullptr), std::ios(nullptr), std::ios(nullptr), std::ios(nullptr)};
    for (int i = 0; i < 4; ++i) {
        old[i].copyfmt(*streams[i]);
        streams[i]->setf(std::ios::hex, std::ios::basefield);
        streams[i]->setf(std::ios::showbase | std::ios::boolalpha | std::ios::uppercase | std::ios::showpos);
        streams[i]->unsetf(std::ios::skipws);
        streams[i]->setf(r.pct(50) ? std::ios::scientific : std::ios::fixed, std::ios::floatfield);
        streams[i]->precision(2);
        streams[i]->fill('*');
    }
    const std::string oldLocale = setlocale(LC_ALL, nullptr);
    if (r.pct(50)) {
        setlocale(LC_ALL, "C.UTF-8");
    }
    const mode_t oldMask = umask(0777);
    const bool closed = r.pct(20);
    if (closed) { // no standard input at all
        close(0);
    }
    stepHook = &poisonErrno;
    worldHooks.other(true);
    std::srand(99);
    const World w2 = world();
    const long asked = worldHooks.asked();
    runReal(s, ro, y);
    tally("questions about the surroundings", static_cast<std::uint64_t>(worldHooks.asked() - asked));
    const World w3 = world();
    worldHooks.other(false);
    stepHook = nullptr;
    umask(oldMask);
    setlocale(LC_ALL, oldLocale.c_str());
    for (int i = 0; i < 4; ++i) {
        streams[i]->copyfmt(old[i]);
    }
    clearenv();
    for (const std::string& e : keptEnv) {
        const std::size_t eq = e.find('=');
        setenv(e.substr(0, eq).c_str(), e.c_str() + eq + 1, 1);
    }
    if (moved && chdir(cwd) != 0) {
        c.fail("HARNESS", "cannot go back", s);
    }
    for (int i = 0; i < 3; ++i) {
        dup2(was[i], i);
        close(was[i]);
        close(mine[i]);
    }
    tally("surroundings compared", 2 * w0.size());
    auto differ = [&](const World& a, const World& b, const char* where) {
        for (const auto& k : a) {
            const std::string now = b.count(k.first) ? b.find(k.first)->second : "";
            if (now != k.second) {
                c.fail("changed:" + k.first, std::string("a history changed the process ") + where + ": " + k.first + " was\n" + k.second + "\nand is\n" + now, s);
                return true;
            }
        }
        return false;
    };
    if (differ(w0, w1, "in ordinary surroundings") || differ(w2, w3, "in other surroundings")) {
        return;
    }
    if (!random) {
        c.fail("random", "a history used the random numbers of the process", s);
        return;
    }
    if (moved) {
        tally("in another directory");
    }
    for (const OpResult& o : x.ops) {
        if (o.exited) {
            tally("exits of the process compared");
        }
    }
    const std::string p = dump(x), q = dump(y);
    if (p != q) {
        c.fail("matters", "in ordinary surroundings\n" + p + "in others (environment, directory, streams, errno, terminal, time)\n" + q, s);
        return;
    }
    note(c, s);
}

// ---------------------------------------------------------------- P32
static void p32(Case& c) {
    Rng& r = c.r;
    Script s;
    if (r.pct(35)) {
        wildHistory(r, s, true, 0);
    }
    else {
        Profile p;
        p.idle = 20;
        p.same = r.pct(30) ? 25 : 0;
        p.big = r.pct(3) ? 1 : 0;
        p.numeric = 40;
        p.valid = 25;
        p.dest = 25;
        p.defaults = 60;
        p.texts = 10;
        p.help = 40;
        p.metavar = 30;
        p.required = 10;
        p.userHelp = 20;
        p.repeat = 50;
        p.helpToken = p.versionToken = 6;
        Spec sp = genSpec(r, p);
        tallyKinds(sp);
        emit(sp, s, &r);
        for (int i = r.range(1, 4); i > 0; --i) {
            s.ops.push_back(r.pct(15) ? Op(OP_OBSERVE) : parseOp(anyLine(r, sp, p, 25)));
            if (r.pct(30) && !sp.defs.empty()) { // the original goes on to change
                const Def& d = r.pick(sp.defs);
                Op o(r.pct(25) ? OP_REMOVE : r.pct(30) ? OP_HELP : r.pct(50) ? OP_METAVAR : r.pct(50) ? OP_DEFAULTS : OP_NARGS, d.h);
                o.s.push_back(o.k == OP_REMOVE ? r.pick(d.names) : "changed");
                o.n = o.k == OP_NARGS ? r.below(5) : 0;
                if (o.k == OP_NARGS) {
                    o.s.clear();
                }
                s.ops.push_back(o);
            }
        }
        if (r.pct(20)) {
            s.ops.push_back(Op(OP_CLEAR));
            shift(sp, 1000);
            emit(sp, s, &r);
            s.ops.push_back(parseOp(anyLine(r, sp, p, 30)));
        }
    }
    {
        Options mo;
        mo.noSnap = true;
        Obs m;
        model::run(s, mo, m);
        observed(s, m);
    }
    RunOptions ro;
    ro.noSnap = true;
    ro.keepCopies = true;
    Obs o;
    runReal(s, ro, o);
    tally("copies of arguments and elements read at the end", static_cast<std::uint64_t>(o.copied));
    if (!o.copies.empty()) {
        c.fail("copy", o.copies, s);
        return;
    }
    note(c, s, o.copied > 0);
}

// ---------------------------------------------------------------- P33
static std::string declared(const State& st) {
    std::string t;
    for (const Arg& a : st.args) {
        t += std::to_string(a.h) + ' ' + joinEsc(a.names) + ' ' + kindName(a.kind) + ' ' + std::to_string(a.action) + ' ' + std::to_string(a.nargs) + ' ' +
             std::to_string(a.required) + ' ' + escText(a.help) + '|' + escText(a.metavar) + '|' + escText(a.def) + '|' + joinEsc(a.defaults) + '|';
        if (a.hasVal) {
            t += std::to_string(a.val.h) + ',' + std::to_string(a.val.kind) + ',' + joinEsc(a.val.s) + ',' + std::to_string(a.val.mode);
        }
        t += '|';
        if (a.hasDst) {
            t += std::to_string(a.dst.base) + ',' + std::to_string(a.dst.container) + ',' + std::to_string(a.dst.custom) + ',' + std::to_string(a.dst.thrown);
        }
        t += '\n';
    }
    for (int i = 0; i < 4; ++i) {
        t += std::to_string(st.w[i]) + ' ';
    }
    return t + std::to_string(st.alt) + std::to_string(st.strict) + std::to_string(st.helpExc) + std::to_string(st.verExc) + std::to_string(st.helpH) + ' ' + std::to_string(st.versionH) +
           escText(st.version) + '|' + escText(st.desc) + '|' + escText(st.epilog) + '|' + escText(st.usage);
}

// a setting that the library may refuse
static Op refusedOp(Rng& r, const Spec& s) {
    if (s.defs.empty()) {
        return textOp(OP_USAGE, "");
    }
    const Def& d = r.pick(s.defs);
    const Def& e = r.pick(s.defs);
    static const char* const wrong[] = {"", "-", "--", "a", "---", "-ab", "no dash", "-=", "--a=b", "=", "- ", "--a b"};
    Op o = textOp(OP_FLAG, "", d.h);
    switch (r.below(7)) {
        case 0:
        case 1:
            o.s[0] = e.pos() ? "-" : r.pick(e.names);
            break;
        case 2:
            o.s[0] = wrong[r.below(12)];
            break;
        case 3:
            o = Op(OP_ACTION, d.h, r.pct(30) ? static_cast<int>(A_HELP) : r.below(8));
            break;
        case 4:
            o = Op(OP_NARGS, d.h, r.below(6));
            break;
        case 5: {
            o = Op(OP_DEFAULTS, d.h, r.below(10));
            o.s.clear();
            for (int k = r.range(0, 5); k > 0; --k) {
                o.s.push_back("refused");
            }
            break;
        }
        default:
            o = Op(OP_ADD, 90 + r.below(5), r.below(10));
            o.s = e.names;
            if (!e.pos() && r.pct(50)) {
                o.s.insert(o.s.begin(), "--fresh" + std::to_string(r.below(3)));
            }
            break;
    }
    return o;
}

// the same parser, after having been another one
static Script detour(Rng& r, const Spec& s, const Profile& p) {
    Script b;
    std::vector<std::vector<Op>> later;
    int extra = 0;
    for (const Def& d : s.defs) {
        std::vector<Op> end;
        Op add(OP_ADD, d.h, r.below(10));
        std::vector<std::string> names = d.names;
        std::vector<std::string> gone;
        if (!d.pos()) {
            const std::size_t k = static_cast<std::size_t>(r.range(1, static_cast<int>(names.size())));
            for (std::size_t i = k; i < names.size(); ++i) {
                end.push_back(textOp(OP_FLAG, names[i], d.h));
            }
            names.resize(k);
            for (int n = r.pct(30) ? r.range(1, 2) : 0; n > 0; --n) {
                gone.push_back("--zz" + std::to_string(extra++));
                names.insert(names.begin() + r.below(static_cast<int>(names.size()) + 1), gone.back());
            }
        }
        add.s = names;
        b.ops.push_back(add);
        if (d.required && d.pos()) {
            b.ops.push_back(Op(OP_REQUIRED, d.h, 1));
        }
        std::vector<Op> v;
        bool nargs = false, action = false, valid = false, defaults = false, required = false;
        for (int n = r.range(0, 6); n > 0; --n) {
            switch (r.below(9)) {
                case 0:
                case 1:
                    if (!d.pos()) {
                        v.push_back(Op(OP_ACTION, d.h, r.below(8)));
                        action = true;
                    }
                    break;
                case 2:
                case 3:
                    v.push_back(Op(OP_NARGS, d.h, r.pct(15) ? '+' : r.below(6)));
                    nargs = true;
                    break;
                case 4: {
                    Op o(OP_DEFAULTS, d.h, r.below(10));
                    for (int k = r.range(0, 4); k > 0; --k) {
                        o.s.push_back(r.pct(50) ? "was" + std::to_string(k) : std::to_string(k));
                    }
                    v.push_back(o);
                    defaults = true;
                    break;
                }
                case 5:
                    v.push_back(textOp(r.pct(50) ? OP_HELP : OP_METAVAR, words(r, 6, false), d.h));
                    break;
                case 6: {
                    Def t = d;
                    addRandomValid(r, t, true);
                    t.valid.h = d.h;
                    v.push_back(t.valid);
                    valid = true;
                    break;
                }
                case 7:
                    if (d.hasDest) {
                        Op o = d.dest;
                        o.k = OP_DEST;
                        o.h = d.h;
                        if (r.pct(60)) {
                            if (r.pct(40)) {
                                o.n = r.pct(30) ? D_USER : D_STRING;
                            }
                            o.v[1] = o.n == D_USER || (customBase(o.n) && r.pct(50));
                            o.v.resize(3);
                        }
                        if (r.pct(15)) {
                            o.v[0] = r.below(3);
                            if (o.v[0] && o.n >= D_ARR1 && o.n <= D_ARR64) {
                                o.v[0] = 0;
                            }
                        }
                        v.push_back(o);
                    }
                    break;
                default:
                    if (!d.pos()) {
                        v.push_back(Op(OP_REQUIRED, d.h, r.below(2)));
                        required = true;
                    }
                    break;
            }
        }
        b.ops.insert(b.ops.end(), v.begin(), v.end());
        if (d.hasAction || action) {
            end.push_back(Op(OP_ACTION, d.h, d.hasAction ? d.action : A_NONE));
        }
        if (d.hasNargs || nargs || action) {
            const bool none = !d.hasNargs;
            end.push_back(Op(OP_NARGS, d.h, none ? isBool(d.kind) || d.kind == K_HELP || d.kind == K_VERSION ? 0 : 1 : d.nargs));
        }
        if (required || (d.required && !d.pos())) {
            end.push_back(Op(OP_REQUIRED, d.h, d.required));
        }
        if (defaults || !d.defaults.empty()) {
            Op o(OP_DEFAULTS, d.h, r.below(10));
            o.s = d.defaults;
            end.push_back(o);
        }
        end.push_back(textOp(OP_HELP, d.help, d.h));
        end.push_back(textOp(OP_METAVAR, d.metavar, d.h));
        if (d.hasValid || valid) {
            Op o = d.valid;
            o.k = OP_VALID;
            o.h = d.h;
            if (!d.hasValid) {
                o = Op(OP_VALID, d.h, V_NULL);
            }
            end.push_back(o);
        }
        if (d.hasDest) {
            Op o = d.dest;
            o.k = OP_DEST;
            o.h = d.h;
            end.push_back(o);
        }
        if (!gone.empty()) {
            Op o(OP_REMOVE, -1, r.below(10));
            o.s = gone;
            end.push_back(o);
        }
        r.shuffle(end);
        for (Op& o : end) {
            if (o.k != OP_FLAG && o.k != OP_REMOVE && r.pct(30)) {
                for (const std::string& n : names) {
                    if (std::find(gone.begin(), gone.end(), n) == gone.end()) {
                        o.via = n;
                    }
                }
            }
        }
        later.push_back(end);
    }
    // other modes and texts
    for (int n = r.range(0, 4); n > 0; --n) {
        const int k = r.below(10);
        if (k < 4) {
            b.ops.push_back(Op(k == 0 ? OP_ALT : k == 1 ? OP_STRICT : k == 2 ? OP_HELPEXC : OP_VEREXC, -1, k > 1 || r.pct(50)));
        }
        else if (k == 9) {
            Op o(OP_WIDTH);
            for (int i = 0; i < 4; ++i) {
                o.v.push_back(r.range(1, 30));
            }
            b.ops.push_back(o);
        }
        else {
            b.ops.push_back(textOp(k < 6 ? OP_DESC : k < 7 ? OP_EPILOG : k < 8 ? OP_USAGE : OP_SETVERSION, words(r, 8, true)));
        }
    }
    b.ops.push_back(Op(OP_HELPEXC, -1, 1));
    b.ops.push_back(Op(OP_VEREXC, -1, 1));
    for (int i = r.range(0, 3); i > 0; --i) {
        b.ops.push_back(parseOp(anyLine(r, s, p, 30)));
    }
    // and back
    std::vector<Op> modes;
    modes.push_back(Op(OP_ALT, -1, s.alt));
    modes.push_back(Op(OP_STRICT, -1, s.strict));
    modes.push_back(textOp(OP_DESC, ""));
    modes.push_back(textOp(OP_EPILOG, ""));
    modes.push_back(textOp(OP_USAGE, ""));
    modes.push_back(textOp(OP_SETVERSION, ""));
    Op w(OP_WIDTH);
    static const long usual[] = {2, 20, 2, 56};
    w.v.assign(usual, usual + 4);
    modes.push_back(w);
    r.shuffle(modes);
    modes.insert(modes.end(), s.texts.begin(), s.texts.end());
    later.push_back(modes);
    for (;;) { // merged
        std::vector<std::size_t> can;
        for (std::size_t i = 0; i < later.size(); ++i) {
            if (!later[i].empty()) {
                can.push_back(i);
            }
        }
        if (can.empty()) {
            break;
        }
        const std::size_t i = r.pick(can);
        for (int n = r.range(1, 4); n > 0 && !later[i].empty(); --n) {
            b.ops.push_back(later[i].front());
            later[i].erase(later[i].begin());
        }
        if (r.pct(4)) {
            b.ops.push_back(parseOp(anyLine(r, s, p, 30)));
        }
    }
    return b;
}

static void p33(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.same = r.pct(30) ? 25 : 0;
    p.big = 0;
    p.maxOpts = 4;
    p.numeric = 25;
    p.tame = true;
    p.valid = 25;
    p.dest = 30;
    p.defaults = 55;
    p.required = 15;
    p.help = 50;
    p.metavar = 35;
    p.texts = 20;
    p.userHelp = 10;
    p.oneHelpName = 0;
    p.helpToken = p.versionToken = 5;
    Spec s = genSpec(r, p);
    s.helpExc = s.verExc = true;
    for (const Op& t : s.texts) {
        if (t.k == OP_SETBIN) {
            return; // taken from the first line otherwise
        }
    }
    tallyKinds(s);
    Script a, b;
    emit(s, a);
    std::string want;
    bool found = false;
    for (int t = 0; t < 12 && !found; ++t) {
        b = detour(r, s, p);
        bool parsed = false;
        for (const Op& o : b.ops) {
            parsed = parsed || o.k == OP_PARSE;
        }
        Script x = a, y = b;
        if (parsed) { // the help option that the first parse adds
            x.ops.push_back(parseOp(Strs()));
        }
        const State u = stateAfter(x, x.ops.size()), v = stateAfter(y, y.ops.size());
        found = declared(u) == declared(v);
        tally(found ? "detours that end at the definitions" : "detours that end elsewhere");
    }
    if (!found) {
        return;
    }
    for (int n = r.pct(60) ? r.range(1, 5) : 0; n > 0; --n) { // what is refused changes nothing
        Script x = b;
        const std::size_t at = static_cast<std::size_t>(r.below(static_cast<int>(b.ops.size()) + 1));
        x.ops.insert(x.ops.begin() + static_cast<long>(at), refusedOp(r, s));
        Script y = x;
        Options mo;
        mo.noSnap = true;
        Obs m;
        model::run(y, mo, m);
        if (m.ops[at].done && !m.ops[at].cls.empty()) {
            b = x;
            tally("settings refused on the way");
        }
    }
    {
        static const char* const what[OP_KINDS] = {"", "", "actions", "numbers of values", "requirements", "value names", "helps", "defaults", "validators", "destinations", "names removed"};
        std::map<int, std::set<int>> met;
        for (const Op& o : b.ops) {
            if (o.k >= OP_ACTION && o.k <= OP_REMOVE && !met[o.k].insert(o.h).second) {
                tally(std::string("set again: ") + what[o.k]);
            }
            else if (o.k == OP_REMOVE) {
                tally("set again: names");
            }
        }
    }
    const std::size_t na = a.ops.size(), nb = b.ops.size();
    for (int i = r.range(1, 2); i > 0; --i) {
        const Op o = parseOp(anyLine(r, s, p, 15));
        a.ops.push_back(o);
        b.ops.push_back(o);
    }
    Options mo;
    Obs ma, mb;
    model::run(a, mo, ma);
    model::run(b, mo, mb);
    if (!destinationsFit(s, a, ma) || !destinationsFit(s, b, mb)) {
        tally("discarded");
        return;
    }
    for (const Op& o : b.ops) {
        if (o.k == OP_PARSE && o.n == 1) {
            tally("discarded");
            return;
        }
    }
    observed(b, mb);
    Obs x, y;
    RunOptions ro;
    runReal(b, ro, y);
    ro.universe = nameUniverse(b);
    runReal(a, ro, x);
    std::string key, d = sameRuns(x, na, y, nb, a.ops.size() - na, S_DESTS, &key);
    if (!d.empty()) {
        c.fail("trace:" + key, d, a, b);
        return;
    }
    // the destinations bound last
    for (std::size_t i = na; i < a.ops.size(); ++i) {
        const Snapshot &u = x.ops[i].snap, &v = y.ops[i - na + nb].snap;
        if (!x.ops[i].cls.empty() || i > na) {
            break; // lists in a destination go on growing
        }
        for (const DestObs& e : u.dests) {
            const DestObs* f = nullptr;
            for (const DestObs& g : v.dests) {
                if (g.handle == e.handle) {
                    f = &g;
                }
            }
            bool sinceParsed = false;
            for (std::size_t k = f ? static_cast<std::size_t>(f->opIndex) : nb; k < nb; ++k) {
                sinceParsed = sinceParsed || b.ops[k].k == OP_PARSE;
            }
            if (f && !sinceParsed && f->text[0] != '(' && e.text[0] != '(' && f->text != e.text) {
                c.fail("trace:dest", "the destination of argument " + std::to_string(e.handle) + " holds " + f->text + ", declared so from the start " + e.text, a, b);
                return;
            }
            tally("destinations compared");
        }
    }
    c.nontrivial(serialize(a) + serialize(b), serialize(b));
}

// ---------------------------------------------------------------- P34
static void p34(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.same = r.pct(30) ? 25 : 0;
    p.numeric = 10;
    p.tame = true;
    p.valid = 55;
    p.dest = 55;
    p.defaults = 60;
    p.required = 10;
    p.throws = r.pct(20) ? 20 : 0;
    p.extras = 60;
    p.repeat = 45;
    p.texts = 10;
    p.helpToken = p.versionToken = 3;
    p.oneHelpName = 0;
    Spec s = genSpec(r, p);
    for (Def& d : s.defs) { // more of them call
        if (d.hasDest && d.dest.n != D_USER && !isBool(d.kind) && r.pct(40)) {
            d.dest.n = D_USER;
            d.dest.v[1] = 1;
        }
        if (d.hasValid && (d.valid.n == V_FALSE || d.valid.n == V_THROW) && r.pct(60)) {
            d.valid = Op(OP_VALID, d.h, V_PASS);
        }
    }
    tallyKinds(s);
    Script sc;
    emit(s, sc);
    for (int i = r.range(1, 3); i > 0; --i) {
        sc.ops.push_back(parseOp(anyLine(r, s, p, 10)));
    }
    Options mo;
    mo.look = true;
    Obs m;
    model::run(sc, mo, m);
    if (!destinationsFit(s, sc, m)) {
        tally("discarded");
        return;
    }
    observed(sc, m);
    RunOptions ro;
    ro.look = true;
    Obs x, y;
    runReal(sc, ro, x);
    std::string key, d = difference(sc, x, m, A_VALIDATORS | A_CUSTOM, &key);
    if (!d.empty()) {
        c.fail("seen:" + key, d, sc);
        return;
    }
    ro.look = false;
    runReal(sc, ro, y);
    std::uint64_t calls = 0;
    for (Event& e : x.events) {
        calls += e.seen.empty() ? 0 : 1;
        e.seen.clear();
    }
    tally("readings by user code during a parse", calls);
    const std::string u = dump(x), v = dump(y);
    if (u != v) {
        c.fail("reading", "with readings by validators and conversions\n" + u + "without\n" + v, sc);
        return;
    }
    note(c, sc, calls > 0);
}

// ---------------------------------------------------------------- P35
static void p35(Case& c) {
    Rng& r = c.r;
    if (!allocHooks.track) {
        c.fail("HARNESS", "no accounts of memory in this build", Script());
        return;
    }
    Profile p;
    p.idle = 20;
    p.same = r.pct(30) ? 25 : 0;
    p.big = r.pct(3) ? 2 : 0;
    p.tame = true;
    p.valid = 30;
    p.dest = 30;
    p.defaults = 50;
    p.required = 8;
    p.help = 50;
    p.metavar = 30;
    p.texts = 30;
    p.extras = 50;
    p.throws = r.pct(15) ? 20 : 0;
    p.helpToken = p.versionToken = 4;
    Spec s = genSpec(r, p);
    tallyKinds(s);
    for (Def& d : s.defs) {
        if (d.hasDest) { // lists of the user go on growing
            d.dest.v[0] = 0;
            if (d.dest.n == D_STRING && !d.dest.v[1]) { // strings of the user too
                d.dest.n = D_CSTR;
            }
        }
    }
    s.helpExc = s.verExc = true;
    Script a;
    emit(s, a, &r);
    std::vector<Op> cycle;
    const bool fresh = r.pct(50); // texts that are new in every round, all of one length
    auto line = [&]() { cycle.push_back(parseOp(anyLine(r, s, p, 30))); };
    line();
    for (int n = r.range(0, 7); n > 0; --n) {
        const Def* d = s.defs.empty() ? nullptr : &r.pick(s.defs);
        switch (r.below(d ? 12 : 3)) {
            case 0:
                line();
                break;
            case 1: { // an argument for a while
                Op o = textOp(OP_ADD, r.pct(70) ? fresh && r.pct(60) ? "--for-a-while-#####" : "--for-a-while" : "while", 70);
                cycle.push_back(o);
                if (o.s[0][0] == '-') {
                    cycle.push_back(textOp(OP_FLAG, "--too", 70));
                }
                cycle.push_back(textOp(OP_DEFAULTS, "a default that is rather long", 70));
                if (r.pct(50)) {
                    line();
                }
                if (o.s[0][0] == '-') {
                    o.s.push_back("--too");
                }
                o.k = OP_REMOVE;
                o.h = -1;
                cycle.push_back(o);
                break;
            }
            case 2:
                cycle.push_back(textOp(r.pct(50) ? OP_DESC : r.pct(50) ? OP_SETBIN : OP_EPILOG, words(r, 20, true)));
                break;
            case 3: // a name for a while
                if (!d->pos()) {
                    cycle.push_back(textOp(OP_FLAG, "--another", d->h));
                    if (r.pct(50)) {
                        line();
                    }
                    cycle.push_back(textOp(OP_REMOVE, "--another"));
                }
                break;
            case 4: // the same again
            case 5:
            case 6:
            case 7: {
                for (const Op& o : defOps(*d, &r)) {
                    if (o.k != OP_ADD && o.k != OP_FLAG && r.pct(60)) {
                        cycle.push_back(o);
                        if (o.k == OP_HELP || o.k == OP_METAVAR || o.k == OP_DEFAULTS || o.k == OP_VALID || o.k == OP_DEST) { // another one before
                            Op x = o;
                            if (o.k == OP_VALID) {
                                x = Op(OP_VALID, d->h, V_PASS);
                            }
                            for (std::string& t : x.s) {
                                t = "a text that takes more room than strings have inside";
                            }
                            cycle.insert(cycle.end() - 1, x);
                        }
                    }
                }
                break;
            }
            case 8: {
                Op o = refusedOp(r, s);
                if (o.k == OP_FLAG || o.k == OP_ADD) {
                    cycle.push_back(o);
                }
                break;
            }
            case 9:
                cycle.push_back(Op(OP_COPY, d->h));
                break;
            case 10:
                if (r.pct(40)) {
                    cycle.push_back(Op(OP_CLEAR));
                    cycle.insert(cycle.end(), a.ops.begin(), a.ops.end());
                    line();
                }
                break;
            default:
                cycle.push_back(textOp(OP_GET, r.pct(50) ? "--nobody" : r.pick(d->names)));
                break;
        }
        if (r.pct(30)) {
            cycle.push_back(Op(OP_OBSERVE));
        }
    }
    if (r.pct(60)) {
        cycle.push_back(Op(OP_OBSERVE));
    }
    for (Op& o : cycle) {
        if (!fresh || o.k == OP_FLAG || o.k == OP_ADD || o.k == OP_REMOVE || o.k == OP_CLEAR || o.s.empty() || r.pct(40)) {
            continue;
        }
        std::string& t = o.s[r.below(static_cast<std::uint32_t>(o.s.size()))];
        if (o.k == OP_PARSE && (&t == &o.s[0] || r.pct(20))) {
            const std::size_t at = static_cast<std::size_t>(r.range(1, static_cast<int>(o.s.size())));
            o.s.insert(o.s.begin() + static_cast<long>(at), r.pct(50) ? "a-token-that-nobody-knows-#####" : "--unknown-option-with-number-#####");
        }
        else if (o.k != OP_PARSE || t.empty() || t[0] != '-' || t.find('=') != std::string::npos) {
            t += r.pct(50) ? "#####" : "-a-text-of-this-round-#####";
        }
    }
    static const int rounds[] = {6, 13, 28};
    long bytes[3], blocks[3];
    Script shown = a;
    shown.ops.insert(shown.ops.end(), cycle.begin(), cycle.end());
    RunOptions ro;
    ro.noSnap = true;
    ro.footprint = true;
    for (int i = 0; i < 3; ++i) {
        Script x = a;
        for (int n = 0; n < rounds[i]; ++n) {
            for (Op o : cycle) {
                for (std::string& t : o.s) {
                    const std::size_t at = fresh && t.size() >= 5 ? t.rfind("#####") : std::string::npos;
                    if (at != std::string::npos) {
                        t.replace(at, 5, std::to_string(10000 + n * 7));
                    }
                }
                x.ops.push_back(o);
            }
        }
        Obs o;
        runReal(x, ro, o);
        if (!o.harness.empty()) {
            c.fail("HARNESS", o.harness, x);
            return;
        }
        bytes[i] = o.bytes;
        blocks[i] = o.blocks;
        tally("rounds", static_cast<std::uint64_t>(rounds[i]));
        tally("calls", x.ops.size());
        if (i == 2) {
            for (const OpResult& q : o.ops) {
                tally(!q.done ? "calls skipped" : q.cls.empty() ? "calls that succeed" : "calls that throw");
            }
        }
    }
    if ((bytes[0] < bytes[1] && bytes[1] < bytes[2]) || (blocks[0] < blocks[1] && blocks[1] < blocks[2])) {
        c.fail("grows", "held after " + std::to_string(rounds[0]) + " rounds of the same calls: " + std::to_string(bytes[0]) + " bytes in " + std::to_string(blocks[0]) + " blocks, after " +
            std::to_string(rounds[1]) + ": " + std::to_string(bytes[1]) + " in " + std::to_string(blocks[1]) + ", after " + std::to_string(rounds[2]) + ": " + std::to_string(bytes[2]) + " in " +
            std::to_string(blocks[2]), shown);
        return;
    }
    tally("bytes held at the end", static_cast<std::uint64_t>(bytes[2]));
    note(c, shown);
}

// ---------------------------------------------------------------- P36
// what a parse leaves of the arguments other than the one given, as a text
static std::string others(const Script& s, const Obs& o, std::size_t op, int without) {
    const OpResult& r = o.ops[op];
    std::string t = r.cls + '|' + r.arg + '|' + (r.cls == "HelpException" ? "" : r.what) + '\n';
    Snapshot only;
    only.taken = true;
    for (const ArgObs& a : r.snap.args) {
        if (a.handle != without) {
            only.args.push_back(a);
        }
    }
    std::sort(only.args.begin(), only.args.end(), [](const ArgObs& a, const ArgObs& b) { return a.names < b.names; });
    only.additional = r.snap.additional;
    only.bin = r.snap.bin;
    only.version = r.snap.version;
    only.desc = r.snap.desc;
    only.epilog = r.snap.epilog;
    only.alt = r.snap.alt;
    only.strict = r.snap.strict;
    only.helpExc = r.snap.helpExc;
    only.verExc = r.snap.verExc;
    for (DestObs d : r.snap.dests) {
        if (d.handle != without) {
            d.opIndex = 0;
            only.dests.push_back(d);
        }
    }
    std::stable_sort(only.dests.begin(), only.dests.end(), [](const DestObs& a, const DestObs& b) { return a.handle < b.handle; });
    t += dumpSnapshot(only);
    for (Event e : o.events) {
        if (e.op == static_cast<int>(op) && e.handle != without && e.kind != '~') {
            e.op = e.opIndex = 0;
            t += dumpEvent(e);
        }
    }
    (void)s;
    return t;
}

static Strs linesOf(const std::string& t) {
    Strs v;
    std::istringstream in(t);
    for (std::string l; std::getline(in, l);) {
        v.push_back(l);
    }
    return v;
}

static void p36(Case& c) {
    Rng& r = c.r;
    Profile p;
    p.idle = 20;
    p.same = r.pct(30) ? 25 : 0;
    p.maxOpts = 5;
    p.numeric = 25;
    p.tame = true;
    p.valid = 30;
    p.dest = 30;
    p.defaults = 55;
    p.required = 12;
    p.help = 50;
    p.metavar = 30;
    p.texts = 15;
    p.extras = 30;
    p.helpToken = p.versionToken = 4;
    Spec s = genSpec(r, p);
    s.helpExc = s.verExc = true;
    tallyKinds(s);
    std::vector<std::size_t> can;
    for (std::size_t i = 0; i < s.defs.size(); ++i) {
        const Def& d = s.defs[i];
        if (d.kind != K_HELP && d.kind != K_VERSION && !(d.pos() && d.required) &&
            std::find(d.names.begin(), d.names.end(), "-h") == d.names.end() && std::find(d.names.begin(), d.names.end(), "--help") == d.names.end()) {
            can.push_back(i);
        }
    }
    if (can.empty()) {
        tally("nothing to leave out");
        return;
    }
    const std::size_t at = r.pick(can);
    Def d = s.defs[at];
    d.required = false;
    Spec t = s;
    t.defs.erase(t.defs.begin() + static_cast<long>(at));
    if (d.pos()) { // the last one, so that the others still come before it
        s.defs.erase(s.defs.begin() + static_cast<long>(at));
        s.defs.push_back(d);
    }
    else {
        s.defs[at] = d;
    }
    Script with, without;
    emit(t, without);
    emit(s, with);
    const std::size_t n0 = without.ops.size(), n1 = with.ops.size();
    std::size_t n = 0;
    // and lines that do not use it
    for (int i = r.range(1, 3); i > 0; --i) {
        const Strs l = anyLine(r, t, p, 20);
        bool uses = false;
        for (const std::string& k : l) {
            const std::string name = k.substr(0, k.find('='));
            for (const std::string& f : d.names) {
                if (d.pos() || k.empty() || k[0] != '-') {
                    continue;
                }
                uses = uses || name == f || "-" + name == f || (f.size() == 2 && k.size() > 1 && k[1] != '-' && k.find(f[1]) != std::string::npos);
            }
        }
        if (uses) {
            tally("lines that might use it");
            continue;
        }
        without.ops.push_back(parseOp(l));
        with.ops.push_back(parseOp(l));
        ++n;
    }
    if (n == 0) {
        return;
    }
    {
        Options mo;
        Obs m;
        model::run(without, mo, m);
        if (m.vague || m.vagueDests || !destinationsFit(t, without, m)) {
            tally("discarded");
            return;
        }
        for (std::size_t i = n0; d.pos() && i < without.ops.size(); ++i) {
            if (!m.ops[i].cls.empty() || !m.ops[i].snap.additional.empty()) {
                tally("lines that might use it");
                return;
            }
        }
        for (const Op& o : without.ops) {
            if (o.k == OP_PARSE && o.n == 1) {
                tally("discarded");
                return;
            }
        }
        observed(without, m);
    }
    if (d.hasDest && numericBase(d.dest.n) && !d.dest.v[1] && !isBool(d.kind)) {
        for (const std::string& v : d.defaults) {
            if (!fits(static_cast<int>(d.dest.n), v)) {
                tally("discarded");
                return;
            }
        }
    }
    RunOptions ro;
    ro.universe = nameUniverse(with);
    Obs x, y;
    runReal(without, ro, x);
    runReal(with, ro, y);
    for (std::size_t i = 0; i < n; ++i) {
        const std::string a = others(without, x, n0 + i, d.h), b = others(with, y, n1 + i, d.h);
        if (a != b) {
            c.fail("trace:others", "without argument " + std::to_string(d.h) + "\n" + a + "with it, unused\n" + b, without, with);
            return;
        }
        const OpResult& o = y.ops[n1 + i];
        tally(o.cls.empty() ? "accepted lines compared" : "rejected lines compared");
        if (!o.cls.empty()) {
            continue;
        }
        for (const ArgObs& q : o.snap.args) {
            if (q.handle == d.h && (q.exists || q.count != 0)) {
                c.fail("trace:unused", "argument " + std::to_string(d.h) + ", which the line does not use, says that it is there: " + dumpSnapshot(o.snap), without, with);
                return;
            }
        }
        for (const Event& e : y.events) {
            if (e.op == static_cast<int>(n1 + i) && e.handle == d.h && (e.kind == 'V' || e.exists)) {
                c.fail("trace:called", "the validator or conversion of an argument that the line does not use is called as if it did: " + dumpEvent(e), without, with);
                return;
            }
        }
        // what the usage says of the others
        const Strs u = linesOf(x.ops[n0 + i].snap.usage), v = linesOf(y.ops[n1 + i].snap.usage);
        auto header = [](const std::string& l) { return l == "positional arguments:" || l == "optional arguments:"; };
        std::size_t j = 0;
        bool inside = false;
        std::string missing;
        for (const std::string& l : u) {
            inside = inside || header(l);
            if (!inside) {
                continue;
            }
            while (j < v.size() && v[j] != l) {
                ++j;
            }
            if (j == v.size()) {
                missing = l;
                break;
            }
            ++j;
        }
        if (!missing.empty() && t.defs.size()) {
            c.fail("trace:usage", "with an unused argument more, the usage text lacks the line " + missing + "\n" + y.ops[n1 + i].snap.usage + "\nwithout it\n" + x.ops[n0 + i].snap.usage, without, with);
            return;
        }
    }
    tally(d.pos() ? "unused positionals" : "unused options");
    c.nontrivial(serialize(with), serialize(with));
}

const CheckDef kChecks[] = {
    {"P01", p01, 60000, 3000000, "definitions and command lines built from items with unique texts, spoiled or random; non-trivial: at least one token", A_FORM | A_VALUES | A_ADDITIONAL},
    {"P02", p02, 60000, 3000000, "options of every action with repeated occurrences and defaults; non-trivial: at least one token", A_FORM | A_VALUES | A_COUNT | A_TRUTH},
    {"P03", p03, 50000, 2500000, "a command line and another spelling of it; non-trivial: the two differ", A_FORM | A_VALUES | A_COUNT | A_ADDITIONAL | A_TRUTH},
    {"P04", p04, 60000, 3000000, "several positionals, separator, additional and strict mode; non-trivial: at least one token", A_FORM | A_FORMTEXT | A_VALUES | A_ADDITIONAL},
    {"P05", p05, 60000, 3000000, "open-ended lists followed by tokens that nearly are options; non-trivial: at least one token", A_FORM | A_FORMTEXT | A_VALUES | A_ADDITIONAL | A_COUNT},
    {"P06", p06, 60000, 3000000, "well-formed lines spoiled by one or two edits, random token lists; non-trivial: at least one token", A_FORM | A_FORMTEXT},
    {"P07", p07, 30000, 1000000, "help, version, missing required and failing validators mixed; non-trivial: all", A_PRECEDENCE},
    {"P08", p08, 50000, 2000000, "recording validators that accept, change or reject; non-trivial: at least one validator call", A_VALIDERR | A_VALIDATORS | A_VALUES | A_NUMBERS | A_DESTS | A_CUSTOM},
    {"P09", p09, 50000, 2000000, "built-in validators on boundary and near-miss values and on files of every kind; non-trivial: all", A_VALIDERR | A_VALUES},
    {"P10", p10, 60000, 2500000, "destinations of every type; values out of the range of the type are not generated; non-trivial: at least one destination", A_DESTS | A_FAILDESTS | A_CUSTOM | A_DESTERR | A_FORM},
    {"P11", p11, 50000, 2000000, "numbers and near-numbers as values, defaults and after validators; non-trivial: all", A_NUMBERS | A_FORM},
    {"P12", p12, 30000, 1200000, "one parser over several lines against a new parser for the last line; non-trivial: all", A_ERROR | A_VALUES | A_COUNT | A_ADDITIONAL | A_NUMBERS | A_TRUTH | A_PROPS},
    {"P13", p13, 25000, 1000000, "histories of adding, flagging, removing and looking up names, observed after every call; non-trivial: all", A_BUILDER | A_NAMES | A_PROPS | A_FORM | A_FORMTEXT | A_PRECEDENCE},
    {"P14", p14, 25000, 1000000, "the same properties declared in another order; non-trivial: all", A_BUILDER | A_PROPS | A_NAMES},
    {"P15", p15, 30000, 1200000, "usage texts of random definitions, texts and widths against a reference layout; non-trivial: all", A_USAGE},
    {"P16", p16, 6000, 400000, "wild histories under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and library assertions; non-trivial: at least one parse", 0},
    {"P17", p17, 40000, 1500000, "wild histories with counted validators, ledger judged after every call; non-trivial: at least one validator", 0},
    {"P18", p18, 4000, 200000, "threads with parsers of their own, or readers of one parsed parser, under ThreadSanitizer with jitter between steps; counted: distinct pairs of workload and interleaving", 0, true},
    {"P19", p19, 6000, 60000, "histories of definitions, lines, observations and clearing; counted: distinct observation logs, each compared over all builds", 0},
    {"P20", p20, 25000, 1000000, "a history, clear, a second history against the second history on a new parser; non-trivial: all", A_TEXTS},
    {"P21", p21, 30000, 1200000, "every view of every argument after every call; non-trivial: all", A_VIEWS | A_TRUTH},
    {"P22", p22, 1500, 60000, "every allocation of a parse failed one at a time, and a third of them with all that follow; then another parse; non-trivial: the parse allocates", 0},
    {"P23", p23, 20000, 800000, "every buffer handed over is overwritten and freed after the call, argument vectors longer than the count; non-trivial: all", A_ARGV | A_TEXTS | A_PROPS | A_NAMES | A_VALUES},
    {"P24", p24, 6000, 200000, "lists of 0 to 25 items written in ten ways; non-trivial: all", A_BUILDER | A_NAMES | A_PROPS | A_VALUES | A_VALIDERR},
    {"P25", p25, 20000, 800000, "histories with refused calls and failed parses, every exception copied and read again at the end; non-trivial: at least one exception", 0},
    {"P26", p26, 20000, 800000, "a history without readings against the same one read twice after every call; non-trivial: all", 0},
    {"P27", p27, 20000, 800000, "validators and conversions that throw anything, then another line; non-trivial: at least one such exception", A_ERROR | A_VALIDATORS | A_CUSTOM | A_DESTS | A_FAILDESTS | A_VALUES | A_COUNT | A_DESTROY},
    {"P28", p28, 20000, 800000, "two to four histories alternating at every call, reading and call back, each against itself alone; counted: distinct pairs of histories and schedule", 0},
    {"P29", p29, 2000, 80000, "every allocation of one definition call failed, one at a time and lasting, then the call made again and the history continued; non-trivial: memory ran out at least once", 0},
    {"P30", p30, 400, 8000, "a line of 1200 tokens (or one token of 14 kB) and one 16 times as long: allocations, memory and processor time; non-trivial: both lines are accepted", 0},
    {"P31", p31, 10000, 400000, "a history in ordinary surroundings and again with another environment, directory, terminal, stream flags, errno, time, user and random numbers; non-trivial: all", 0},
    {"P32", p32, 10000, 400000, "histories in which copies of all arguments and elements are made after every line and read at the end; non-trivial: at least one copy", 0},
    {"P33", p33, 10000, 400000, "definitions reached by way of others, against the same declared at once; non-trivial: the way ends at the same definitions", 0},
    {"P34", p34, 10000, 400000, "validators and conversions that read the parser that calls them; non-trivial: at least one such reading", A_VALIDATORS | A_CUSTOM},
    {"P35", p35, 6000, 200000, "the same calls in 6, 13 and 28 rounds on one parser, memory held by the library at the end; non-trivial: all", 0},
    {"P36", p36, 12000, 500000, "definitions and lines with and without an argument that the lines do not use; non-trivial: at least one line compared", 0},
};
const int kChecksCount = static_cast<int>(sizeof kChecks / sizeof *kChecks);
