#include "diff.h"
#include "mon.h"

#include <algorithm>
#include <sstream>

static bool sameNumber(double a, double b) {
    return a == b || (a != a && b != b);
}

static std::string ops(const Script& s, std::size_t i) {
    Script one;
    one.ops.push_back(s.ops[i]);
    std::string t = serialize(one);
    if (t.size() > 300) {
        t = t.substr(0, 300) + "...\n";
    }
    return "operation " + std::to_string(i) + ": " + t;
}

Strs flatOf(const ArgObs& a) {
    Strs r;
    for (const Elem& e : a.el) {
        if (e.sub.empty() && !e.vecOk) {
            r.push_back(e.str);
        }
        for (const Elem& x : e.sub) {
            r.push_back(x.str);
        }
    }
    if (a.el.empty() && a.vecOk) {
        return a.vec;
    }
    return r;
}

static bool builderOp(int k) {
    return k != OP_PARSE && k != OP_OBSERVE;
}

static std::string elemDiff(const Elem& r, const Elem& m, unsigned aspects, const std::string& where, bool byDefault) {
    if (byDefault && (aspects & A_PROPS) && r.def != m.def) {
        return where + ": default \"" + escText(r.def) + "\", expected \"" + escText(m.def) + "\"";
    }
    if ((aspects & (A_VALUES | A_VIEWS)) && r.str != m.str) {
        return where + ": text \"" + escText(r.str) + "\", expected \"" + escText(m.str) + "\"";
    }
    if (aspects & A_VIEWS) {
        if (r.stream != m.stream) {
            return where + ": streamed \"" + escText(r.stream) + "\", expected \"" + escText(m.stream) + "\"";
        }
        if (r.vecOk != m.vecOk || r.vec != m.vec || r.vecErr != m.vecErr) {
            return where + ": list conversion [" + joinEsc(r.vec) + "] " + r.vecErr + ", expected [" + joinEsc(m.vec) + "] " + m.vecErr;
        }
    }
    if ((aspects & A_NUMBERS) && !model::trickyNumber(m.str)) {
        if (r.isNum != m.isNum || r.numThrew != m.numThrew || (m.isNum && !sameNumber(r.num, m.num))) {
            std::ostringstream o;
            o.precision(17);
            o << where << ": number " << r.isNum << "/" << r.num << " refused=" << r.numThrew << ", expected " << m.isNum << "/" << m.num;
            return o.str();
        }
    }
    if (r.sub.size() != m.sub.size()) {
        return where + ": " + std::to_string(r.sub.size()) + " elements, expected " + std::to_string(m.sub.size());
    }
    for (std::size_t i = 0; i < r.sub.size(); ++i) {
        std::string d = elemDiff(r.sub[i], m.sub[i], aspects, where + "[" + std::to_string(i) + "]", byDefault);
        if (!d.empty()) {
            return d;
        }
    }
    return "";
}

static bool listLike(const ArgObs& a) {
    return !a.el.empty();
}

static std::string argDiff(const ArgObs& r, const ArgObs& m, unsigned aspects, bool afterGood, std::string* key) {
    const std::string who = "argument " + (m.names.empty() ? std::string("?") : m.names.front());
    auto fail = [&](const char* k, const std::string& t) {
        *key = k;
        return who + ": " + t;
    };
    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
    if (aspects & A_NAMES) {
        if (r.names != m.names) {
            return fail("names", "flags [" + joinEsc(r.names) + "], expected [" + joinEsc(m.names) + "]");
        }
    }
    if (aspects & A_PROPS) {
        if (r.required != m.required) {
            return fail("required", "required " + b(r.required));
        }
        if (r.help != m.help) {
            return fail("help", "help \"" + escText(r.help) + "\", expected \"" + escText(m.help) + "\"");
        }
        if (r.metavar != m.metavar) {
            return fail("metavar", "metavar \"" + escText(r.metavar) + "\", expected \"" + escText(m.metavar) + "\"");
        }
        if (r.def != m.def) {
            return fail("default", "default \"" + escText(r.def) + "\", expected \"" + escText(m.def) + "\"");
        }
        if (r.defaults != m.defaults) {
            return fail("defaults", "defaults [" + joinEsc(r.defaults) + "], expected [" + joinEsc(m.defaults) + "]");
        }
        if (r.nargs != m.nargs) {
            return fail("nargs", "nargs " + std::to_string(r.nargs) + ", expected " + std::to_string(m.nargs));
        }
        if (r.action != m.action) {
            return fail("action", "action " + std::to_string(r.action) + ", expected " + std::to_string(m.action));
        }
    }
    if (!afterGood && !(aspects & A_ALWAYS)) {
        return "";
    }
    if (aspects & (A_VALUES | A_TRUTH)) {
        if (r.exists != m.exists) {
            return fail("exists", "exists " + b(r.exists) + ", expected " + b(m.exists));
        }
    }
    if (aspects & A_TRUTH) {
        if (r.truth != m.truth) {
            return fail("truth", "truth value " + b(r.truth) + ", expected " + b(m.truth));
        }
    }
    const bool positional = !m.names.empty() && (m.names.front().empty() || m.names.front()[0] != '-');
    if ((aspects & A_COUNT) && !positional && r.count != m.count) {
        return fail("count", "count " + std::to_string(r.count) + ", expected " + std::to_string(m.count));
    }
    if (aspects & (A_VALUES | A_VIEWS)) {
        if (r.str != m.str) {
            return fail("text", "text \"" + escText(r.str) + "\", expected \"" + escText(m.str) + "\"");
        }
        if (r.vecOk != m.vecOk || r.vec != m.vec) {
            return fail("values", "values [" + joinEsc(r.vec) + "], expected [" + joinEsc(m.vec) + "]");
        }
        if (r.vvOk != m.vvOk || r.vv != m.vv) {
            std::string x, y;
            for (const Strs& g : r.vv) {
                x += "(" + joinEsc(g) + ") ";
            }
            for (const Strs& g : m.vv) {
                y += "(" + joinEsc(g) + ") ";
            }
            return fail("groups", "groups " + x + ", expected " + y);
        }
        if (r.el.size() != m.el.size()) {
            return fail("size", "size " + std::to_string(r.el.size()) + ", expected " + std::to_string(m.el.size()));
        }
    }
    if (aspects & A_VIEWS) {
        if (r.stream != m.stream || r.conv != m.conv) {
            return fail("stream", "streamed \"" + escText(r.stream) + "\" converted \"" + escText(r.conv) + "\", expected \"" + escText(m.stream) + "\"");
        }
        if (r.vecErr != m.vecErr || r.vvErr != m.vvErr) {
            return fail("refusal", "refusals \"" + r.vecErr + "\" \"" + r.vvErr + "\", expected \"" + m.vecErr + "\" \"" + m.vvErr + "\"");
        }
        if (r.pastEndRefused != m.pastEndRefused) {
            return fail("pastend", "access past the end was not refused");
        }
    }
    if (r.el.size() == m.el.size() && (aspects & (A_VALUES | A_VIEWS | A_NUMBERS | A_PROPS))) {
        for (std::size_t i = 0; i < r.el.size(); ++i) {
            std::string d = elemDiff(r.el[i], m.el[i], aspects, "element " + std::to_string(i), !m.exists);
            if (!d.empty()) {
                return fail("element", d);
            }
        }
    }
    if ((aspects & A_NUMBERS) && !listLike(m) && !model::trickyNumber(m.str)) {
        std::ostringstream o;
        o.precision(17);
        o << "number " << r.isNum << "/" << r.num << " refused=" << r.numThrew << " as=" << r.convNumOk << "/" << r.convNum << ", expected " << m.isNum << "/"
          << m.num;
        if (r.isNum != m.isNum || r.numThrew != m.numThrew || (m.isNum && (!sameNumber(r.num, m.num) || !r.convNumOk || !sameNumber(r.convNum, m.num))) ||
            r.convNumOk != m.convNumOk) {
            return fail("number", o.str());
        }
    }
    return "";
}

static std::string snapDiff(const Snapshot& r, const Snapshot& m, unsigned aspects, bool afterGood, bool failed, std::string* key) {
    if (!r.error.empty()) {
        *key = "accessor";
        return r.error;
    }
    // the registry: same names known, same partition
    std::map<int, int> to, from;
    for (const auto& n : m.byName) {
        auto it = r.byName.find(n.first);
        int ri = it == r.byName.end() ? -1 : it->second, mi = n.second;
        if ((ri < 0) != (mi < 0)) {
            if (aspects & (A_NAMES | A_VALUES)) {
                *key = "known";
                return "name \"" + escText(n.first) + "\" is " + (ri < 0 ? "unknown" : "known") + ", expected the contrary";
            }
            continue;
        }
        if (ri < 0) {
            continue;
        }
        if ((to.count(mi) && to[mi] != ri) || (from.count(ri) && from[ri] != mi)) {
            if (aspects & (A_NAMES | A_VALUES)) {
                *key = "leads";
                return "name \"" + escText(n.first) + "\" leads to another argument";
            }
            continue;
        }
        bool seen = to.count(mi) != 0;
        to[mi] = ri;
        from[ri] = mi;
        if (!seen) {
            std::string d = argDiff(r.args[static_cast<std::size_t>(ri)], m.args[static_cast<std::size_t>(mi)], aspects, afterGood, key);
            if (!d.empty()) {
                return d;
            }
        }
    }
    if ((aspects & A_ADDITIONAL) && (afterGood || (aspects & A_ALWAYS)) && r.additional != m.additional) {
        *key = "additional";
        return "additional arguments [" + joinEsc(r.additional) + "], expected [" + joinEsc(m.additional) + "]";
    }
    if (aspects & A_TEXTS) {
        if (r.alt != m.alt || r.strict != m.strict || r.helpExc != m.helpExc || r.verExc != m.verExc) {
            *key = "modes";
            return "modes differ";
        }
        if (r.bin != m.bin || r.version != m.version || r.desc != m.desc || r.epilog != m.epilog) {
            *key = "texts";
            return "texts of the parser: \"" + escText(r.bin) + "\" \"" + escText(r.version) + "\" \"" + escText(r.desc) + "\" \"" + escText(r.epilog) +
                   "\", expected \"" + escText(m.bin) + "\" \"" + escText(m.version) + "\" \"" + escText(m.desc) + "\" \"" + escText(m.epilog) + "\"";
        }
    }
    if ((aspects & A_USAGE) && r.usage != m.usage) {
        *key = "usage";
        return "usage:\n" + r.usage + "\n---- expected:\n" + m.usage + "\n----";
    }
    if ((aspects & (A_DESTS | A_FAILDESTS))) {
        if ((afterGood && (aspects & A_DESTS)) || (failed && (aspects & A_FAILDESTS)) || (aspects & A_ALWAYS)) {
            for (std::size_t i = 0; i < m.dests.size() && i < r.dests.size(); ++i) {
                if (m.dests[i].text[0] == '(' || r.dests[i].text[0] == '(') {
                    continue;
                }
                if (r.dests[i].text != m.dests[i].text) {
                    *key = "dest";
                    return "destination of operation " + std::to_string(m.dests[i].opIndex) + ": " + r.dests[i].text + ", expected " + m.dests[i].text;
                }
            }
        }
    }
    return "";
}

// which stage of a parse an observed outcome belongs to
static std::string phaseOf(const OpResult& r) {
    if (r.exited) {
        return "exit";
    }
    if (r.cls.empty()) {
        return "ok";
    }
    if (r.cls == "HelpException") {
        return "help";
    }
    if (r.cls == "VersionException") {
        return "version";
    }
    if (r.cls == "ParseArgumentRequiredException") {
        return "required";
    }
    if (r.cls == "ParseArgumentValidException" || r.cls == "std::runtime_error") {
        return "valid";
    }
    if (r.cls == "ParseArgumentException") {
        return r.what.find("destination method") != std::string::npos ? "dest" : "form";
    }
    return "other";
}

static std::string outcome(const OpResult& r) {
    return dumpResult(r);
}

static bool sameOutcome(const OpResult& r, const OpResult& m) {
    if (r.done != m.done || r.cls != m.cls || r.arg != m.arg || r.exited != m.exited || r.status != m.status) {
        return false;
    }
    if (r.what != m.what) {
        return false;
    }
    return !r.exited || r.out == m.out;
}

static std::vector<std::string> eventsOf(const Obs& o, int op, char kind) {
    std::vector<std::string> v;
    for (const Event& e : o.events) {
        if (e.op == op && e.kind == kind) {
            v.push_back(dumpEvent(e));
        }
    }
    if (kind == '~') {
        std::sort(v.begin(), v.end());
    }
    return v;
}

std::string difference(const Script& s, const Obs& real, const Obs& mod, unsigned aspects, std::string* key) {
    key->clear();
    if (!real.harness.empty()) {
        *key = "harness";
        return real.harness;
    }
    if (mod.vague) {
        tally("not judged: the outcome turns on a text such as 9e or 0x1");
        return "";
    }
    if (mod.vagueDests && (aspects & (A_DESTS | A_FAILDESTS))) {
        aspects &= ~static_cast<unsigned>(A_DESTS | A_FAILDESTS);
        tally("destinations not judged: a value such as 9e or out of range");
    }
    bool afterGood = true, failed = false; // before any line the defaults are there
    for (std::size_t i = 0; i < s.ops.size() && i < real.ops.size(); ++i) {
        const OpResult &r = real.ops[i], &m = mod.ops[i];
        const int k = s.ops[i].k;
        if (k == OP_CLEAR || k == OP_RENEW) {
            afterGood = true;
            failed = false;
        }
        if (builderOp(k)) {
            if (!sameOutcome(r, m)) {
                if (aspects & A_BUILDER) {
                    *key = "builder";
                    return ops(s, i) + "gave " + outcome(r) + "\nexpected " + outcome(m);
                }
                return ""; // the histories part here: nothing to compare after it
            }
        }
        else if (k == OP_PARSE) {
            if (!sameOutcome(r, m)) {
                if (aspects & A_ERROR) {
                    *key = "outcome";
                    return ops(s, i) + "gave " + outcome(r) + "\nexpected " + outcome(m);
                }
                const std::string rp = phaseOf(r), mp = m.cls.empty() && !m.exited ? "ok" : m.phase;
                auto in = [&](const char* p) { return rp == p || mp == p; };
                bool bad = false;
                if (aspects & A_FORM) {
                    bad = bad || (rp != mp && in("form"));
                }
                if (aspects & A_FORMTEXT) {
                    bad = bad || (rp == mp && in("form"));
                }
                if (aspects & A_PRECEDENCE) {
                    bad = bad || in("help") || in("version") || in("exit") || in("required") || (rp != mp && in("form") && in("valid"));
                }
                if (aspects & A_VALIDERR) {
                    bad = bad || in("valid");
                }
                if (aspects & A_DESTERR) {
                    bad = bad || in("dest");
                }
                if (bad) {
                    *key = "outcome:" + rp + ":" + mp;
                    return ops(s, i) + "gave " + outcome(r) + "\nexpected " + outcome(m);
                }
                return "";
            }
            afterGood = m.cls.empty() && !m.exited;
            failed = !m.cls.empty();
            if ((aspects & A_ARGV) && r.argvChanged) {
                *key = "argv";
                return ops(s, i) + "changed the argument vector";
            }
        }
        // calls into user code
        static const struct {
            unsigned a;
            char k;
            const char* n;
        } ev[] = {{A_VALIDATORS, 'V', "validator"}, {A_CUSTOM, 'D', "custom"}, {A_DESTROY, '~', "destroy"}};
        for (const auto& x : ev) {
            if (!(aspects & x.a)) {
                continue;
            }
            if (x.k == 'D' && !m.cls.empty() && m.phase != "help" && m.phase != "version" && m.phase != "required" && m.phase != "form") {
                continue;
            }
            std::vector<std::string> a = eventsOf(real, static_cast<int>(i), x.k), b = eventsOf(mod, static_cast<int>(i), x.k);
            if (a != b) {
                *key = x.n;
                std::string t = ops(s, i) + "calls observed:\n";
                for (const std::string& e : a) {
                    t += "  " + e + "\n";
                }
                t += "expected:\n";
                for (const std::string& e : b) {
                    t += "  " + e + "\n";
                }
                return t;
            }
        }
        if (r.snap.taken && m.snap.taken) {
            bool fd = failed && (m.phase == "form" || m.phase == "help" || m.phase == "version" || m.phase == "required");
            std::string d = snapDiff(r.snap, m.snap, aspects, afterGood, fd, key);
            if (!d.empty()) {
                return ops(s, i) + d;
            }
        }
    }
    if (aspects & A_DESTROY) {
        std::vector<std::string> a = eventsOf(real, static_cast<int>(s.ops.size()), '~'), b = eventsOf(mod, static_cast<int>(s.ops.size()), '~');
        std::map<int, int> x = real.destroyedAtEnd, y = mod.destroyedAtEnd;
        for (const auto& e : y) {
            if (x[e.first] != e.second) {
                *key = "destroyed";
                return "validator attached by operation " + std::to_string(e.first) + " destroyed " + std::to_string(x[e.first]) + " times, expected " +
                       std::to_string(e.second);
            }
        }
        if (a != b) {
            *key = "destroy";
            return "validators destroyed with the parser: " + std::to_string(a.size()) + ", expected " + std::to_string(b.size());
        }
    }
    return "";
}

std::string sameRuns(const Obs& a, std::size_t a0, const Obs& b, std::size_t b0, std::size_t n, unsigned skip, std::string* key) {
    key->clear();
    for (std::size_t i = 0; i < n && a0 + i < a.ops.size() && b0 + i < b.ops.size(); ++i) {
        const OpResult &x = a.ops[a0 + i], &y = b.ops[b0 + i];
        const std::string at = "step " + std::to_string(i) + " (operation " + std::to_string(a0 + i) + " of the first history, " + std::to_string(b0 + i) +
                               " of the second): ";
        if (!sameOutcome(x, y)) {
            *key = "outcome";
            return at + "first gave " + outcome(x) + "\nsecond gave " + outcome(y);
        }
        if (!(skip & S_EVENTS)) {
            for (char k : {'V', 'D'}) {
                std::vector<std::string> u, v;
                for (const Event& e : a.events) {
                    if (e.op == static_cast<int>(a0 + i) && e.kind == k) {
                        std::string t;
                        for (const Strs& l : e.values) {
                            t += "[" + joinEsc(l) + "]";
                        }
                        u.push_back(t + (e.exists ? "!" : ""));
                    }
                }
                for (const Event& e : b.events) {
                    if (e.op == static_cast<int>(b0 + i) && e.kind == k) {
                        std::string t;
                        for (const Strs& l : e.values) {
                            t += "[" + joinEsc(l) + "]";
                        }
                        v.push_back(t + (e.exists ? "!" : ""));
                    }
                }
                if (u != v) {
                    *key = "calls";
                    return at + "the calls into user code differ";
                }
            }
        }
        if (x.snap.taken != y.snap.taken) {
            *key = "snapshot";
            return at + "only one could be observed";
        }
        // only accessors that mean something after a failed parse are compared
        if (x.snap.taken && x.cls.empty() && !x.exited) {
            Snapshot p = x.snap, q = y.snap;
            std::map<int, int> to;
            for (const auto& nm : p.byName) {
                auto it = q.byName.find(nm.first);
                if (it == q.byName.end()) {
                    continue;
                }
                if ((nm.second < 0) != (it->second < 0)) {
                    *key = "known";
                    return at + "name \"" + escText(nm.first) + "\" is known in only one";
                }
                if (nm.second < 0) {
                    continue;
                }
                if (to.count(nm.second) && to[nm.second] != it->second) {
                    *key = "leads";
                    return at + "name \"" + escText(nm.first) + "\" leads to different arguments";
                }
                to[nm.second] = it->second;
                Snapshot u, v;
                u.taken = v.taken = true;
                u.args.push_back(p.args[static_cast<std::size_t>(nm.second)]);
                v.args.push_back(q.args[static_cast<std::size_t>(it->second)]);
                std::string d1 = dumpSnapshot(u), d2 = dumpSnapshot(v);
                if (d1 != d2) {
                    *key = "argument";
                    return at + "\n" + d1 + "differs from\n" + d2;
                }
            }
            if (p.additional != q.additional) {
                *key = "additional";
                return at + "additional arguments [" + joinEsc(p.additional) + "] and [" + joinEsc(q.additional) + "]";
            }
            if (p.bin != q.bin || p.version != q.version || p.desc != q.desc || p.epilog != q.epilog || p.alt != q.alt || p.strict != q.strict ||
                p.helpExc != q.helpExc || p.verExc != q.verExc) {
                *key = "texts";
                return at + "texts or modes differ";
            }
            if (!(skip & S_USAGE) && p.usage != q.usage) {
                *key = "usage";
                return at + "usage\n" + p.usage + "\nand\n" + q.usage;
            }
            if (p.error != q.error) {
                *key = "accessor";
                return at + p.error + q.error;
            }
            if (!(skip & S_DESTS)) {
                auto byHandle = [](const DestObs& u, const DestObs& v) { return u.handle < v.handle; };
                std::stable_sort(p.dests.begin(), p.dests.end(), byHandle);
                std::stable_sort(q.dests.begin(), q.dests.end(), byHandle);
                for (std::size_t k = 0; k < p.dests.size() && k < q.dests.size(); ++k) {
                    if (p.dests[k].text != q.dests[k].text && p.dests[k].text[0] != '(' && q.dests[k].text[0] != '(') {
                        *key = "dest";
                        return at + "destination " + std::to_string(k) + ": " + p.dests[k].text + " and " + q.dests[k].text;
                    }
                }
            }
        }
        else if (x.snap.taken && x.snap.usage != y.snap.usage && !(skip & S_USAGE)) {
            *key = "usage";
            return at + "usage\n" + x.snap.usage + "\nand\n" + y.snap.usage;
        }
    }
    return "";
}

std::string viewsAgree(const Snapshot& s, std::string* key) {
    key->clear();
    if (!s.error.empty()) {
        *key = "accessor";
        return s.error;
    }
    for (const ArgObs& a : s.args) {
        const std::string who = "argument " + (a.names.empty() ? std::string("?") : a.names.front()) + ": ";
        auto fail = [&](const char* k, const std::string& t) {
            *key = k;
            return who + t;
        };
        if (a.stream != a.str) {
            return fail("stream", "text \"" + escText(a.str) + "\" but streamed \"" + escText(a.stream) + "\"");
        }
        if (a.conv != a.str) {
            return fail("conv", "text \"" + escText(a.str) + "\" but converted \"" + escText(a.conv) + "\"");
        }
        if (!a.pastEndRefused) {
            return fail("pastend", "access past the end was not refused");
        }
        if (a.isNum == a.numThrew) {
            return fail("number", "isNumber and getNumber disagree");
        }
        if (a.convNumOk != a.isNum || (a.isNum && !sameNumber(a.num, a.convNum))) {
            return fail("numconv", "number and its conversion disagree");
        }
        if (a.truth != a.exists && !(a.action == model::A_FALSE && a.truth == !a.exists)) {
            return fail("truth", "truth value and existence disagree");
        }
        if (a.action == model::A_FALSE && a.truth == a.exists) {
            return fail("truth", "truth value of a store-false");
        }
        const bool flag = a.action == model::A_TRUE || a.action == model::A_FALSE || a.nargs == 0;
        if (flag && a.action != model::A_HELP && a.action != model::A_VERSION && a.str != (a.truth ? "true" : "false")) {
            return fail("flagtext", "truth value and text disagree");
        }
        if (!a.vecOk && a.vecErr != "convertion to vector of string not authorized") {
            return fail("refusal", "refused with \"" + a.vecErr + "\"");
        }
        if (!a.vvOk && a.vvErr != "convertion to vector of vector of string not authorized") {
            return fail("refusal", "refused with \"" + a.vvErr + "\"");
        }
        if (flag && (a.vecOk || a.vvOk)) {
            return fail("flagvec", "a flag converted to a list");
        }
        if (!flag && !a.vecOk) {
            return fail("novec", "a value refused to convert to a list");
        }
        // leaves
        Strs leaves;
        for (std::size_t i = 0; i < a.el.size(); ++i) {
            const Elem& e = a.el[i];
            if (e.vecOk) { // a group
                Strs g;
                for (const Elem& x : e.sub) {
                    g.push_back(x.str);
                }
                if (g != e.vec) {
                    return fail("group", "elements of a group and its list disagree");
                }
                if (!a.vvOk || i >= a.vv.size() || a.vv[i] != g) {
                    return fail("groups", "groups and the list of lists disagree");
                }
                leaves.insert(leaves.end(), g.begin(), g.end());
                for (const Elem& x : e.sub) {
                    if (x.stream != x.str || x.isNum == x.numThrew || x.vecOk || !x.sub.empty()) {
                        return fail("leaf", "views of an element disagree");
                    }
                }
            }
            else {
                if (e.stream != e.str || e.isNum == e.numThrew || !e.sub.empty()) {
                    return fail("leaf", "views of an element disagree");
                }
                if (e.vecErr != "convertion to vector of string not authorized") {
                    return fail("leafrefusal", "an element refused with \"" + e.vecErr + "\"");
                }
                leaves.push_back(e.str);
            }
        }
        if (a.vvOk && a.vv.size() != a.el.size()) {
            return fail("size", "size and list of lists disagree");
        }
        if (!a.vvOk && !a.el.empty() && a.el.size() != a.vec.size()) {
            return fail("size", "size and list disagree");
        }
        if (!a.el.empty()) {
            if (a.vec != leaves) {
                return fail("leaves", "elements and list disagree");
            }
            std::string t;
            if (a.vvOk) {
                for (std::size_t i = 0; i < a.vv.size(); ++i) {
                    t += i ? ", (" : "(";
                    for (std::size_t j = 0; j < a.vv[i].size(); ++j) {
                        t += (j ? ", " : "") + a.vv[i][j];
                    }
                    t += ")";
                }
            }
            else {
                for (std::size_t i = 0; i < leaves.size(); ++i) {
                    t += (i ? ", " : "") + leaves[i];
                }
            }
            if (t != a.str) {
                return fail("text", "text \"" + escText(a.str) + "\" of values \"" + escText(t) + "\"");
            }
        }
        else if (a.vecOk && !(a.vec.empty() && a.str.empty()) && !(a.vec.size() == 1 && a.vec[0] == a.str)) {
            return fail("single", "text \"" + escText(a.str) + "\" but list [" + joinEsc(a.vec) + "]");
        }
    }
    return "";
}
