#include "script.h"

#include <cstdio>
#include <cstdlib>
#include <set>
#include <sstream>

void transformValues(const std::string& text, const std::string& mode, Strs& v) {
    if (v.empty()) {
        return;
    }
    if (mode == "first") {
        v.front() = text + v.front();
    }
    else if (mode == "last") {
        v.back() = text + v.back();
    }
    else if (mode == "odd") {
        for (std::size_t i = 1; i < v.size(); i += 2) {
            v[i] = text + v[i];
        }
    }
    else if (mode == "reverse") {
        for (std::size_t i = 0; i < v.size() / 2; ++i) {
            v[i].swap(v[v.size() - 1 - i]);
        }
    }
    else if (mode == "empty") {
        v.back().clear();
    }
    else if (mode == "shorter") {
        v[0] = text + v[0];
        v.resize((v.size() + 1) / 2);
    }
    else if (mode == "none") {
        v.clear();
    }
    else if (mode == "longer") {
        v.back() = text + v.back();
        v.insert(v.end(), 1 + v.size() * 3 % 40, text);
    }
    else if (mode == "same") {
        for (std::size_t i = 1; i < v.size(); ++i) {
            v[i] = v[0];
        }
    }
    else {
        for (std::size_t i = 0; i < v.size(); ++i) {
            v[i] = text + v[i];
        }
    }
}

std::string escText(const std::string& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\\') {
            r += "\\\\";
        }
        else if (c < 0x21 || c > 0x7e) {
            char b[8];
            std::sprintf(b, "\\x%02x", c);
            r += b;
        }
        else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

bool unescText(const std::string& in, std::string& out) {
    out.clear();
    for (std::size_t i = 0; i < in.size(); ++i) {
        if (in[i] != '\\') {
            out += in[i];
        }
        else if (i + 1 < in.size() && in[i + 1] == '\\') {
            out += '\\';
            ++i;
        }
        else if (i + 3 < in.size() && in[i + 1] == 'x') {
            out += static_cast<char>(std::strtol(in.substr(i + 2, 2).c_str(), NULL, 16));
            i += 3;
        }
        else {
            return false;
        }
    }
    return true;
}

std::string joinEsc(const Strs& v) {
    std::string r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i) {
            r += ' ';
        }
        r += '"' + escText(v[i]) + '"';
    }
    return r;
}

static const char* const kNames[OP_KINDS] = {"ADD",    "FLAG",    "ACTION",  "NARGS",      "REQUIRED", "METAVAR", "HELP",
                                             "DEFAULTS", "VALID",   "DEST",    "REMOVE",     "CLEAR",    "ALT",     "STRICT",
                                             "HELPEXC", "VEREXC",  "SETVERSION", "SETBIN",  "DESC",     "EPILOG",  "USAGE",
                                             "WIDTH",  "PARSE",   "OBSERVE", "GET",        "COPY",     "RENEW"};

std::string serialize(const Script& s) {
    std::ostringstream o;
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        const Op& p = s.ops[i];
        o << kNames[p.k] << ' ' << p.h << ' ' << p.n << ' ' << p.v.size();
        for (std::size_t j = 0; j < p.v.size(); ++j) {
            o << ' ' << p.v[j];
        }
        o << ' ' << '=' << escText(p.via);
        for (std::size_t j = 0; j < p.s.size(); ++j) {
            o << " =" << escText(p.s[j]);
        }
        o << '\n';
    }
    return o.str();
}

bool deserialize(const std::string& text, Script& s) {
    s.ops.clear();
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        std::istringstream l(line);
        std::string name;
        std::size_t nv = 0;
        Op p;
        if (!(l >> name >> p.h >> p.n >> nv)) {
            return false;
        }
        int k = 0;
        while (k < OP_KINDS && name != kNames[k]) {
            ++k;
        }
        if (k == OP_KINDS) {
            return false;
        }
        p.k = k;
        for (std::size_t j = 0; j < nv; ++j) {
            long x;
            if (!(l >> x)) {
                return false;
            }
            p.v.push_back(x);
        }
        std::string w;
        bool first = true;
        while (l >> w) {
            std::string t;
            if (w[0] != '=' || !unescText(w.substr(1), t)) {
                return false;
            }
            if (first) {
                p.via = t;
            }
            else {
                p.s.push_back(t);
            }
            first = false;
        }
        s.ops.push_back(p);
    }
    return true;
}

std::string pretty(const Script& s) {
    return serialize(s);
}

Strs nameUniverse(const Script& s) {
    Strs r;
    std::set<std::string> seen;
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        const Op& p = s.ops[i];
        if (p.k == OP_ADD || p.k == OP_FLAG || p.k == OP_REMOVE || p.k == OP_GET) {
            for (std::size_t j = 0; j < p.s.size(); ++j) {
                if (seen.insert(p.s[j]).second) {
                    r.push_back(p.s[j]);
                }
            }
        }
    }
    if (seen.insert("-h").second) {
        r.push_back("-h");
    }
    if (seen.insert("--help").second) {
        r.push_back("--help");
    }
    return r;
}

static std::string num(double d) {
    char b[64];
    std::sprintf(b, "%.17g", d);
    return b;
}

static void dumpElem(std::ostringstream& o, const Elem& e) {
    o << '"' << escText(e.str) << '"';
    if (!e.def.empty()) {
        o << "/default=\"" << escText(e.def) << '"';
    }
    if (e.stream != e.str) {
        o << "/stream=\"" << escText(e.stream) << '"';
    }
    if (e.isNum) {
        o << "#" << num(e.num);
    }
    if (e.numThrew == e.isNum) {
        o << "#!";
    }
    o << (e.vecOk ? "v" : "");
    if (e.vecOk) {
        o << '<' << joinEsc(e.vec) << '>';
    }
    else {
        o << '<' << e.vecErr << '>';
    }
    if (!e.sub.empty()) {
        o << '(';
        for (std::size_t i = 0; i < e.sub.size(); ++i) {
            dumpElem(o, e.sub[i]);
            o << ' ';
        }
        o << ')';
    }
}

std::string dumpSnapshot(const Snapshot& s, bool withDests) {
    std::ostringstream o;
    if (!s.taken) {
        return "  (no snapshot)\n";
    }
    for (std::map<std::string, int>::const_iterator it = s.byName.begin(); it != s.byName.end(); ++it) {
        o << "  name \"" << escText(it->first) << "\" -> " << it->second << '\n';
    }
    for (std::size_t i = 0; i < s.args.size(); ++i) {
        const ArgObs& a = s.args[i];
        o << "  arg " << i << " [" << joinEsc(a.names) << "] exists=" << a.exists << " required=" << a.required << " truth=" << a.truth
          << " count=" << a.count << " nargs=" << a.nargs << " action=" << a.action << " help=\"" << escText(a.help) << "\" metavar=\""
          << escText(a.metavar) << "\" default=\"" << escText(a.def) << "\" defaults=[" << joinEsc(a.defaults) << "]\n    text=\""
          << escText(a.str) << "\" stream=\"" << escText(a.stream) << "\" conv=\"" << escText(a.conv) << "\" vector=";
        if (a.vecOk) {
            o << '[' << joinEsc(a.vec) << ']';
        }
        else {
            o << '!' << a.vecErr;
        }
        o << " groups=";
        if (a.vvOk) {
            o << '[';
            for (std::size_t j = 0; j < a.vv.size(); ++j) {
                o << '[' << joinEsc(a.vv[j]) << ']';
            }
            o << ']';
        }
        else {
            o << '!' << a.vvErr;
        }
        o << " number=" << (a.isNum ? num(a.num) : std::string("no")) << " threw=" << a.numThrew << a.numErr << " as=" << a.convNumOk << ':'
          << num(a.convNum) << " pastEnd=" << a.pastEndRefused << "\n    elements=";
        for (std::size_t j = 0; j < a.el.size(); ++j) {
            dumpElem(o, a.el[j]);
            o << ' ';
        }
        o << '\n';
    }
    o << "  additional=[" << joinEsc(s.additional) << "]\n  bin=\"" << escText(s.bin) << "\" version=\"" << escText(s.version) << "\" desc=\""
      << escText(s.desc) << "\" epilog=\"" << escText(s.epilog) << "\" alt=" << s.alt << " strict=" << s.strict << " helpExc=" << s.helpExc
      << " verExc=" << s.verExc << "\n  usage=\"" << escText(s.usage) << "\"\n";
    if (!s.error.empty()) {
        o << "  ACCESSOR: " << s.error << '\n';
    }
    if (withDests) {
        for (std::size_t i = 0; i < s.dests.size(); ++i) {
            o << "  dest@" << s.dests[i].opIndex << " = " << s.dests[i].text << '\n';
        }
    }
    return o.str();
}

std::string dumpResult(const OpResult& r) {
    std::ostringstream o;
    if (!r.done) {
        o << "skipped";
    }
    else if (r.exited) {
        o << "exit(" << r.status << ")";
    }
    else if (r.cls.empty()) {
        o << "ok";
    }
    else {
        o << r.cls << " argument=\"" << escText(r.arg) << "\" what=\"" << escText(r.what) << '"';
    }
    if (!r.out.empty()) {
        o << " stdout=\"" << escText(r.out) << '"';
    }
    if (r.argvChanged) {
        o << " ARGV CHANGED";
    }
    return o.str();
}

std::string dumpEvent(const Event& e) {
    std::ostringstream o;
    o << "during op " << e.op << ": " << (e.kind == 'V' ? "validator" : e.kind == 'D' ? "custom destination" : "validator destroyed") << " of op "
      << e.opIndex;
    if (e.kind == 'D') {
        o << " exists=" << e.exists;
    }
    for (std::size_t i = 0; i < e.values.size(); ++i) {
        o << " [" << joinEsc(e.values[i]) << ']';
    }
    if (!e.seen.empty()) {
        o << " and sees " << e.seen;
    }
    return o.str();
}

std::string dump(const Obs& ob) {
    std::ostringstream o;
    for (std::size_t i = 0; i < ob.ops.size(); ++i) {
        o << "op " << i << ": " << dumpResult(ob.ops[i]) << '\n';
        if (ob.ops[i].snap.taken) {
            o << dumpSnapshot(ob.ops[i].snap);
        }
    }
    for (std::size_t i = 0; i < ob.events.size(); ++i) {
        o << dumpEvent(ob.events[i]) << '\n';
    }
    for (std::map<int, int>::const_iterator it = ob.destroyedAtEnd.begin(); it != ob.destroyedAtEnd.end(); ++it) {
        o << "validator of op " << it->first << " destroyed " << it->second << " times\n";
    }
    return o.str();
}
