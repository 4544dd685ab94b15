// mon --check ID --cases N --seed S --out DIR [--workers W] [--case K] [--slow]
// mon --script FILE --check ID          runs a history and judges it by the aspects of the check
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>

#include "mon.h"

extern "C" {
int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
void __tsan_init(void) __attribute__((weak));
void __lsan_disable(void) __attribute__((weak));
void __lsan_enable(void) __attribute__((weak));
}

namespace {

const int kTallies = 320;
struct Tally {
    char name[56];
    std::uint64_t n;
};
struct Slot {
    std::atomic<std::uint64_t> current; // case number + 1, 0: none
    std::atomic<std::uint64_t> doneCases;
    std::atomic<int> finished;
    std::atomic<int> child; // process of the case, when it has one of its own
    double slowest; // seconds of the slowest case, and which
    std::uint64_t slowestCase;
    Tally t[kTallies];
};
Slot* g_slot = nullptr;

// a case that eats the memory of the machine ends alone
bool g_nolimit = false;

void limitMemory() {
    if (g_nolimit || __lsan_do_recoverable_leak_check || __tsan_init) {
        return; // sanitizers reserve terabytes; run with hard_rss_limit_mb
    }
    rlimit l;
    l.rlim_cur = l.rlim_max = 3ull << 30;
    setrlimit(RLIMIT_AS, &l);
}

// sanitizers reserve terabytes and their own limits end with fork: watched from outside
const double kMostMemory = 2500; // MB

double memoryOf(int pid) {
    char b[64];
    std::snprintf(b, sizeof b, "/proc/%d/statm", pid);
    FILE* f = std::fopen(b, "r");
    unsigned long all = 0, in = 0;
    if (!f) {
        return 0;
    }
    if (std::fscanf(f, "%lu %lu", &all, &in) != 2) {
        in = 0;
    }
    std::fclose(f);
    return static_cast<double>(in) * 4096 / 1e6;
}

double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

std::string jsonText(const std::string& s) {
    std::string r = "\"";
    for (char ch : s) {
        unsigned char c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 0x20 || c > 0x7e) {
            char b[16];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += ch;
        }
    }
    return r + "\"";
}

std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

struct Args {
    std::string check, out = "/tmp", script, digest;
    std::uint64_t cases = 1000, seed = 1, only = ~0ull;
    int workers = 8;
    double seconds = 1e9; // stop generating then
    bool slow = false, one = false;
};

const CheckDef* findCheck(const std::string& id) {
    for (int i = 0; i < kChecksCount; ++i) {
        if (id == kChecks[i].id) {
            return &kChecks[i];
        }
    }
    return nullptr;
}

void writeFinding(const std::string& path, std::uint64_t index, const Finding& f) {
    std::ofstream o(path, std::ios::binary);
    o << "case " << index << "\nkey " << f.key << "\n";
    std::istringstream t(f.text);
    std::string l;
    while (std::getline(t, l)) {
        o << "# " << l << "\n";
    }
    for (std::size_t i = 0; i < f.scripts.size(); ++i) {
        o << "%% history " << i + 1 << "\n" << serialize(f.scripts[i]);
    }
}

void worker(const Args& a, const CheckDef& d, int w, std::uint64_t from, std::uint64_t* hashes, const std::string& scratch) {
    int found = 0;
    const double began = now();
    std::ofstream samples;
    if (w == 0 && from == 0) {
        samples.open(a.out + "/samples.txt");
    }
    int sampled = 0;
    std::uint64_t batch = 0, batchStart = from;
    for (std::uint64_t i = from; i < a.cases; i += static_cast<std::uint64_t>(a.workers)) {
        g_slot->current = i + 1;
        if (now() - began > a.seconds) {
            break;
        }
        const double caseBegan = now();
        pid_t child = -1;
        if (d.fresh && (child = fork()) != 0) {
            // a new process for every case: nothing is there yet that is made at the first use
            int st = 0;
            g_slot->child = child;
            waitpid(child, &st, 0);
            g_slot->child = 0;
            if (WIFSIGNALED(st)) {
                signal(WTERMSIG(st), SIG_DFL);
                raise(WTERMSIG(st));
                _exit(98);
            }
            if (WEXITSTATUS(st) != 25 && WEXITSTATUS(st) != 26) {
                _exit(WEXITSTATUS(st));
            }
            found += WEXITSTATUS(st) == 26;
            if (samples.is_open() && i > 80) {
                samples.close();
            }
        }
        else {
            if (child == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
            }
            Case c(a.check, a.seed, i);
            c.scratch = scratch;
            d.fn(c);
            hashes[i] = c.signature;
            if (samples.is_open() && sampled < 3 && c.signature && !c.sample.empty() && c.sample.size() < 1500 && c.sample.size() > 120) {
                samples << "%% case " << i << "\n" << c.sample;
                ++sampled;
            }
            for (const Finding& f : c.found) {
                writeFinding(a.out + "/found-" + std::to_string(w) + "-" + std::to_string(i) + "-" + std::to_string(found++) + ".txt", i, f);
            }
            if (child == 0) {
                if (samples.is_open()) {
                    samples.flush();
                }
                _exit(c.found.empty() ? 25 : 26);
            }
        }
        const double took = now() - caseBegan;
        if (took > g_slot->slowest) {
            g_slot->slowest = took;
            g_slot->slowestCase = i;
        }
        ++g_slot->doneCases;
        if (found > 20) {
            break;
        }
        if (__lsan_do_recoverable_leak_check && ++batch % 128 == 0) {
            if (__lsan_do_recoverable_leak_check()) {
                Finding f;
                f.key = "leak-batch";
                f.text = "memory leaked between cases " + std::to_string(batchStart) + " and " + std::to_string(i);
                writeFinding(a.out + "/leak-" + std::to_string(w) + "-" + std::to_string(batchStart) + "-" + std::to_string(i) + ".txt", i, f);
                break;
            }
            batchStart = i + static_cast<std::uint64_t>(a.workers);
        }
    }
    if (__lsan_do_recoverable_leak_check && found == 0 && __lsan_do_recoverable_leak_check()) {
        Finding f;
        f.key = "leak-batch";
        f.text = "memory leaked between cases";
        writeFinding(a.out + "/leak-" + std::to_string(w) + "-" + std::to_string(batchStart) + "-" + std::to_string(a.cases) + ".txt", batchStart, f);
    }
    g_slot->finished = 1;
}

// runs one case alone in a child; "" when it ends well
std::string runAlone(const Args& a, const CheckDef& d, std::uint64_t i, const std::string& scratch, double limit, std::vector<Finding>* found) {
    const std::string report = a.out + "/alone.txt";
    ::unlink(report.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        g_slot = static_cast<Slot*>(calloc(1, sizeof(Slot)));
        limitMemory();
        {
            Case c(a.check, a.seed, i);
            c.scratch = scratch;
            d.fn(c);
            for (const Finding& f : c.found) {
                writeFinding(report, i, f);
            }
        }
        int leak = 0;
        if (__lsan_do_recoverable_leak_check) {
            leak = __lsan_do_recoverable_leak_check();
        }
        _exit(leak ? 24 : 25);
    }
    double start = now();
    int st = 0;
    for (;;) {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) {
            break;
        }
        if (now() - start > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return "hang";
        }
        if (memoryOf(pid) > kMostMemory) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return "memory without bound";
        }
        usleep(2000);
    }
    (void)found;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 25) {
        return "";
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 24) {
        return "leak";
    }
    if (WIFEXITED(st)) {
        return WEXITSTATUS(st) == 0 ? "the library ended the process" : WEXITSTATUS(st) == 97 ? "sanitizer report" : "exit " + std::to_string(WEXITSTATUS(st));
    }
    return std::string("signal ") + strsignal(WTERMSIG(st));
}

// ---- shrinking: fewer operations, fewer tokens, same kind of difference
std::string judgeOnce(const Script& s, unsigned aspects, const std::string& out, std::string* text) {
    const std::string report = out + "/shrink.txt";
    ::unlink(report.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        limitMemory();
        Script c = s;
        model::Options mo;
        RunOptions ro;
        mo.noUsage = ro.noUsage = !(aspects & A_USAGE);
        Obs real, mod;
        std::string key, t;
        model::run(c, mo, mod);
        runReal(c, ro, real);
        t = difference(c, real, mod, aspects, &key);
        std::ofstream o(report, std::ios::binary);
        o << key << "\n" << t;
        o.close();
        _exit(25);
    }
    double start = now();
    int st = 0;
    while (waitpid(pid, &st, WNOHANG) != pid) {
        if (now() - start > 5) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return "hang";
        }
        usleep(300);
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 25) {
        return "crash";
    }
    std::string r = slurp(report);
    std::size_t nl = r.find('\n');
    *text = nl == std::string::npos ? "" : r.substr(nl + 1);
    return r.substr(0, nl);
}

Script shrink(Script s, unsigned aspects, const std::string& key, const std::string& out, std::string* text) {
    int budget = 500;
    bool again = true;
    while (again && budget > 0) {
        again = false;
        for (std::size_t i = s.ops.size(); i-- > 0 && budget > 0;) {
            Script t = s;
            t.ops.erase(t.ops.begin() + static_cast<long>(i));
            std::string x;
            --budget;
            if (judgeOnce(t, aspects, out, &x) == key) {
                s = t;
                *text = x;
                again = true;
            }
        }
        for (std::size_t i = 0; i < s.ops.size() && budget > 0; ++i) {
            if (s.ops[i].k != OP_PARSE) {
                continue;
            }
            for (std::size_t j = s.ops[i].s.size(); j-- > 1 && budget > 0;) {
                Script t = s;
                t.ops[i].s.erase(t.ops[i].s.begin() + static_cast<long>(j));
                if (!t.ops[i].v.empty() && t.ops[i].v[0] > static_cast<long>(t.ops[i].s.size())) {
                    t.ops[i].v[0] = static_cast<long>(t.ops[i].s.size());
                }
                std::string x;
                --budget;
                if (judgeOnce(t, aspects, out, &x) == key) {
                    s = t;
                    *text = x;
                    again = true;
                }
            }
        }
    }
    return s;
}

int runScript(const Args& a) {
    const CheckDef* d = findCheck(a.check);
    Script s;
    std::string text = slurp(a.script), body;
    std::istringstream in(text);
    std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 2, "%%") == 0 || l.compare(0, 5, "case ") == 0 || l.compare(0, 4, "key ") == 0) {
            continue;
        }
        body += l + "\n";
    }
    if (!deserialize(body, s)) {
        std::cerr << "cannot read the history\n";
        return 2;
    }
    model::Options mo;
    RunOptions ro;
    Obs real, mod;
    model::run(s, mo, mod);
    runReal(s, ro, real);
    std::cout << "---- library\n" << dump(real) << "---- reference\n" << dump(mod);
    std::string key, t = difference(s, real, mod, d && d->aspects ? d->aspects : ~0u & ~A_ALWAYS, &key);
    std::cout << "---- " << (t.empty() ? "no difference" : "difference (" + key + "):\n" + t) << "\n";
    return t.empty() ? 0 : 1;
}

} // namespace

void tally(const std::string& name, std::uint64_t n) {
    if (!g_slot) {
        return;
    }
    for (int i = 0; i < kTallies; ++i) {
        Tally& t = g_slot->t[i];
        if (t.name[0] == '\0') {
            std::strncpy(t.name, name.c_str(), sizeof t.name - 1);
        }
        if (std::strncmp(t.name, name.c_str(), sizeof t.name - 1) == 0) {
            t.n += n;
            return;
        }
    }
}

Case::Case(const std::string& check, std::uint64_t seed, std::uint64_t idx) : r(hashText(check) ^ (seed * 0x9e3779b97f4a7c15ull)), index(idx), id(check) {
    r.s ^= idx * 0xd1342543de82ef95ull;
    r.next();
    r.s ^= r.next();
}

void Case::fail(const std::string& key, const std::string& text, const Script& s) {
    Finding f;
    f.key = key;
    f.text = text;
    f.scripts.push_back(s);
    found.push_back(f);
}

void Case::fail(const std::string& key, const std::string& text, const Script& a, const Script& b) {
    fail(key, text, a);
    found.back().scripts.push_back(b);
}

void Case::nontrivial(const std::string& sig, const std::string& shown) {
    signature = hashText(sig) | 1;
    sample = shown;
}

int main(int argc, char** argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--check") {
            a.check = v;
        }
        else if (k == "--cases") {
            a.cases = std::strtoull(v.c_str(), NULL, 10);
        }
        else if (k == "--seed") {
            a.seed = std::strtoull(v.c_str(), NULL, 10);
        }
        else if (k == "--out") {
            a.out = v;
        }
        else if (k == "--workers") {
            a.workers = std::atoi(v.c_str());
        }
        else if (k == "--slow") {
            a.slow = v == "1";
        }
        else if (k == "--case") {
            a.only = std::strtoull(v.c_str(), NULL, 10);
            a.one = true;
        }
        else if (k == "--seconds") {
            a.seconds = std::atof(v.c_str());
        }
        else if (k == "--nolimit") {
            g_nolimit = v == "1";
        }
        else if (k == "--digest") {
            a.digest = v;
        }
        else if (k == "--script") {
            a.script = v;
        }
        else {
            std::cerr << "unknown option " << k << "\n";
            return 2;
        }
    }
    if (!a.script.empty()) {
        return runScript(a);
    }
    const CheckDef* d = findCheck(a.check);
    if (!d) {
        std::cerr << "unknown check\n";
        return 2;
    }
    const std::string scratch = a.out + "/scratch";
    ::mkdir(scratch.c_str(), 0755);
    // relative paths of the workload are looked up in the scratch directory only
    if (::chdir(scratch.c_str()) != 0) {
        std::cerr << "no scratch directory\n";
        return 2;
    }
    if (a.one) {
        g_slot = static_cast<Slot*>(calloc(1, sizeof(Slot)));
        ::mkdir((scratch + "/0").c_str(), 0755);
        Case c(a.check, a.seed, a.only);
        c.scratch = scratch + "/0";
        d->fn(c);
        std::cerr << c.sample;
        for (const Finding& f : c.found) {
            std::cerr << "FOUND " << f.key << "\n" << f.text << "\n";
            for (const Script& s : f.scripts) {
                std::cerr << "%%\n" << serialize(s);
            }
        }
        return c.found.empty() ? 0 : 1;
    }
    if (a.workers > static_cast<int>(a.cases)) {
        a.workers = static_cast<int>(a.cases);
    }
    const std::size_t slotBytes = sizeof(Slot) * static_cast<std::size_t>(a.workers);
    Slot* slots = static_cast<Slot*>(mmap(NULL, slotBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::uint64_t* hashes =
        static_cast<std::uint64_t*>(mmap(NULL, a.cases * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (slots == MAP_FAILED || hashes == MAP_FAILED) {
        std::cerr << "no memory\n";
        return 2;
    }
    struct Proc {
        pid_t pid;
        std::uint64_t last;
        double since;
        bool over;
    };
    std::vector<Proc> procs(static_cast<std::size_t>(a.workers));
    const double limit = a.slow ? 100 : 20;
    const double start = now();
    auto launch = [&](int w, std::uint64_t from) {
        std::fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            int err = open((a.out + "/stderr-" + std::to_string(w) + ".txt").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
            dup2(err, 2);
            g_slot = &slots[w];
            limitMemory();
            std::string sc = scratch + "/" + std::to_string(w);
            ::mkdir(sc.c_str(), 0755);
            worker(a, *d, w, from, hashes, sc);
            _exit(25);
        }
        procs[static_cast<std::size_t>(w)] = Proc{pid, ~0ull, now(), false};
    };
    for (int w = 0; w < a.workers; ++w) {
        launch(w, static_cast<std::uint64_t>(w));
    }
    int running = a.workers, ends = 0;
    bool stop = false; // a hang was seen twice: enough
    int inconclusive = 0, round = 0;
    while (running > 0 && !stop) {
        usleep(3000);
        ++round;
        for (int w = 0; w < a.workers; ++w) {
            Proc& p = procs[static_cast<std::size_t>(w)];
            if (p.over) {
                continue;
            }
            int st = 0;
            std::uint64_t cur = slots[w].current;
            std::string bad;
            if (waitpid(p.pid, &st, WNOHANG) == p.pid) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 25 && slots[w].finished) {
                    p.over = true;
                    --running;
                    continue;
                }
                bad = WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "the library ended the process" : WEXITSTATUS(st) == 97 ? "sanitizer report" : "exit status " + std::to_string(WEXITSTATUS(st)))
                                    : std::string("signal ") + strsignal(WTERMSIG(st));
            }
            else if (round % 8 == 0 && (memoryOf(p.pid) > kMostMemory || (slots[w].child > 0 && memoryOf(slots[w].child) > kMostMemory))) {
                kill(p.pid, SIGKILL); // its child ends with it
                waitpid(p.pid, &st, 0);
                bad = "memory without bound";
            }
            else if (cur != p.last) {
                p.last = cur;
                p.since = now();
                continue;
            }
            else if (now() - p.since > limit) {
                kill(p.pid, SIGKILL);
                waitpid(p.pid, &st, 0);
                bad = "hang";
            }
            if (bad.empty()) {
                continue;
            }
            slots[w].child = 0;
            if (cur == 0) {
                std::cerr << "a worker ended before its first case: " << bad << "\n";
                return 2;
            }
            // alone, once more; nobody watches the others meanwhile
            for (Proc& q : procs) {
                if (!q.over && q.pid != p.pid) {
                    kill(q.pid, SIGSTOP);
                }
            }
            std::string again = runAlone(a, *d, cur - 1, scratch + "/" + std::to_string(w), bad == "hang" ? 3 * limit : limit, NULL);
            for (Proc& q : procs) {
                if (!q.over && q.pid != p.pid) {
                    kill(q.pid, SIGCONT);
                    q.since = now();
                }
            }
            Finding f;
            f.key = again.empty() ? bad : again;
            f.text = "case " + std::to_string(cur - 1) + ": " + bad + "; run alone: " + (again.empty() ? "ends well" : again) + "\n";
            std::string err = slurp(a.out + "/stderr-" + std::to_string(w) + ".txt");
            f.text += err.size() > 6000 ? err.substr(err.size() - 6000) : err;
            if (again.empty() && (bad == "hang" || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))) {
                ++inconclusive; // slow machine, or ended from outside: not a verdict
            }
            else {
                writeFinding(a.out + "/found-" + std::to_string(w) + "-" + std::to_string(cur - 1) + "-crash.txt", cur - 1, f);
            }
            if ((f.key == "hang" || f.key == "memory without bound") && !again.empty()) {
                stop = true;
                break;
            }
            if (++ends > 12) {
                p.over = true;
                --running;
                continue;
            }
            if (cur - 1 + static_cast<std::uint64_t>(a.workers) < a.cases) {
                launch(w, cur - 1 + static_cast<std::uint64_t>(a.workers));
            }
            else {
                p.over = true;
                --running;
            }
        }
    }
    for (Proc& p : procs) {
        if (!p.over) {
            kill(p.pid, SIGKILL);
            waitpid(p.pid, NULL, 0);
        }
    }
    const double wall = now() - start;
    // collect
    std::vector<std::string> files;
    {
        FILE* l = popen(("ls '" + a.out + "' | grep -E '^(found|leak)-' | sort").c_str(), "r");
        char b[512];
        while (l && std::fgets(b, sizeof b, l)) {
            std::string n = b;
            while (!n.empty() && n.back() == '\n') {
                n.pop_back();
            }
            files.push_back(n);
        }
        if (l) {
            pclose(l);
        }
    }
    std::map<std::string, std::string> byKey; // key -> file
    for (const std::string& n : files) {
        std::string t = slurp(a.out + "/" + n);
        std::size_t k = t.find("\nkey "), e = t.find('\n', k + 1);
        std::string key = t.substr(k + 5, e - k - 5);
        if (key == "leak-batch") { // find the case
            unsigned long long x = 0, y = 0;
            int w = 0;
            std::sscanf(n.c_str(), "leak-%d-%llu-%llu", &w, &x, &y);
            for (std::uint64_t i = x; i <= y && i < a.cases; i += static_cast<std::uint64_t>(a.workers)) {
                std::string r = runAlone(a, *d, i, scratch + "/" + std::to_string(w), limit, NULL);
                if (r == "leak") {
                    Finding f;
                    f.key = "leak";
                    f.text = "case " + std::to_string(i) + " leaks memory\n" + slurp(a.out + "/stderr-" + std::to_string(w) + ".txt").substr(0, 4000);
                    writeFinding(a.out + "/" + n, i, f);
                    key = "leak";
                    break;
                }
            }
        }
        if (!byKey.count(key) || slurp(a.out + "/" + byKey[key]).size() > t.size()) {
            byKey[key] = n;
        }
    }
    int shrunk = 0;
    std::ostringstream js;
    js << "{\"findings\":[";
    bool first = true;
    for (const auto& e : byKey) {
        const std::string path = a.out + "/" + e.second;
        std::string t = slurp(path);
        // one history: make it small
        if (d->aspects && shrunk < 3 && t.find("%% history 1\n") != std::string::npos && t.find("%% history 2\n") == std::string::npos) {
            std::string body = t.substr(t.find("%% history 1\n") + 13), text;
            Script s;
            if (deserialize(body, s)) {
                std::string x, k = judgeOnce(s, d->aspects, a.out, &x);
                if (k == e.first) {
                    text = x;
                    Script small = shrink(s, d->aspects, k, a.out, &text);
                    Finding f;
                    f.key = e.first;
                    f.text = text + "\n(made smaller; the case as generated follows as the second history)";
                    f.scripts.push_back(small);
                    f.scripts.push_back(s);
                    std::uint64_t idx = 0;
                    std::sscanf(t.c_str(), "case %lu", &idx);
                    writeFinding(path, idx, f);
                    t = slurp(path);
                    ++shrunk;
                }
            }
        }
        std::uint64_t idx = 0;
        std::sscanf(t.c_str(), "case %lu", &idx);
        js << (first ? "" : ",") << "{\"key\":" << jsonText(e.first) << ",\"case\":" << idx << ",\"file\":" << jsonText(path) << "}";
        first = false;
    }
    js << "],\"counters\":{";
    std::map<std::string, std::uint64_t> sum;
    std::uint64_t done = 0, slowestCase = 0;
    double slowest = 0;
    for (int w = 0; w < a.workers; ++w) {
        if (slots[w].slowest > slowest) {
            slowest = slots[w].slowest;
            slowestCase = slots[w].slowestCase;
        }
    }
    for (int w = 0; w < a.workers; ++w) {
        done += slots[w].doneCases;
        for (int i = 0; i < kTallies && slots[w].t[i].name[0]; ++i) {
            sum[slots[w].t[i].name] += slots[w].t[i].n;
        }
    }
    first = true;
    for (const auto& e : sum) {
        js << (first ? "" : ",") << jsonText(e.first) << ":" << e.second;
        first = false;
    }
    if (!a.digest.empty()) {
        std::ofstream o(a.digest, std::ios::binary);
        o.write(reinterpret_cast<const char*>(hashes), static_cast<std::streamsize>(a.cases * 8));
    }
    std::sort(hashes, hashes + a.cases);
    std::uint64_t distinct = 0;
    for (std::uint64_t i = 0; i < a.cases; ++i) {
        if (hashes[i] && (i == 0 || hashes[i] != hashes[i - 1])) {
            ++distinct;
        }
    }
    js << "},\"cases\":" << done << ",\"distinct\":" << distinct << ",\"inconclusive\":" << inconclusive << ",\"rule\":" << jsonText(d->rule)
       << ",\"slowest_case_s\":" << slowest << ",\"slowest_case\":" << slowestCase << ",\"wall_s\":" << wall << ",\"samples\":" << jsonText(slurp(a.out + "/samples.txt")) << "}";
    std::ofstream(a.out + "/result.json") << js.str();
    return 0;
}
