// Histories of calls on the library and what was observed of them.
// C++98: shared by the executor (built in every language standard) and the rest.
#ifndef VERIF_SCRIPT_H_
#define VERIF_SCRIPT_H_

#include <map>
#include <string>
#include <vector>

typedef std::vector<std::string> Strs;

enum OpKind {
    OP_ADD = 0,   // h: handle, s: names, n: way of writing the list
    OP_FLAG,      // h, s[0]
    OP_ACTION,    // h, n
    OP_NARGS,     // h, n
    OP_REQUIRED,  // h, n
    OP_METAVAR,   // h, s[0]
    OP_HELP,      // h, s[0]
    OP_DEFAULTS,  // h, s, n: way of writing the list
    OP_VALID,     // h, n: ValidKind, s: parameters, v[0]: owned
    OP_DEST,      // h, n: DestBase, v[0]: container 0/1/2, v[1]: custom, v[2]: elements already there, v[3]: throws kThrown[v[3] - 1]
    OP_REMOVE,    // s, n: way of writing the list
    OP_CLEAR,
    OP_ALT,       // n
    OP_STRICT,    // n
    OP_HELPEXC,   // n
    OP_VEREXC,    // n
    OP_SETVERSION, // s[0]
    OP_SETBIN,    // s[0]
    OP_DESC,
    OP_EPILOG,
    OP_USAGE,
    OP_WIDTH,     // v[0..3]
    OP_PARSE,     // s: argv (program name included), n: 1 if run in a child process, v[0] (optional): argc given
    OP_OBSERVE,
    OP_GET,       // s[0]: name, n: 0 getArgument, 1 operator[], 2 updateArgument
    OP_COPY,      // h: copy the argument object, use and destroy the copy
    OP_RENEW,     // destroy the parser and make a new one
    OP_KINDS
};

enum ValidKind {
    V_PASS = 0,   // records, accepts
    V_FALSE,      // records, returns false
    V_THROW,      // records, throws ParseArgumentValidException(s[0])
    V_TRANSFORM,  // records, accepts, changes the values (transformValues with s[0], s[1])
    V_NUMBER,
    V_MINMAX,     // s[0], s[1]
    V_CHOICE,     // s
    V_PATH,       // v[1]: mode 0 all, 1 file, 2 dir, 3: default constructed
    V_FOREIGN,    // records, throws s[1]: one of kThrown (none: std::runtime_error) with the text s[0]
    V_NULL,       // valid(NULL)
    V_SAME,       // the validator that the argument already has (none: valid(NULL)), v[0]: owned
    V_SHARE,      // the validator lent last (none: valid(NULL)), lent
    V_KINDS
};

enum DestBase {
    D_BOOL = 0, D_CHAR, D_UCHAR, D_SHORT, D_USHORT, D_INT, D_UINT, D_LONG, D_ULONG, D_LLONG, D_ULLONG,
    D_FLOAT, D_DOUBLE, D_LDOUBLE, D_STRING, D_CSTR,
    D_ARR1, D_ARR4, D_ARR5, D_ARR6, D_ARR8, D_ARR64, // scalar only
    D_USER,       // user type: custom conversion, or unsupported type when not custom
    D_KINDS
};

// base types that a destination may have a conversion of its own for
inline bool customBase(long base) { return base == D_USER || base == D_STRING || base == D_INT; }

// what a V_TRANSFORM validator does: mode "" all, first, last, odd, reverse, empty, same, shorter, none, longer
// (of a list that comes back shorter the rest stays, of a longer one the surplus is dropped)
void transformValues(const std::string& text, const std::string& mode, Strs& v);

// what user code may throw through the library
const char* const kThrown[] = {"runtime", "int", "alloc", "logic", "help", "version", "argument", "required", "parse", "access", "other", "range", "range_error", "overflow", "underflow",
    "invalid", "length", "domain", "cast", "failure", "valid_base", "pointer", "text"};
const int kThrownKinds = 23;

struct Op {
    int k;
    int h;
    long n;
    Strs s;
    std::vector<long> v;
    std::string via; // when not empty: reach the argument with updateArgument(via)
    Op() : k(0), h(-1), n(0) {}
    explicit Op(int kind, int handle = -1, long num = 0) : k(kind), h(handle), n(num) {}
};

struct Script {
    std::vector<Op> ops;
};

std::string escText(const std::string& s);
bool unescText(const std::string& in, std::string& out);
std::string serialize(const Script& s);
bool deserialize(const std::string& text, Script& s);
std::string pretty(const Script& s);
std::string joinEsc(const Strs& v);

// ---------------------------------------------------------------------------
// observations
// ---------------------------------------------------------------------------

struct Elem {
    std::string str;
    std::string def;   // its default
    std::string stream;
    bool isNum;
    double num;        // getNumber when isNum
    bool numThrew;     // getNumber threw
    bool vecOk;
    Strs vec;
    std::string vecErr;
    std::vector<Elem> sub;
    Elem() : isNum(false), num(0), numThrew(false), vecOk(false) {}
};

struct ArgObs {
    int handle; // which added argument (-1: made by the library)
    Strs names;
    bool exists, required, truth;
    unsigned long count, nargs;
    int action;
    std::string help, metavar, def, str, stream, conv;
    Strs defaults;
    bool vecOk, vvOk;
    Strs vec;
    std::string vecErr, vvErr;
    std::vector<Strs> vv;
    bool isNum;
    double num;
    bool numThrew;
    std::string numErr;
    bool convNumOk; // operator T
    double convNum;
    bool pastEndRefused;
    std::vector<Elem> el;
    ArgObs() :
        handle(-1), exists(false), required(false), truth(false), count(0), nargs(0), action(0), vecOk(false), vvOk(false),
        isNum(false), num(0), numThrew(false), convNumOk(false), convNum(0), pastEndRefused(true) {}
};

struct DestObs {
    int handle;
    int opIndex;
    std::string text;
    DestObs() : handle(-1), opIndex(-1) {}
};

struct Snapshot {
    bool taken;
    std::vector<ArgObs> args;          // in order of the first known name met (universe order)
    std::map<std::string, int> byName; // every name of the universe: index in args or -1
    Strs additional;
    std::string bin, usage, version, desc, epilog;
    bool alt, strict, helpExc, verExc;
    std::vector<DestObs> dests;
    std::string error; // an accessor misbehaved
    Snapshot() : taken(false), alt(false), strict(false), helpExc(false), verExc(false) {}
};

struct Event { // calls made by the library into user code
    int op;    // index of the operation during which it happened
    char kind; // 'V' validator called, 'D' custom destination called, '~' validator destroyed
    int handle;
    int opIndex; // operation that attached it
    bool exists;
    std::vector<Strs> values;
    std::string seen; // RunOptions::look: what the parser shows to the code called
    Event() : op(-1), kind('V'), handle(-1), opIndex(-1), exists(false) {}
};

struct OpResult {
    bool done;        // false: skipped
    std::string cls;  // exception class, empty when none
    std::string arg;  // its argument
    std::string what; // its message
    bool exited;      // parse in a child: the library ended the process
    int status;       // exit status
    std::string phase; // reference model only: which stage of the parse failed
    std::string out;  // standard output of the child / text printed during the call
    bool argvChanged;
    std::string bases; // RunOptions::errors: classes it can be caught as
    std::string later; // RunOptions::errors: what its copy says when all the rest is gone
    Snapshot snap;
    OpResult() : done(false), exited(false), status(0), argvChanged(false) {}
};

struct Obs {
    std::vector<OpResult> ops;
    std::vector<Event> events;
    // validators: per attach operation, number of destructions when it was last seen (end of script)
    std::map<int, int> destroyedAtEnd; // after the parser is gone
    long allocations;                  // of the operation RunOptions::faultOp
    long peak;                         // bytes, of the same
    long blocks, bytes;                // RunOptions::footprint: held by the library when the script ends, the parser alive
    double parseSeconds, readSeconds;  // processor time of the same, and of reading everything after it
    std::string copies;                // RunOptions::keepCopies: what is wrong with the copies
    long copied;                       // copies read at the end
    long ownTexts;                     // calls that were given a text of the parser itself
    bool vague;                        // of the model: an outcome turned on a text that nothing says is a number or not
    bool vagueDests;                   // the same for what a destination received
    std::string harness;               // harness problem
    Obs() : copied(0), ownTexts(0), vague(false), vagueDests(false), allocations(0), peak(0), blocks(0), bytes(0), parseSeconds(0), readSeconds(0) {}
};

std::string dump(const Obs& o);
std::string dumpSnapshot(const Snapshot& s, bool withDests = true);
std::string dumpResult(const OpResult& r);
std::string dumpEvent(const Event& e);

// allocation faults: set by alloc.cpp where it is linked in
struct AllocHooks {
    void (*arm)(long at, bool all); // fail the at-th allocation of the library from now on (0: none), or all from it on
    long (*disarm)();               // number of allocations of the library since
    long (*peak)();                 // most bytes held at once by the library since, above what it held before
    void (*track)(bool on);         // from now on keep account of what the library holds
    long (*blocks)(), (*bytes)();   // held now of what was allocated since
};
extern AllocHooks allocHooks;
extern void (*stepHook)();         // called before every operation and between reads
// what the executor keeps about the current thread of execution
struct ExecutorContext {
    void* ctx;
    int inside;
};
ExecutorContext executorContext();
void setExecutorContext(const ExecutorContext& c);
extern __thread int insideLibrary; // > 0: allocations are the library's

struct RunOptions {
    bool snapEveryOp;   // snapshot after every operation
    bool noSnap;        // never snapshot
    bool snapLast;      // a snapshot after the last operation, even with noSnap
    bool noUsage;       // leave the usage text out of snapshots
    bool noFork;        // never run a parse in a child process
    int faultOp;        // operation (a parse) during which allocations fail, -1: none
    long faultAt;
    bool faultAll;
    bool errors;        // fill OpResult::bases and OpResult::later
    bool twice;         // every snapshot is taken twice and must not change
    bool copies;        // a copy of every argument must show the same
    bool look;          // user code called by the library reads the parser (Event::seen)
    bool keepCopies;    // copies of arguments and elements are kept to the end and read then
    bool footprint;     // Obs::blocks and Obs::bytes; readings keep nothing
    bool ownTexts;      // where the parser has the text that a call is given, it is given that
    int readers;        // threads that read the parser at every OP_OBSERVE
    Strs universe;      // names to look up in snapshots (besides those of the script)
    RunOptions() : snapEveryOp(false), noSnap(false), snapLast(false), noUsage(false), noFork(false), faultOp(-1), faultAt(0), faultAll(false), errors(false), twice(false), copies(false), look(false), keepCopies(false), footprint(false), ownTexts(false), readers(0) {}
};

// every name the script mentions, plus -h and --help, in order of appearance
Strs nameUniverse(const Script& s);

// executor on the real library (real.cpp)
void runReal(const Script& s, const RunOptions& opt, Obs& o);

#endif
