// Executor: runs a history on the real library and records everything
// observable.  C++98, so that it can be built in every language standard.
#include "real.h"

#include <pthread.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ios>
#include <new>
#include <sstream>
#include <stdexcept>
#include <typeinfo>

using blet::args::Argument;
using blet::args::ArgumentElement;

Ctx*& realCtx() {
    static __thread Ctx* ctx = NULL;
    return ctx;
}

AllocHooks allocHooks = {NULL, NULL};
void (*stepHook)() = NULL;
__thread int insideLibrary = 0;

ExecutorContext executorContext() {
    ExecutorContext c;
    c.ctx = realCtx();
    c.inside = insideLibrary;
    return c;
}

void setExecutorContext(const ExecutorContext& c) {
    realCtx() = static_cast<Ctx*>(c.ctx);
    insideLibrary = c.inside;
}

namespace {
struct Other { // not a standard exception
    std::string text;
};
struct UserError : std::runtime_error { // of the user, derived from a standard one
    explicit UserError(const std::string& t) : std::runtime_error(t), kept(t) {}
    ~UserError() throw() {}
    std::string kept;
};
} // namespace

void throwUser(const std::string& kind, const std::string& text) {
    const char* t = text.c_str();
    if (kind == "int") {
        throw 42;
    }
    if (kind == "alloc") {
        throw std::bad_alloc();
    }
    if (kind == "logic") {
        throw std::logic_error(text);
    }
    if (kind == "help") {
        throw blet::Args::HelpException(t);
    }
    if (kind == "version") {
        throw blet::Args::VersionException(t);
    }
    if (kind == "argument") {
        throw blet::Args::ArgumentException("user", t);
    }
    if (kind == "required") {
        throw blet::Args::ParseArgumentRequiredException("user", t);
    }
    if (kind == "parse") {
        throw blet::Args::ParseArgumentException("user", t);
    }
    if (kind == "access") {
        throw blet::Args::AccessDeniedException("user", t);
    }
    if (kind == "range") {
        throw std::out_of_range(text);
    }
    if (kind == "range_error") {
        throw std::range_error(text);
    }
    if (kind == "overflow") {
        throw std::overflow_error(text);
    }
    if (kind == "underflow") {
        throw std::underflow_error(text);
    }
    if (kind == "invalid") {
        throw std::invalid_argument(text);
    }
    if (kind == "length") {
        throw std::length_error(text);
    }
    if (kind == "domain") {
        throw std::domain_error(text);
    }
    if (kind == "cast") {
        throw std::bad_cast();
    }
    if (kind == "failure") {
        throw std::ios_base::failure(text);
    }
    if (kind == "valid_base") {
        throw UserError(text);
    }
    if (kind == "pointer") {
        throw "a text";
    }
    if (kind == "text") {
        throw text;
    }
    if (kind == "other") {
        Other o;
        o.text = text;
        throw o;
    }
    throw std::runtime_error(text);
}

namespace {

// ------------------------------------------------------------- validators
struct Note {
    int opIndex;
    int handle;
};

void noteCall(const Note& n, const std::vector<std::string>& values) {
    Outside o;
    Ctx* c = realCtx();
    if (c == NULL) {
        return;
    }
    Event e;
    e.op = c->op;
    e.kind = 'V';
    e.handle = n.handle;
    e.opIndex = n.opIndex;
    e.values.push_back(values);
    if (c->look != NULL) {
        c->look(c->looker, e);
    }
    c->obs->events.push_back(e);
    if (stepHook != NULL) {
        stepHook();
    }
}

void noteDestroy(const Note& n) {
    Outside o;
    Ctx* c = realCtx();
    if (c == NULL || c->closing) {
        return;
    }
    ++c->destroyed[n.opIndex];
    Event e;
    e.op = c->op;
    e.kind = '~';
    e.handle = n.handle;
    e.opIndex = n.opIndex;
    c->obs->events.push_back(e);
}

class RecValid : public blet::Args::IValid {
  public:
    RecValid(const Note& n, long kind, const std::string& text, const std::string& mode) : note_(n), kind_(kind), text_(text), mode_(mode) {}
    ~RecValid() { noteDestroy(note_); }
    bool isValid(std::vector<std::string>& args) {
        noteCall(note_, args);
        Outside o;
        switch (kind_) {
            case V_FALSE:
                if (!mode_.empty()) {
                    transformValues(text_, mode_, args);
                }
                return false;
            case V_THROW:
                if (!mode_.empty()) {
                    transformValues(text_, mode_, args);
                }
                throw blet::Args::ParseArgumentValidException(text_.c_str());
            case V_FOREIGN:
                throwUser(mode_, text_);
                return true;
            case V_TRANSFORM:
                transformValues(text_, mode_, args);
                return true;
            default:
                return true;
        }
    }

  private:
    Note note_;
    long kind_;
    std::string text_, mode_;
};

class RecNumber : public blet::Args::ValidNumber {
  public:
    explicit RecNumber(const Note& n) : note_(n) {}
    ~RecNumber() { noteDestroy(note_); }
    bool isValid(std::vector<std::string>& a) {
        noteCall(note_, a);
        return blet::Args::ValidNumber::isValid(a);
    }

  private:
    Note note_;
};

class RecMinMax : public blet::Args::ValidMinMax {
  public:
    RecMinMax(const Note& n, double a, double b) : blet::Args::ValidMinMax(a, b), note_(n) {}
    ~RecMinMax() { noteDestroy(note_); }
    bool isValid(std::vector<std::string>& a) {
        noteCall(note_, a);
        return blet::Args::ValidMinMax::isValid(a);
    }

  private:
    Note note_;
};

class RecChoice : public blet::Args::ValidChoise {
  public:
    RecChoice(const Note& n, const std::vector<std::string>& v) : blet::Args::ValidChoise(v), note_(n) {}
    ~RecChoice() { noteDestroy(note_); }
    bool isValid(std::vector<std::string>& a) {
        noteCall(note_, a);
        return blet::Args::ValidChoise::isValid(a);
    }

  private:
    Note note_;
};

class RecPath : public blet::Args::ValidPath {
  public:
    explicit RecPath(const Note& n) : note_(n) {}
    RecPath(const Note& n, enum blet::Args::ValidPath::eMode m) : blet::Args::ValidPath(m), note_(n) {}
    ~RecPath() { noteDestroy(note_); }
    bool isValid(std::vector<std::string>& a) {
        noteCall(note_, a);
        return blet::Args::ValidPath::isValid(a);
    }

  private:
    Note note_;
};

blet::Args::IValid* makeValid(const Op& op, const Note& n) {
    switch (op.n) {
        case V_NULL:
            return NULL;
        case V_NUMBER:
            return new RecNumber(n);
        case V_MINMAX:
            return new RecMinMax(n, std::strtod(op.s[0].c_str(), NULL), std::strtod(op.s[1].c_str(), NULL));
        case V_CHOICE:
            return new RecChoice(n, makeList(op.v.size() > 1 ? static_cast<int>(op.v[1]) : 0, op.s));
        case V_PATH:
            switch (op.v.size() > 1 ? op.v[1] : 3) {
                case 0:
                    return new RecPath(n, blet::Args::ValidPath::ALL);
                case 1:
                    return new RecPath(n, blet::Args::ValidPath::IS_FILE);
                case 2:
                    return new RecPath(n, blet::Args::ValidPath::IS_DIR);
                default:
                    return new RecPath(n);
            }
        default:
            return new RecValid(n, op.n, op.s.empty() ? std::string() : op.s[0], op.s.size() > 1 ? op.s[1] : std::string());
    }
}

// a text in a buffer of its exact size that disappears after the call
class Tmp {
  public:
    explicit Tmp(const std::string& s) : size_(s.size()), p_(static_cast<char*>(std::malloc(s.size() + 1))) {
        std::memcpy(p_, s.c_str(), s.size() + 1);
    }
    ~Tmp() {
        std::memset(p_, 'Z', size_);
        std::free(p_);
    }
    const char* c() const { return p_; }
    std::size_t size() const { return size_; }

  private:
    std::size_t size_;
    char* p_;
    Tmp(const Tmp&);
    Tmp& operator=(const Tmp&);
};

// ------------------------------------------------------------- snapshots
template<typename T>
std::string streamed(const T& t) {
    std::ostringstream o;
    o << t;
    return o.str();
}

void observeElem(const ArgumentElement& e, Elem& out, int depth) {
    out.def = e.getDefault();
    out.str = e.getString();
    out.stream = streamed(e);
    out.isNum = e.isNumber();
    try {
        double d = e.getNumber();
        out.num = d;
    }
    catch (const blet::Args::Exception& x) {
        out.numThrew = true;
    }
    try {
        out.vec = e.operator std::vector<std::string>();
        out.vecOk = true;
    }
    catch (const blet::Args::Exception& x) {
        out.vecErr = x.what();
    }
    if (depth < 3) {
        for (std::size_t i = 0; i < e.size(); ++i) {
            Elem s;
            observeElem(e[i], s, depth + 1);
            out.sub.push_back(s);
        }
    }
}

template<typename T>
void sameConversion(const Argument& a, bool isNumber, double n, ArgObs& o) {
    try {
        const T v = a.operator T();
        if (!isNumber || v != static_cast<T>(n)) {
            o.convNumOk = !o.convNumOk; // does not agree with the others
        }
    }
    catch (const blet::Args::Exception& x) {
        if (isNumber) {
            o.convNumOk = false;
        }
    }
}

void observeArg(const Argument& a, ArgObs& o) {
    o.names = a.getNameOrFlags();
    o.exists = a.isExists();
    o.required = a.isRequired();
    o.truth = a.operator bool();
    o.count = a.count();
    o.nargs = a.getNargs();
    o.action = static_cast<int>(a.getAction());
    o.help = a.getHelp();
    o.metavar = a.getMetavar();
    o.def = a.getDefault();
    o.defaults = a.getDefaults();
    o.str = a.getString();
    o.stream = streamed(a);
    o.conv = a.operator std::string();
    try {
        o.vec = a.operator std::vector<std::string>();
        o.vecOk = true;
    }
    catch (const blet::Args::Exception& x) {
        o.vecErr = x.what();
    }
    try {
        o.vv = a.operator std::vector<std::vector<std::string> >();
        o.vvOk = true;
    }
    catch (const blet::Args::Exception& x) {
        o.vvErr = x.what();
    }
    o.isNum = a.isNumber();
    try {
        o.num = a.getNumber();
    }
    catch (const blet::Args::Exception& x) {
        o.numThrew = true;
        o.numErr = x.what();
    }
    try {
        o.convNum = a.operator double();
        o.convNumOk = true;
    }
    catch (const blet::Args::Exception& x) {
    }
    // the other numeric conversions
    const bool fits = o.convNumOk && o.convNum > -1e9 && o.convNum < 1e9;
    if (fits || !o.convNumOk) {
        const double n = fits ? o.convNum : 0;
        sameConversion<int>(a, fits, n, o);
        sameConversion<long>(a, fits, n, o);
        sameConversion<float>(a, fits, n, o);
        sameConversion<long double>(a, fits, n, o);
        if (n > -30000 && n < 30000) {
            sameConversion<short>(a, fits, n, o);
        }
        if (n >= 0) {
            sameConversion<unsigned int>(a, fits, n, o);
            sameConversion<unsigned long>(a, fits, n, o);
        }
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        Elem e;
        observeElem(a[i], e, 0);
        o.el.push_back(e);
    }
    try {
        (void)a[a.size()];
        o.pastEndRefused = false;
    }
    catch (const std::out_of_range&) {
    }
    catch (const std::exception&) {
        // refused in another way
    }
}

class Runner {
  public:
    Runner(const Script& s, const RunOptions& opt, Obs& o) : s_(s), opt_(opt), o_(o), args_(NULL), generation_(0) {}

    void run() {
        ctx_.obs = &o_;
        if (opt_.look) {
            ctx_.look = &Runner::look;
            ctx_.looker = this;
        }
        realCtx() = &ctx_;
        universe_ = nameUniverse(s_);
        for (std::size_t i = 0; i < opt_.universe.size(); ++i) {
            universe_.push_back(opt_.universe[i]);
        }
        o_.ops.resize(s_.ops.size());
        if (opt_.footprint) {
            allocHooks.track(true);
        }
        {
            Lib lib(*this);
            args_ = new blet::Args();
        }
        for (std::size_t i = 0; i < s_.ops.size(); ++i) {
            ctx_.op = static_cast<int>(i);
            if (stepHook != NULL) {
                stepHook();
            }
            doOp(s_.ops[i], o_.ops[i]);
            if (opt_.snapLast && i + 1 == s_.ops.size()) {
                snapshot(o_.ops[i].snap);
            }
            else if (!opt_.noSnap && (opt_.snapEveryOp || static_cast<int>(i) == opt_.faultOp || s_.ops[i].k == OP_PARSE || s_.ops[i].k == OP_OBSERVE)) {
                const double begin = processorSeconds();
                snapshot(o_.ops[i].snap);
                if (static_cast<int>(i) == opt_.faultOp) {
                    o_.readSeconds = processorSeconds() - begin;
                }
            }
            if (opt_.footprint && s_.ops[i].k == OP_OBSERVE) {
                readAndForget();
            }
            if (opt_.keepCopies && (s_.ops[i].k == OP_PARSE || s_.ops[i].k == OP_OBSERVE)) {
                keepCopies();
            }
            if (opt_.readers > 0 && s_.ops[i].k == OP_OBSERVE) {
                readTogether(o_.ops[i].snap.error);
            }
        }
        if (opt_.footprint) {
            o_.blocks = allocHooks.blocks();
            o_.bytes = allocHooks.bytes();
            allocHooks.track(false);
        }
        ctx_.op = static_cast<int>(s_.ops.size());
        delete args_;
        args_ = NULL;
        o_.destroyedAtEnd = ctx_.destroyed;
        for (std::size_t i = 0; i < validOps_.size(); ++i) {
            o_.destroyedAtEnd[validOps_[i]] += 0;
        }
        ctx_.closing = true;
        for (std::size_t i = 0; i < lent_.size(); ++i) {
            delete lent_[i];
        }
        for (std::size_t i = 0; i < boxes_.size(); ++i) {
            delete boxes_[i].box;
        }
        readKept();
        readCopies();
        realCtx() = NULL;
    }

  private:
    struct Box {
        int opIndex;
        int handle;
        DestBox* box;
        bool cstr, scalar;
        int parses;    // parses tried since it was bound
        bool lastGood; // the last one succeeded
        bool gone;     // its argument is gone or has another destination
    };

    // around calls of the library that are no parses: allocations of RunOptions::faultOp fail
    class Lib {
      public:
        explicit Lib(Runner& r) :
            r_(r), on_(r.opt_.faultOp == r.ctx_.op && allocHooks.arm != NULL) {
            if (r_.opt_.footprint) {
                insideLibrary = 1;
            }
            if (on_) {
                allocHooks.arm(r_.opt_.faultAt, r_.opt_.faultAll);
                insideLibrary = 1;
            }
        }
        ~Lib() {
            if (r_.opt_.footprint) {
                insideLibrary = 0;
            }
            if (on_) {
                insideLibrary = 0;
                r_.o_.allocations = allocHooks.disarm();
            }
        }

      private:
        Runner& r_;
        const bool on_;
        Lib(const Lib&);
        Lib& operator=(const Lib&);
    };
    friend class Lib;

    // forget the references to arguments that are gone
    void refresh() {
        std::map<const Argument*, int> live;
        if (args_ != NULL) {
            for (std::size_t i = 0; i < universe_.size(); ++i) {
                if (args_->argumentExists(universe_[i])) {
                    live[&args_->getArgument(universe_[i])] = 1;
                }
            }
        }
        for (std::map<int, Argument*>::iterator r = ref_.begin(); r != ref_.end(); ++r) {
            if (r->second != NULL && live.find(r->second) == live.end()) {
                r->second = NULL;
                for (std::size_t i = 0; i < boxes_.size(); ++i) {
                    if (boxes_[i].handle == r->first) {
                        boxes_[i].gone = true;
                    }
                }
            }
        }
    }

    // an exception kept when everything it may have come from is gone
    struct Kept {
        int op;
        blet::Args::Exception* e;          // one of the two
        blet::Args::ArgumentException* a;
        std::string words;
    };

    template<typename E>
    static E* copied(const E& e) {
        E* c = new E(e);
        E* d = new E(*c);
        *d = *c;
        delete c;
        return d;
    }

    template<typename E>
    void keep(const E& e) {
        if (opt_.errors) {
            Kept k;
            k.op = ctx_.op;
            k.a = NULL;
            k.e = copied(e);
            kept_.push_back(k);
        }
    }

    template<typename E>
    void keepArgument(const E& e) {
        if (opt_.errors) {
            Kept k;
            k.op = ctx_.op;
            k.e = NULL;
            k.a = copied(e);
            kept_.push_back(k);
        }
    }

    template<typename E>
    static void caughtAs(const char* name, std::string& r) {
        try {
            throw;
        }
        catch (const E& e) {
            r += name;
        }
        catch (...) {
        }
    }

    void readKept() {
        for (std::size_t i = 0; i < kept_.size(); ++i) {
            std::string& t = o_.ops[static_cast<std::size_t>(kept_[i].op)].later;
            if (kept_[i].a != NULL) {
                t = std::string(kept_[i].a->argument()) + '|' + kept_[i].a->what();
                delete kept_[i].a;
            }
            else {
                t = std::string("|") + kept_[i].e->what();
                delete kept_[i].e;
            }
        }
    }

    // what user code called during a parse is shown by the parser that calls it
    static void look(void* self, Event& e) {
        Runner& r = *static_cast<Runner*>(self);
        if (r.args_ == NULL) {
            return;
        }
        const blet::Args& c = *r.args_;
        std::string& t = e.seen;
        try {
            for (std::size_t i = 0; i < r.universe_.size(); ++i) {
                const std::string& n = r.universe_[i];
                if (!c.argumentExists(n)) {
                    t += "-;";
                    continue;
                }
                const Argument& a = c[n];
                std::ostringstream o;
                o << (a.isExists() ? "x" : "") << a.count() << '/';
                std::map<int, Argument*>::const_iterator own = r.ref_.find(e.handle);
                if (e.kind == 'V' && own != r.ref_.end() && own->second == &a) {
                    o << "being checked";
                }
                else {
                    o << a.size() << '"' << escText(a.getString()) << '"';
                }
                t += o.str() + ';';
                (void)a.isNumber();
                (void)a.getDefault();
                Argument copy(a);
                (void)copy.count();
            }
            t += " +[" + joinEsc(c.getAdditionalArguments()) + "] " + c.getBinaryName() + (c.isAlternative() ? "A" : "") + (c.isStrict() ? "S" : "");
            std::ostringstream o;
            o << c.getUsage().size();
            t += ' ' + o.str();
        }
        catch (const std::exception& x) {
            t += std::string(" an accessor threw ") + x.what();
        }
    }

    // copies of arguments and of their elements
    struct CopyKept {
        int op;
        Argument* arg;
        ArgObs argSays;
        std::vector<ArgumentElement>* elements;
        std::vector<Elem> elementsSay;
    };

    static std::string sayArg(const ArgObs& a) {
        Snapshot s;
        s.taken = true;
        s.args.push_back(a);
        return dumpSnapshot(s);
    }

    static std::string sayElements(const std::vector<Elem>& v) {
        ArgObs a;
        a.el = v;
        return sayArg(a);
    }

    // every reading, keeping nothing
    void readAndForget() {
        Lib lib(*this);
        const blet::Args& c = *args_;
        try {
            (void)c.getUsage().size();
            (void)c.getVersion().size();
            (void)c.getAdditionalArguments().size();
            for (std::size_t i = 0; i < universe_.size(); ++i) {
                if (!c.argumentExists(universe_[i])) {
                    try {
                        (void)c[universe_[i]];
                    }
                    catch (const blet::Args::AccessDeniedException&) {
                    }
                    continue;
                }
                const Argument& a = c[universe_[i]];
                (void)a.getString();
                (void)a.isNumber();
                std::ostringstream o;
                o << a << a.getDefaults().size() << a.getNameOrFlags().size();
                try {
                    (void)a.operator std::vector<std::string>();
                    (void)a.operator std::vector<std::vector<std::string> >();
                }
                catch (const blet::Args::Exception&) {
                }
                for (std::size_t j = 0; j < a.size(); ++j) {
                    o << a[j] << a[j].isNumber();
                }
                Argument copy(a);
                std::vector<ArgumentElement> elements(a);
                (void)copy.count();
            }
        }
        catch (const std::exception& x) {
            o_.harness = std::string("an accessor threw ") + x.what();
        }
    }

    void keepCopies() {
        std::map<const Argument*, int> met;
        const blet::Args& c = *args_;
        for (std::size_t i = 0; i < universe_.size() && copies_.size() < 80; ++i) {
            if (!c.argumentExists(universe_[i])) {
                continue;
            }
            const Argument& a = c[universe_[i]];
            if (met[&a]++ > 0) {
                continue;
            }
            CopyKept k;
            k.op = ctx_.op;
            observeArg(a, k.argSays);
            Argument* between = new Argument(a);
            k.arg = new Argument(*between);
            delete between;
            k.elements = new std::vector<ArgumentElement>(a.begin(), a.end());
            std::vector<ArgumentElement>& v = *k.elements;
            k.elementsSay = k.argSays.el;
            std::vector<Elem>& s = k.elementsSay;
            // what is usual with elements of a vector
            unsigned long x = static_cast<unsigned long>(ctx_.op) * 7919 + i * 104729 + copies_.size();
            for (int n = 0; n < 4 && !v.empty(); ++n, x = x * 1103515245 + 12345) {
                const std::size_t p = (x >> 8) % v.size(), q = (x >> 16) % v.size();
                // and between elements of different arguments and lines
                CopyKept* other = copies_.empty() ? NULL : &copies_[(x >> 24) % copies_.size()];
                const bool has = other != NULL && !other->elements->empty();
                const std::size_t w = has ? (x >> 12) % other->elements->size() : 0;
                switch ((x >> 4) % 8) {
                    case 5:
                        if (has) {
                            v[p] = (*other->elements)[w];
                            s[p] = Elem(other->elementsSay[w]);
                        }
                        break;
                    case 6:
                        if (has) {
                            (*other->elements)[w] = v[p];
                            other->elementsSay[w] = Elem(s[p]);
                        }
                        break;
                    case 7:
                        if (has) {
                            std::swap((*other->elements)[w], v[p]);
                            std::swap(other->elementsSay[w], s[p]);
                        }
                        break;
                    case 0:
                        v[p] = v[q];
                        s[p] = Elem(s[q]);
                        break;
                    case 1:
                        std::swap(v[p], v[q]);
                        std::swap(s[p], s[q]);
                        break;
                    case 2:
                        v.erase(v.begin() + static_cast<long>(p));
                        s.erase(s.begin() + static_cast<long>(p));
                        break;
                    case 3: {
                        ArgumentElement e(v[q]);
                        v.insert(v.begin() + static_cast<long>(p), e);
                        Elem f(s[q]);
                        s.insert(s.begin() + static_cast<long>(p), f);
                        break;
                    }
                    default:
                        std::reverse(v.begin(), v.end());
                        std::reverse(s.begin(), s.end());
                        break;
                }
            }
            copies_.push_back(k);
        }
    }

    void readCopies() {
        for (std::size_t i = 0; i < copies_.size(); ++i) {
            CopyKept& k = copies_[i];
            ArgObs now;
            std::vector<Elem> elements;
            try {
                observeArg(*k.arg, now);
                for (std::size_t j = 0; j < k.elements->size(); ++j) {
                    Elem e;
                    observeElem((*k.elements)[j], e, 0);
                    elements.push_back(e);
                }
            }
            catch (const std::exception& x) {
                o_.copies += std::string("an accessor of a copy threw ") + x.what() + '\n';
            }
            std::ostringstream at;
            at << "a copy made after operation " << k.op;
            if (sayArg(now) != sayArg(k.argSays)) {
                o_.copies += at.str() + " says at the end\n" + sayArg(now) + "when it was made\n" + sayArg(k.argSays);
            }
            if (sayElements(elements) != sayElements(k.elementsSay)) {
                o_.copies += at.str() + " of the elements says at the end\n" + sayElements(elements) + "and should say\n" + sayElements(k.elementsSay);
            }
            o_.copied += 1 + static_cast<long>(elements.size());
            delete k.arg;
            delete k.elements;
        }
        copies_.clear();
    }

    void classify(OpResult& r) {
        // called from a catch block
        if (opt_.errors) {
            caughtAs<std::exception>("std::exception ", r.bases);
            caughtAs<blet::Args::Exception>("Exception ", r.bases);
            caughtAs<blet::Args::ArgumentException>("ArgumentException ", r.bases);
            caughtAs<blet::Args::ParseArgumentException>("ParseArgumentException ", r.bases);
            caughtAs<blet::Args::HelpException>("HelpException ", r.bases);
            caughtAs<blet::Args::VersionException>("VersionException ", r.bases);
            caughtAs<blet::Args::AccessDeniedException>("AccessDeniedException ", r.bases);
            caughtAs<blet::Args::ParseArgumentRequiredException>("ParseArgumentRequiredException ", r.bases);
            caughtAs<blet::Args::ParseArgumentValidException>("ParseArgumentValidException ", r.bases);
        }
        try {
            throw;
        }
        catch (const blet::Args::HelpException& e) {
            r.cls = "HelpException";
            r.what = e.what();
            keep(e);
        }
        catch (const blet::Args::VersionException& e) {
            r.cls = "VersionException";
            r.what = e.what();
            keep(e);
        }
        catch (const blet::Args::ParseArgumentRequiredException& e) {
            r.cls = "ParseArgumentRequiredException";
            r.arg = e.argument();
            r.what = e.what();
            keepArgument(e);
        }
        catch (const blet::Args::ParseArgumentValidException& e) {
            r.cls = "ParseArgumentValidException";
            r.arg = e.argument();
            r.what = e.what();
            keepArgument(e);
        }
        catch (const blet::Args::ParseArgumentException& e) {
            r.cls = "ParseArgumentException";
            r.arg = e.argument();
            r.what = e.what();
            keepArgument(e);
        }
        catch (const blet::Args::AccessDeniedException& e) {
            r.cls = "AccessDeniedException";
            r.arg = e.argument();
            r.what = e.what();
            keepArgument(e);
        }
        catch (const blet::Args::ArgumentException& e) {
            r.cls = "ArgumentException";
            r.arg = e.argument();
            r.what = e.what();
            keepArgument(e);
        }
        catch (const blet::Args::Exception& e) {
            r.cls = "Exception";
            r.what = e.what();
            keep(e);
        }
        catch (const std::bad_alloc& e) {
            r.cls = "std::bad_alloc";
        }
        catch (const std::out_of_range& e) {
            r.cls = "std::out_of_range";
        }
        catch (const UserError& e) {
            r.cls = "UserError";
            r.what = e.kept == e.what() ? e.what() : "other texts";
        }
        catch (const std::runtime_error& e) {
            r.cls = typeid(e) == typeid(std::runtime_error) ? "std::runtime_error"
                  : typeid(e) == typeid(std::range_error) ? "std::range_error"
                  : typeid(e) == typeid(std::overflow_error) ? "std::overflow_error"
                  : typeid(e) == typeid(std::underflow_error) ? "std::underflow_error"
                  : dynamic_cast<const std::ios_base::failure*>(&e) ? "std::ios_base::failure" : "derived from std::runtime_error";
            r.what = r.cls == "std::ios_base::failure" ? "" : e.what();
        }
        catch (const std::logic_error& e) {
            r.cls = typeid(e) == typeid(std::logic_error) ? "std::logic_error"
                  : typeid(e) == typeid(std::invalid_argument) ? "std::invalid_argument"
                  : typeid(e) == typeid(std::length_error) ? "std::length_error"
                  : typeid(e) == typeid(std::domain_error) ? "std::domain_error" : "derived from std::logic_error";
            r.what = e.what();
        }
        catch (const std::bad_cast& e) {
            r.cls = "std::bad_cast";
        }
        catch (const char* e) {
            r.cls = "const char*";
            r.what = e;
        }
        catch (const std::string& e) {
            r.cls = "std::string";
            r.what = e;
        }
        catch (const std::exception& e) {
            r.cls = "std::exception";
        }
        catch (int e) {
            r.cls = "int";
            r.what = e == 42 ? "42" : "not 42";
        }
        catch (const Other& e) {
            r.cls = "Other";
            r.what = e.text;
        }
        catch (...) {
            r.cls = "unknown exception";
        }
    }

    Argument* reach(const Op& op) {
        std::map<int, Argument*>::iterator it = ref_.find(op.h);
        if (it == ref_.end() || it->second == NULL) {
            return NULL;
        }
        if (!op.via.empty()) {
            return &args_->updateArgument(op.via);
        }
        return it->second;
    }

    void doOp(const Op& op, OpResult& r) {
        r.done = true;
        try {
            perform(op, r);
        }
        catch (...) {
            classify(r);
        }
    }

    void perform(const Op& op, OpResult& r) {
        switch (op.k) {
            case OP_ADD: {
                Argument*& ref = ref_[op.h];
                ref = NULL;
                attached_.erase(op.h);
                Lib lib(*this);
                ref = &args_->addArgument(makeList(static_cast<int>(op.n), op.s));
                break;
            }
            case OP_FLAG:
            case OP_ACTION:
            case OP_NARGS:
            case OP_REQUIRED:
            case OP_METAVAR:
            case OP_HELP:
            case OP_DEFAULTS:
            case OP_VALID:
            case OP_DEST:
            case OP_COPY: {
                Argument* a = reach(op);
                if (a == NULL) {
                    r.done = false;
                    return;
                }
                build(*a, op);
                break;
            }
            case OP_REMOVE: {
                {
                    Lib lib(*this);
                    args_->removeArguments(makeList(static_cast<int>(op.n), op.s));
                }
                refresh();
                break;
            }
            case OP_CLEAR: {
                Lib lib(*this);
                args_->clear();
            }
                refresh();
                break;
            case OP_ALT:
                args_->setAlternative(op.n != 0);
                break;
            case OP_STRICT:
                args_->setStrict(op.n != 0);
                break;
            case OP_HELPEXC:
                args_->setHelpException(op.n != 0);
                break;
            case OP_VEREXC:
                args_->setVersionException(op.n != 0);
                break;
            case OP_SETVERSION: {
                Lib lib(*this);
                args_->setVersion(Given(*this, op.s[0]).s());
                break;
            }
            case OP_SETBIN: {
                Lib lib(*this);
                args_->setBinaryName(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_DESC: {
                Lib lib(*this);
                args_->setDescription(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_EPILOG: {
                Lib lib(*this);
                args_->setEpilog(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_USAGE: {
                Lib lib(*this);
                args_->setUsage(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_WIDTH:
                args_->setUsageWidth(op.v[0], op.v[1], op.v[2], op.v[3]);
                break;
            case OP_PARSE:
                parse(op, r);
                break;
            case OP_GET: {
                Lib lib(*this);
                if (op.n == 0) {
                    const blet::Args& c = *args_;
                    (void)c.getArgument(Given(*this, op.s[0]).s());
                }
                else if (op.n == 1) {
                    const blet::Args& c = *args_;
                    (void)c[Given(*this, op.s[0]).s()];
                }
                else {
                    (void)args_->updateArgument(Given(*this, op.s[0]).s());
                }
                break;
            }
            case OP_RENEW:
                delete args_;
                args_ = NULL;
                refresh();
                args_ = new blet::Args();
                break;
            default:
                break;
        }
    }

    // a text of the parser itself that reads like t (tails: or ends with it), NULL: there is none
    const std::string* own(const std::string& t, std::size_t which, bool tails) const {
        std::vector<const std::string*> found;
        const blet::Args& c = *args_;
        gather(c.getVersion(), t, tails, found);
        gather(c.getBinaryName(), t, tails, found);
        for (std::size_t i = 0; i < c.getAdditionalArguments().size(); ++i) {
            gather(c.getAdditionalArguments()[i], t, tails, found);
        }
        for (std::size_t i = 0; i < universe_.size(); ++i) {
            if (!c.argumentExists(universe_[i])) {
                continue;
            }
            const Argument& a = c[universe_[i]];
            gather(a.getHelp(), t, tails, found);
            gather(a.getMetavar(), t, tails, found);
            gather(a.getDefault(), t, tails, found);
            gather(static_cast<const ArgumentElement&>(a).getString(), t, tails, found);
            for (std::size_t j = 0; j < a.getNameOrFlags().size(); ++j) {
                gather(a.getNameOrFlags()[j], t, tails, found);
            }
            for (std::size_t j = 0; j < a.getDefaults().size(); ++j) {
                gather(a.getDefaults()[j], t, tails, found);
            }
            for (std::size_t j = 0; j < a.size(); ++j) {
                gather(a[j].getString(), t, tails, found);
            }
        }
        return found.empty() ? NULL : found[which % found.size()];
    }

    static void gather(const std::string& mine, const std::string& t, bool tails, std::vector<const std::string*>& found) {
        if (mine == t || (tails && !t.empty() && mine.size() > t.size() && mine.compare(mine.size() - t.size(), t.size(), t) == 0)) {
            found.push_back(&mine);
        }
    }

    // an input text: a copy that is gone after the call, or one of the parser's own
    class Given {
      public:
        Given(Runner& r, const std::string& t, bool tails = false) : tmp_(t), text_(NULL) {
            if (r.opt_.ownTexts && r.args_ != NULL) {
                const int inside = insideLibrary;
                insideLibrary = 0;
                text_ = r.own(t, static_cast<std::size_t>(r.ctx_.op) * 7919, tails);
                insideLibrary = inside;
                r.o_.ownTexts += text_ != NULL;
            }
        }
        const char* c() const { return text_ != NULL ? text_->c_str() + (text_->size() - tmp_.size()) : tmp_.c(); }
        const std::string& s() {
            if (text_ != NULL) {
                return *text_;
            }
            copy_ = tmp_.c();
            return copy_;
        }

      private:
        Tmp tmp_;
        const std::string* text_;
        std::string copy_;
    };

    void build(Argument& a, const Op& op) {
        Argument* res = &a;
        if (op.k == OP_ACTION || op.k == OP_NARGS || op.k == OP_DEFAULTS) {
            // texts delivered before are not promised beyond this
            for (std::size_t i = 0; i < boxes_.size(); ++i) {
                if (boxes_[i].handle == op.h) {
                    boxes_[i].lastGood = false;
                }
            }
        }
        switch (op.k) {
            case OP_FLAG: {
                Lib lib(*this);
                res = &a.flag(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_ACTION: {
                Lib lib(*this);
                res = &a.action(static_cast<blet::Args::eAction>(op.n));
                break;
            }
            case OP_NARGS: {
                Lib lib(*this);
                res = &a.nargs(static_cast<std::size_t>(op.n));
                break;
            }
            case OP_REQUIRED: {
                Lib lib(*this);
                res = &a.required(op.n != 0);
                break;
            }
            case OP_METAVAR: {
                Lib lib(*this);
                res = &a.metavar(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_HELP: {
                Lib lib(*this);
                res = &a.help(Given(*this, op.s[0], true).c());
                break;
            }
            case OP_DEFAULTS: {
                Lib lib(*this);
                res = &a.defaults(makeList(static_cast<int>(op.n), op.s));
                break;
            }
            case OP_VALID: {
                Note n;
                n.opIndex = ctx_.op;
                n.handle = op.h;
                bool owned = op.v.empty() || op.v[0] != 0;
                blet::Args::IValid* v = NULL;
                if (op.n == V_SAME) {
                    std::map<int, Attached>::iterator it = attached_.find(op.h);
                    if (it != attached_.end() && ctx_.destroyed[it->second.opIndex] == 0) {
                        v = it->second.valid;
                        n.opIndex = it->second.opIndex;
                    }
                    std::vector<blet::Args::IValid*>::iterator l = std::find(lent_.begin(), lent_.end(), v);
                    if (owned && l != lent_.end()) {
                        lent_.erase(l);
                    }
                    else if (!owned && v != NULL && l == lent_.end()) {
                        lent_.push_back(v);
                        lentOps_[v] = n.opIndex;
                    }
                }
                else if (op.n == V_SHARE) {
                    owned = false;
                    if (!lent_.empty()) {
                        v = lent_.back();
                        n.opIndex = lentOps_[v];
                    }
                }
                else {
                    v = makeValid(op, n);
                    if (v != NULL) {
                        validOps_.push_back(ctx_.op);
                        if (!owned) {
                            lent_.push_back(v);
                            lentOps_[v] = n.opIndex;
                        }
                    }
                }
                Attached& at = attached_[op.h];
                at.valid = v;
                at.opIndex = n.opIndex;
                if (v == NULL) {
                    attached_.erase(op.h);
                }
                if (owned && (op.v.empty() || op.n == V_NULL)) {
                    res = &a.valid(v);
                }
                else {
                    res = &a.valid(v, owned);
                }
                break;
            }
            case OP_DEST: {
                DestBox* box;
                bool custom = op.v.size() > 1 && op.v[1] != 0;
                long prior = op.v.size() > 2 ? op.v[2] : 0;
                switch (op.v.empty() ? 0 : op.v[0]) {
                    case 0:
                        box = makeScalarBox(static_cast<int>(op.n), custom, prior);
                        break;
                    case 1:
                        box = makeVectorBox(static_cast<int>(op.n), custom, prior);
                        break;
                    default:
                        box = makeVectorVectorBox(static_cast<int>(op.n), custom, prior);
                        break;
                }
                Box b;
                b.opIndex = ctx_.op;
                b.handle = op.h;
                b.box = box;
                b.cstr = op.n == D_CSTR;
                b.scalar = op.v.empty() || op.v[0] == 0;
                b.parses = 0;
                b.lastGood = false;
                b.gone = false;
                std::vector<bool> gone;
                for (std::size_t i = 0; i < boxes_.size(); ++i) {
                    gone.push_back(boxes_[i].gone);
                    if (boxes_[i].handle == op.h) {
                        boxes_[i].gone = true;
                    }
                }
                boxes_.push_back(b);
                ctx_.destOp[box->address()] = ctx_.op;
                ctx_.handleOfOp[ctx_.op] = op.h;
                if (op.v.size() > 3 && op.v[3] > 0) {
                    ctx_.throwing[ctx_.op] = static_cast<int>(op.v[3]) - 1;
                }
                ref_[op.h] = NULL; // the old object may be gone if this throws
                try {
                    Lib lib(*this);
                    res = &box->bind(a);
                }
                catch (const std::bad_alloc&) {
                    if (opt_.faultOp == ctx_.op) { // as if it had not been called
                        ref_[op.h] = &a;
                        boxes_.pop_back();
                        for (std::size_t i = 0; i < boxes_.size(); ++i) {
                            boxes_[i].gone = gone[i];
                        }
                        ctx_.destOp.erase(box->address());
                        ctx_.throwing.erase(ctx_.op);
                        delete box;
                    }
                    throw;
                }
                break;
            }
            case OP_COPY: {
                const Argument& src = a;
                Argument copy(src);
                (void)copy.getString();
                (void)copy.count();
                std::vector<ArgumentElement> elements(src);
                break;
            }
            default:
                break;
        }
        ref_[op.h] = res;
    }

    void parse(const Op& op, OpResult& r) {
        std::size_t n = op.s.size();
        int argc = static_cast<int>(n);
        if (!op.v.empty()) {
            argc = static_cast<int>(op.v[0]);
        }
        // v[1]: the array ends at the given count, without a null pointer
        const bool bare = op.v.size() > 1 && op.v[1] != 0;
        if (bare) {
            n = static_cast<std::size_t>(argc);
        }
        char** argv = static_cast<char**>(std::malloc((n + (bare ? 0 : 1)) * sizeof(char*)));
        std::vector<char*> kept;
        for (std::size_t i = 0; i < n; ++i) {
            argv[i] = static_cast<char*>(std::malloc(op.s[i].size() + 1));
            std::memcpy(argv[i], op.s[i].c_str(), op.s[i].size() + 1);
            kept.push_back(argv[i]);
        }
        if (!bare) {
            argv[n] = NULL;
        }
        if (op.n == 1 && !opt_.noFork) {
            parseInChild(argc, argv, r);
        }
        else {
            const bool faults = opt_.faultOp == ctx_.op && allocHooks.arm != NULL;
            if (faults) {
                allocHooks.arm(opt_.faultAt, opt_.faultAll);
            }
            const double begin = processorSeconds();
            insideLibrary = 1;
            try {
                args_->parseArguments(argc, argv);
                insideLibrary = 0;
            }
            catch (...) {
                insideLibrary = 0;
                classify(r);
            }
            if (faults) {
                o_.parseSeconds = processorSeconds() - begin;
                o_.allocations = allocHooks.disarm();
                o_.peak = allocHooks.peak();
            }
        }
        for (std::size_t i = 0; i < boxes_.size() && !r.exited; ++i) {
            ++boxes_[i].parses;
            boxes_[i].lastGood = r.cls.empty();
        }
        for (std::size_t i = 0; i < n; ++i) {
            if (argv[i] != kept[i] || op.s[i] != kept[i]) {
                r.argvChanged = true;
            }
            std::memset(kept[i], 'Z', op.s[i].size());
            std::free(kept[i]);
        }
        if (!bare && argv[n] != NULL) {
            r.argvChanged = true;
        }
        std::free(argv);
    }

    static double processorSeconds() {
        struct timespec t;
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
        return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
    }

    void parseInChild(int argc, char** argv, OpResult& r) {
        int out[2], res[2];
        if (pipe(out) != 0 || pipe(res) != 0) {
            o_.harness = "pipe failed";
            return;
        }
        pid_t pid = fork();
        if (pid < 0) {
            o_.harness = "fork failed";
            return;
        }
        if (pid == 0) {
            close(out[0]);
            close(res[0]);
            dup2(out[1], 1);
            close(out[1]);
            ctx_.closing = true;
            OpResult cr;
            try {
                args_->parseArguments(argc, argv);
                cr.cls = "";
            }
            catch (...) {
                classify(cr);
            }
            std::string m = "R" + cr.cls + '\n' + escText(cr.arg) + '\n' + escText(cr.what) + '\n';
            if (write(res[1], m.c_str(), m.size()) < 0) {
                _exit(98);
            }
            _exit(99);
        }
        close(out[1]);
        close(res[1]);
        r.out = readAll(out[0]);
        std::string m = readAll(res[0]);
        close(out[0]);
        close(res[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!m.empty() && m[0] == 'R') {
            std::istringstream in(m.substr(1));
            std::string l;
            std::getline(in, r.cls);
            std::getline(in, l);
            unescText(l, r.arg);
            std::getline(in, l);
            unescText(l, r.what);
            if (r.cls.empty()) {
                r.cls = "returned in child";
            }
        }
        else if (WIFEXITED(st)) {
            r.exited = true;
            r.status = WEXITSTATUS(st);
        }
        else {
            r.exited = true;
            r.status = 1000 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        }
    }

    static std::string readAll(int fd) {
        std::string r;
        char b[4096];
        for (;;) {
            ssize_t n = ::read(fd, b, sizeof(b));
            if (n <= 0) {
                break;
            }
            r.append(b, static_cast<std::size_t>(n));
        }
        return r;
    }

    // through the read-only accessors only
    static void read(const blet::Args& c, const Strs& universe, bool usage, std::map<const Argument*, int>& index, Snapshot& sn) {
        for (std::size_t i = 0; i < universe.size(); ++i) {
            const std::string& name = universe[i];
            if (stepHook != NULL) {
                stepHook();
            }
            bool exists = c.argumentExists(name);
            const Argument* p = NULL;
            try {
                p = &c.getArgument(name);
                if (&c[name] != p) {
                    sn.error += "lookups of " + escText(name) + " disagree; ";
                }
            }
            catch (const blet::Args::AccessDeniedException&) {
            }
            if (exists != (p != NULL)) {
                sn.error += "existence of " + escText(name) + " disagrees with lookup; ";
            }
            if (p == NULL) {
                sn.byName[name] = -1;
                continue;
            }
            std::map<const Argument*, int>::iterator it = index.find(p);
            if (it != index.end()) {
                sn.byName[name] = it->second;
                continue;
            }
            int id = static_cast<int>(sn.args.size());
            index[p] = id;
            sn.byName[name] = id;
            sn.args.push_back(ArgObs());
            observeArg(*p, sn.args.back());
        }
        sn.additional = c.getAdditionalArguments();
        sn.bin = c.getBinaryName();
        sn.version = c.getVersion();
        sn.desc = c.getDescription();
        sn.epilog = c.getEpilog();
        sn.alt = c.isAlternative();
        sn.strict = c.isStrict();
        sn.helpExc = c.isHelpException();
        sn.verExc = c.isVersionException();
        if (usage) {
            sn.usage = c.getUsage();
        }
    }

    struct Reader {
        const blet::Args* args;
        const Strs* universe;
        std::string first; // what the first reading gave
        std::string error;
    };

    static void* reader(void* p) {
        Reader& r = *static_cast<Reader*>(p);
        try {
            for (int round = 0; round < 3; ++round) {
                Snapshot sn;
                std::map<const Argument*, int> index;
                sn.taken = true;
                read(*r.args, *r.universe, true, index, sn);
                std::string d = dumpSnapshot(sn) + sn.error;
                if (round == 0) {
                    r.first = d;
                }
                else if (d != r.first) {
                    r.error = "two readings by one thread differ:\n" + r.first + "and\n" + d;
                }
                for (std::map<const Argument*, int>::iterator it = index.begin(); it != index.end(); ++it) {
                    Argument copy(*it->first);
                    std::vector<ArgumentElement> elements(*it->first);
                }
            }
        }
        catch (const std::exception& e) {
            r.error = std::string("a reader got: ") + e.what();
        }
        return NULL;
    }

    void readTogether(std::string& error) {
        Snapshot sn;
        std::map<const Argument*, int> index;
        sn.taken = true;
        read(*args_, universe_, true, index, sn);
        const std::string alone = dumpSnapshot(sn) + sn.error;
        std::vector<Reader> readers(static_cast<std::size_t>(opt_.readers));
        std::vector<pthread_t> threads(readers.size());
        for (std::size_t i = 0; i < readers.size(); ++i) {
            readers[i].args = args_;
            readers[i].universe = &universe_;
            pthread_create(&threads[i], NULL, &Runner::reader, &readers[i]);
        }
        for (std::size_t i = 0; i < readers.size(); ++i) {
            pthread_join(threads[i], NULL);
            if (!readers[i].error.empty()) {
                error += readers[i].error;
            }
            else if (readers[i].first != alone) {
                error += "read by another thread:\n" + readers[i].first + "read alone:\n" + alone;
            }
        }
    }

    static void copiesAgree(const std::map<const Argument*, int>& index, Snapshot& sn) {
        for (std::map<const Argument*, int>::const_iterator it = index.begin(); it != index.end(); ++it) {
            const Argument copy(*it->first);
            const std::vector<ArgumentElement> elements(it->first->begin(), it->first->end());
            Snapshot one, other;
            one.taken = other.taken = true;
            one.args.push_back(sn.args[static_cast<std::size_t>(it->second)]);
            other.args.resize(1);
            observeArg(copy, other.args[0]);
            other.args[0].handle = one.args[0].handle;
            if (dumpSnapshot(one) != dumpSnapshot(other)) {
                sn.error += "a copy of an argument differs from it:\n" + dumpSnapshot(other) + dumpSnapshot(one);
            }
            for (std::size_t i = 0; i < elements.size(); ++i) {
                if (elements[i].getString() != (*it->first)[i].getString() || elements[i].isNumber() != (*it->first)[i].isNumber() ||
                    elements[i].size() != (*it->first)[i].size() || elements[i].getDefault() != (*it->first)[i].getDefault()) {
                    sn.error += "a copy of an element differs from it; ";
                }
            }
        }
    }

    // where everything is that a reference or an iterator may have been taken to
    static void place(const std::string& t, std::vector<const void*>& p) {
        p.push_back(&t);
        p.push_back(t.data());
    }

    static void places(const std::vector<ArgumentElement>& v, std::vector<const void*>& p) {
        for (std::size_t i = 0; i < v.size(); ++i) {
            p.push_back(&v[i]);
            place(v[i].getString(), p);
            place(v[i].getDefault(), p);
            places(v[i], p);
        }
    }

    static void places(const blet::Args& c, const Strs& universe, std::vector<const void*>& p) {
        for (std::size_t i = 0; i < universe.size(); ++i) {
            if (!c.argumentExists(universe[i])) {
                continue;
            }
            const Argument& a = c[universe[i]];
            p.push_back(&a);
            place(a.getHelp(), p);
            place(a.getMetavar(), p);
            place(a.getDefault(), p);
            place(static_cast<const ArgumentElement&>(a).getString(), p);
            for (std::size_t j = 0; j < a.getNameOrFlags().size(); ++j) {
                place(a.getNameOrFlags()[j], p);
            }
            for (std::size_t j = 0; j < a.getDefaults().size(); ++j) {
                place(a.getDefaults()[j], p);
            }
            places(a, p);
        }
        place(c.getVersion(), p);
        place(c.getBinaryName(), p);
        for (std::size_t j = 0; j < c.getAdditionalArguments().size(); ++j) {
            place(c.getAdditionalArguments()[j], p);
        }
    }

    // writing to a stream is writing the text, whatever the settings of the stream are
    template<typename T>
    static bool writesText(const T& a, const std::string& text, unsigned n) {
        static const std::ios_base::fmtflags f[] = {std::ios_base::fmtflags(), std::ios_base::hex | std::ios_base::showbase, std::ios_base::boolalpha | std::ios_base::left,
            std::ios_base::internal | std::ios_base::showpos, std::ios_base::right | std::ios_base::uppercase, std::ios_base::scientific};
        std::ostringstream o, q;
        o.flags(f[n % 6]);
        q.flags(f[n % 6]);
        const int width = n % 4 == 0 ? 0 : static_cast<int>(n % 23), precision = static_cast<int>(n % 9);
        o.width(width);
        q.width(width);
        o.precision(precision);
        q.precision(precision);
        o.fill(n % 2 ? '*' : ' ');
        q.fill(n % 2 ? '*' : ' ');
        o << a << true << 2.5 << 17;
        q << text << true << 2.5 << 17;
        return o.str() == q.str() && o.flags() == q.flags() && o.width() == q.width() && o.precision() == q.precision() && o.fill() == q.fill() && o.rdstate() == q.rdstate();
    }

    static std::string streams(const blet::Args& c, const Strs& universe, unsigned n) {
        for (std::size_t i = 0; i < universe.size(); ++i) {
            if (!c.argumentExists(universe[i])) {
                continue;
            }
            const Argument& a = c[universe[i]];
            if (!writesText(a, a.getString(), ++n)) {
                return "writing " + universe[i] + " to a stream differs from writing its text; ";
            }
            for (std::size_t j = 0; j < a.size(); ++j) {
                if (!writesText(a[j], a[j].getString(), ++n)) {
                    return "writing an element of " + universe[i] + " to a stream differs from writing its text; ";
                }
            }
        }
        return "";
    }

    void snapshot(Snapshot& sn) {
        sn.taken = true;
        if (args_ == NULL) {
            sn.error = "no parser";
            return;
        }
        std::map<const Argument*, int> index;
        std::vector<const void*> before, after;
        try {
            if (opt_.twice) {
                places(*args_, universe_, before);
            }
            read(*args_, universe_, !opt_.noUsage, index, sn);
            if (opt_.copies) {
                copiesAgree(index, sn);
            }
            if (opt_.twice) {
                Snapshot again;
                std::map<const Argument*, int> other;
                again.taken = true;
                read(*args_, universe_, !opt_.noUsage, other, again);
                if (dumpSnapshot(sn, false) != dumpSnapshot(again, false)) {
                    sn.error += "a second reading differs:\n" + dumpSnapshot(again, false) + "the first:\n" + dumpSnapshot(sn, false);
                }
                sn.error += streams(*args_, universe_, static_cast<unsigned>(ctx_.op) * 7);
                places(*args_, universe_, after);
                if (before != after) {
                    sn.error += "something read is not where it was before the reading; ";
                }
            }
            for (std::map<std::string, int>::const_iterator it = sn.byName.begin(); it != sn.byName.end(); ++it) {
                if (it->second >= 0 && index[&args_->updateArgument(it->first)] != it->second) {
                    sn.error += "lookups of " + escText(it->first) + " disagree; ";
                }
                if (it->second < 0) { // not known, also not after asking for it
                    bool refused = false;
                    try {
                        args_->updateArgument(it->first);
                    }
                    catch (const blet::Args::AccessDeniedException& e) {
                        refused = true;
                    }
                    if (!refused || args_->argumentExists(it->first)) {
                        sn.error += "lookups of unknown " + escText(it->first) + " disagree; ";
                    }
                }
            }
            for (std::map<int, Argument*>::iterator r = ref_.begin(); r != ref_.end(); ++r) {
                std::map<const Argument*, int>::const_iterator it = index.find(r->second);
                if (it != index.end()) {
                    sn.args[static_cast<std::size_t>(it->second)].handle = r->first;
                }
            }
        }
        catch (const std::exception& e) {
            sn.error += std::string("accessor threw: ") + e.what() + "; ";
        }
        for (std::size_t i = 0; i < boxes_.size(); ++i) {
            DestObs d;
            d.handle = boxes_[i].handle;
            d.opIndex = boxes_[i].opIndex;
            const Box& b = boxes_[i];
            if (b.cstr && (b.gone || (b.parses > 0 && !b.lastGood) || (!b.scalar && b.parses > 1))) {
                d.text = "(not readable)"; // by contract the texts pointed to are gone
            }
            else {
                d.text = b.box->text();
            }
            sn.dests.push_back(d);
        }
    }

    const Script& s_;
    const RunOptions& opt_;
    Obs& o_;
    blet::Args* args_;
    int generation_;
    Ctx ctx_;
    Strs universe_;
    std::map<int, Argument*> ref_;
    std::vector<Box> boxes_;
    std::vector<Kept> kept_;
    std::vector<CopyKept> copies_;
    std::vector<int> validOps_;
    struct Attached {
        blet::Args::IValid* valid;
        int opIndex;
    };
    std::map<int, Attached> attached_;
    std::map<blet::Args::IValid*, int> lentOps_;
    std::vector<blet::Args::IValid*> lent_;
};

} // namespace

void runReal(const Script& s, const RunOptions& opt, Obs& o) {
    Runner r(s, opt, o);
    r.run();
}
