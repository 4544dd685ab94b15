// Private to the executor: context shared by its translation units.  C++98.
#ifndef VERIF_REAL_H_
#define VERIF_REAL_H_

#include "blet/args.h"
#include "script.h"

struct DestBox {
    virtual ~DestBox() {}
    virtual std::string text() const = 0;
    virtual blet::args::Argument& bind(blet::args::Argument& a) = 0;
    virtual const void* address() const = 0;
};

void throwUser(const std::string& kind, const std::string& text);

struct Ctx {
    Obs* obs;
    int op; // current operation
    bool closing;
    std::map<const void*, int> destOp; // destination address -> operation index
    std::map<int, int> destroyed;      // attach op -> destructions
    std::map<int, int> handleOfOp;
    std::map<int, int> throwing; // attach op -> kind, when the conversion throws
    std::map<int, bool> owned; // validators attached with ownership (reported destroyedAtEnd)
    void (*look)(void*, Event&); // RunOptions::look
    void* looker;
    Ctx() : obs(NULL), op(-1), closing(false), look(NULL), looker(NULL) {}
};

Ctx*& realCtx(); // one per thread

// code of the workload called back by the library
class Outside {
  public:
    Outside() : before_(insideLibrary) { insideLibrary = 0; }
    ~Outside() { insideLibrary = before_; }

  private:
    int before_;
};

// real_dest.cpp / real_dest2.cpp
DestBox* makeScalarBox(int base, bool custom, long prior);
DestBox* makeVectorBox(int base, bool custom, long prior);
DestBox* makeVectorVectorBox(int base, bool custom, long prior);

// real_vec.cpp
blet::args::Vector makeList(int style, const Strs& s);
int listStyles();
// which single header / list translation unit (checks that several units can include the library)
const char* secondUnit();

struct User {
    std::string text;
    int calls;
    User() : text("(unset)"), calls(0) {}
};
inline bool operator==(const User& a, const User& b) { return a.text == b.text; }
inline bool operator!=(const User& a, const User& b) { return !(a == b); }
inline bool operator<(const User& a, const User& b) { return a.text < b.text; }

std::string numText(long double v);

#endif
