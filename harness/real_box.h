// Destination objects owned by the workload.  C++98.
#ifndef VERIF_REAL_BOX_H_
#define VERIF_REAL_BOX_H_

#include <cstring>
#include <sstream>

#include "real.h"

inline std::string boxText(bool v) { return numText(v); }
inline std::string boxText(char v) { return numText(v); }
inline std::string boxText(unsigned char v) { return numText(v); }
inline std::string boxText(short v) { return numText(v); }
inline std::string boxText(unsigned short v) { return numText(v); }
inline std::string boxText(int v) { return numText(v); }
inline std::string boxText(unsigned int v) { return numText(v); }
inline std::string boxText(long v) { return numText(v); }
inline std::string boxText(unsigned long v) { return numText(v); }
#if __cplusplus >= 201103L
inline std::string boxText(long long v) { return numText(v); }
inline std::string boxText(unsigned long long v) { return numText(v); }
#endif
inline std::string boxText(float v) { return numText(v); }
inline std::string boxText(double v) { return numText(v); }
inline std::string boxText(long double v) { return numText(v); }
inline std::string boxText(const std::string& v) { return '"' + escText(v) + '"'; }
inline std::string boxText(const char* v) { return '"' + escText(v) + '"'; }
inline std::string boxText(const User& v) {
    std::ostringstream o;
    o << "user#" << v.calls << '"' << escText(v.text) << '"';
    return o.str();
}

template<typename T>
struct Prior {
    static T value() { return T(); }
};
template<>
struct Prior<const char*> {
    static const char* value() { return "prior"; }
};
template<>
struct Prior<std::string> {
    static std::string value() { return "prior"; }
};

// the value scalars have before the parse
template<typename T>
struct Start {
    static T value() { return static_cast<T>(1); }
};
template<>
struct Start<const char*> {
    static const char* value() { return "start"; }
};
template<>
struct Start<std::string> {
    static std::string value() { return "start"; }
};
template<>
struct Start<User> {
    static User value() { return User(); }
};

#endif
