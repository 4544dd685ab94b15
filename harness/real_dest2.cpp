#include "real_box.h"

#include <cstdio>

DestBox* makeCustomVectorBox(int base, long prior);
DestBox* makeCustomVectorVectorBox(int base, long prior);

namespace {

template<typename T>
struct VectorBox : public DestBox {
    std::vector<T> value;
    explicit VectorBox(long prior) : value(static_cast<std::size_t>(prior), Prior<T>::value()) {}
    std::string text() const {
        std::string r = "[";
        for (std::size_t i = 0; i < value.size(); ++i) {
            const T& e = value[i];
            r += (i ? ", " : "") + boxText(e);
        }
        return r + "]";
    }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value); }
    const void* address() const { return &value; }
};

template<>
std::string VectorBox<bool>::text() const {
    std::string r = "[";
    for (std::size_t i = 0; i < value.size(); ++i) {
        bool e = value[i];
        r += (i ? ", " : "") + boxText(e);
    }
    return r + "]";
}

template<typename T>
struct VectorVectorBox : public DestBox {
    std::vector<std::vector<T> > value;
    explicit VectorVectorBox(long prior) :
        value(static_cast<std::size_t>(prior), std::vector<T>(1, Prior<T>::value())) {}
    std::string text() const {
        std::string r = "[";
        for (std::size_t i = 0; i < value.size(); ++i) {
            r += i ? ", [" : "[";
            for (std::size_t j = 0; j < value[i].size(); ++j) {
                T e = value[i][j];
                r += (j ? ", " : "") + boxText(e);
            }
            r += "]";
        }
        return r + "]";
    }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value); }
    const void* address() const { return &value; }
};

template<template<typename> class B>
DestBox* make(int base, long prior) {
    switch (base) {
        case D_BOOL:
            return new B<bool>(prior);
        case D_CHAR:
            return new B<char>(prior);
        case D_UCHAR:
            return new B<unsigned char>(prior);
        case D_SHORT:
            return new B<short>(prior);
        case D_USHORT:
            return new B<unsigned short>(prior);
        case D_INT:
            return new B<int>(prior);
        case D_UINT:
            return new B<unsigned int>(prior);
        case D_LONG:
            return new B<long>(prior);
        case D_ULONG:
            return new B<unsigned long>(prior);
#if __cplusplus >= 201103L
        case D_LLONG:
            return new B<long long>(prior);
        case D_ULLONG:
            return new B<unsigned long long>(prior);
#else
        case D_LLONG:
            return new B<long>(prior);
        case D_ULLONG:
            return new B<unsigned long>(prior);
#endif
        case D_FLOAT:
            return new B<float>(prior);
        case D_DOUBLE:
            return new B<double>(prior);
        case D_LDOUBLE:
            return new B<long double>(prior);
        case D_CSTR:
            return new B<const char*>(prior);
        case D_USER: // no conversion to this type
            return new B<User>(prior);
        default:
            return new B<std::string>(prior);
    }
}

} // namespace

DestBox* makeVectorBox(int base, bool custom, long prior) {
    if (custom && customBase(base)) {
        return makeCustomVectorBox(base, prior);
    }
    return make<VectorBox>(base, prior);
}

DestBox* makeVectorVectorBox(int base, bool custom, long prior) {
    if (custom && customBase(base)) {
        return makeCustomVectorVectorBox(base, prior);
    }
    return make<VectorVectorBox>(base, prior);
}
