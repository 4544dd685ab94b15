#include "real_box.h"

#include <cstdio>

namespace {

void recordCustom(const void* dest, bool exists, const std::vector<Strs>& values) {
    Ctx* c = realCtx();
    if (c == NULL) {
        return;
    }
    Event e;
    e.op = c->op;
    e.kind = 'D';
    e.exists = exists;
    e.values = values;
    std::map<const void*, int>::const_iterator it = c->destOp.find(dest);
    e.opIndex = it == c->destOp.end() ? -1 : it->second;
    if (e.opIndex >= 0) {
        e.handle = c->handleOfOp[e.opIndex];
    }
    if (c->look != NULL) {
        c->look(c->looker, e);
    }
    c->obs->events.push_back(e);
    if (stepHook != NULL) {
        stepHook();
    }
    std::map<int, int>::const_iterator t = c->throwing.find(e.opIndex);
    if (t != c->throwing.end() && exists) {
        throwUser(kThrown[t->second], "conversion fails");
    }
}

// what the conversions of this workload make of a value
template<typename T>
struct Custom;
template<>
struct Custom<User> {
    static User from(const std::string& a) {
        User u;
        u.text = a;
        u.calls = 1;
        return u;
    }
};
template<>
struct Custom<std::string> {
    static std::string from(const std::string& a) { return "c:" + a; }
};
template<>
struct Custom<int> {
    static int from(const std::string& a) { return static_cast<int>(a.size()) + 1000; }
};

void assign(User& d, const std::string& a) {
    d.text = a;
    ++d.calls;
}
template<typename T>
void assign(T& d, const std::string& a) {
    d = Custom<T>::from(a);
}

template<typename T>
void customScalar(T& d, bool exists, const std::string& a) {
    Outside outside;
    std::vector<Strs> v(1, Strs(1, a));
    recordCustom(&d, exists, v);
    assign(d, a);
}

template<typename T>
void customVector(std::vector<T>& d, bool exists, const std::vector<std::string>& a) {
    Outside outside;
    std::vector<Strs> v(1, a);
    recordCustom(&d, exists, v);
    for (std::size_t i = 0; i < a.size(); ++i) {
        d.push_back(Custom<T>::from(a[i]));
    }
}

template<typename T>
void customVectorVector(std::vector<std::vector<T> >& d, bool exists, const std::vector<std::vector<std::string> >& a) {
    Outside outside;
    recordCustom(&d, exists, a);
    for (std::size_t i = 0; i < a.size(); ++i) {
        std::vector<T> r;
        for (std::size_t j = 0; j < a[i].size(); ++j) {
            r.push_back(Custom<T>::from(a[i][j]));
        }
        d.push_back(r);
    }
}

template<typename T>
struct ScalarBox : public DestBox {
    T value;
    ScalarBox() : value(Start<T>::value()) {}
    std::string text() const { return boxText(value); }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value); }
    const void* address() const { return &value; }
};

template<std::size_t N>
struct ArrayBox : public DestBox {
    struct {
        char before[8];
        char value[N];
        char after[8];
    } m;
    ArrayBox() {
        std::memset(&m, 'c', sizeof(m));
        m.value[0] = '\0';
    }
    std::string text() const {
        for (int i = 0; i < 8; ++i) {
            if (m.before[i] != 'c' || m.after[i] != 'c') {
                return "ARRAY OVERRUN";
            }
        }
        for (std::size_t i = 0; i < N; ++i) {
            if (m.value[i] == '\0') {
                return '"' + escText(m.value) + '"';
            }
        }
        return "ARRAY NOT TERMINATED";
    }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(m.value); }
    const void* address() const { return &m.value; }
};

struct UserBox : public DestBox {
    User value;
    bool custom;
    explicit UserBox(bool c) : custom(c) {}
    std::string text() const { return boxText(value); }
    blet::args::Argument& bind(blet::args::Argument& a) { return custom ? a.dest(value, &customScalar<User>) : a.dest(value); }
    const void* address() const { return &value; }
};

template<typename T>
struct CustomScalarBox : public DestBox {
    T value;
    CustomScalarBox() : value(Start<T>::value()) {}
    std::string text() const { return boxText(value); }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value, &customScalar<T>); }
    const void* address() const { return &value; }
};

template<typename T>
struct CustomVectorBox : public DestBox {
    std::vector<T> value;
    explicit CustomVectorBox(long prior) : value(static_cast<std::size_t>(prior), Prior<T>::value()) {}
    std::string text() const {
        std::string r = "[";
        for (std::size_t i = 0; i < value.size(); ++i) {
            r += (i ? ", " : "") + boxText(value[i]);
        }
        return r + "]";
    }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value, &customVector<T>); }
    const void* address() const { return &value; }
};

template<typename T>
struct CustomVectorVectorBox : public DestBox {
    std::vector<std::vector<T> > value;
    explicit CustomVectorVectorBox(long prior) : value(static_cast<std::size_t>(prior)) {}
    std::string text() const {
        std::string r = "[";
        for (std::size_t i = 0; i < value.size(); ++i) {
            r += i ? ", [" : "[";
            for (std::size_t j = 0; j < value[i].size(); ++j) {
                r += (j ? ", " : "") + boxText(value[i][j]);
            }
            r += "]";
        }
        return r + "]";
    }
    blet::args::Argument& bind(blet::args::Argument& a) { return a.dest(value, &customVectorVector<T>); }
    const void* address() const { return &value; }
};

} // namespace

std::string numText(long double v) {
    char b[80];
    std::sprintf(b, "%.21Lg", v);
    return b;
}

DestBox* makeCustomVectorBox(int base, long prior) {
    switch (base) {
        case D_STRING:
            return new CustomVectorBox<std::string>(prior);
        case D_INT:
            return new CustomVectorBox<int>(prior);
        default:
            return new CustomVectorBox<User>(prior);
    }
}
DestBox* makeCustomVectorVectorBox(int base, long prior) {
    switch (base) {
        case D_STRING:
            return new CustomVectorVectorBox<std::string>(prior);
        case D_INT:
            return new CustomVectorVectorBox<int>(prior);
        default:
            return new CustomVectorVectorBox<User>(prior);
    }
}

DestBox* makeScalarBox(int base, bool custom, long) {
    if (custom && base == D_STRING) {
        return new CustomScalarBox<std::string>();
    }
    if (custom && base == D_INT) {
        return new CustomScalarBox<int>();
    }
    switch (base) {
        case D_BOOL:
            return new ScalarBox<bool>();
        case D_CHAR:
            return new ScalarBox<char>();
        case D_UCHAR:
            return new ScalarBox<unsigned char>();
        case D_SHORT:
            return new ScalarBox<short>();
        case D_USHORT:
            return new ScalarBox<unsigned short>();
        case D_INT:
            return new ScalarBox<int>();
        case D_UINT:
            return new ScalarBox<unsigned int>();
        case D_LONG:
            return new ScalarBox<long>();
        case D_ULONG:
            return new ScalarBox<unsigned long>();
#if __cplusplus >= 201103L
        case D_LLONG:
            return new ScalarBox<long long>();
        case D_ULLONG:
            return new ScalarBox<unsigned long long>();
#else
        case D_LLONG:
            return new ScalarBox<long>();
        case D_ULLONG:
            return new ScalarBox<unsigned long>();
#endif
        case D_FLOAT:
            return new ScalarBox<float>();
        case D_DOUBLE:
            return new ScalarBox<double>();
        case D_LDOUBLE:
            return new ScalarBox<long double>();
        case D_STRING:
            return new ScalarBox<std::string>();
        case D_CSTR:
            return new ScalarBox<const char*>();
        case D_ARR1:
            return new ArrayBox<1>();
        case D_ARR4:
            return new ArrayBox<4>();
        case D_ARR5:
            return new ArrayBox<5>();
        case D_ARR6:
            return new ArrayBox<6>();
        case D_ARR8:
            return new ArrayBox<8>();
        case D_ARR64:
            return new ArrayBox<64>();
        default:
            return new UserBox(custom);
    }
}
