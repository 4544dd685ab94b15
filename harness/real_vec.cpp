#include "real.h"

#include <cstring>

using blet::args::Vector;

namespace {

// buffers that disappear after the call: nothing may be kept
struct Bufs {
    std::vector<char*> p;
    explicit Bufs(const Strs& s) {
        Outside o;
        for (std::size_t i = 0; i < s.size(); ++i) {
            char* b = new char[s[i].size() + 1];
            std::memcpy(b, s[i].c_str(), s[i].size() + 1);
            p.push_back(b);
        }
    }
    ~Bufs() {
        for (std::size_t i = 0; i < p.size(); ++i) {
            std::memset(p[i], 'Z', std::strlen(p[i]));
            delete[] p[i];
        }
    }
};

template<std::size_t N>
Vector arr(Bufs& b) {
    const char* a[N];
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = b.p[i];
    }
    return Vector(a);
}

template<std::size_t N>
struct CArr {
    const char* a[N];
};

template<std::size_t N>
Vector carr(Bufs& b) {
    CArr<N> c;
    for (std::size_t i = 0; i < N; ++i) {
        c.a[i] = b.p[i];
    }
    const CArr<N>& r = c;
    return Vector(r.a);
}

template<std::size_t N>
Vector sarr(const Strs& s) {
    std::string a[N];
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = s[i];
    }
    const std::string(&r)[N] = a;
    return Vector(r);
}

// of every size up to 25
template<std::size_t N>
struct Sizes {
    static bool make(int what, const Strs& s, Bufs& b, Vector& out) {
        if (s.size() == N) {
            out = what == 0 ? arr<N>(b) : what == 1 ? carr<N>(b) : sarr<N>(s);
            return true;
        }
        return Sizes<N - 1>::make(what, s, b, out);
    }
};
template<>
struct Sizes<0> {
    static bool make(int, const Strs&, Bufs&, Vector&) { return false; }
};

Vector generic(const Strs& s) {
    Vector v(static_cast<int>(s.size()));
    for (std::size_t i = 0; i < s.size(); ++i) {
        v[i] = s[i];
    }
    return v;
}

Vector helper(Bufs& b) {
    typedef blet::Args A;
    std::vector<char*>& p = b.p;
    switch (p.size()) {
        case 0:
            return A::vector();
        case 1:
            return A::vector(p[0]);
        case 2:
            return A::vector(p[0], p[1]);
        case 3:
            return A::vector(p[0], p[1], p[2]);
        case 4:
            return A::vector(p[0], p[1], p[2], p[3]);
        case 5:
            return A::vector(p[0], p[1], p[2], p[3], p[4]);
        case 6:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5]);
        case 7:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
        case 8:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
        case 9:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]);
        case 10:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]);
        case 11:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10]);
        case 12:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]);
        case 13:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12]);
        case 14:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13]);
        case 15:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14]);
        case 16:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14], p[15]);
        case 17:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14], p[15], p[16]);
        case 18:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14], p[15], p[16], p[17]);
        case 19:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14], p[15], p[16], p[17], p[18]);
        case 20:
            return A::vector(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                             p[14], p[15], p[16], p[17], p[18], p[19]);
        default:
            break;
    }
    Vector v;
    for (std::size_t i = 0; i < p.size(); ++i) {
        v.push_back(p[i]);
    }
    return v;
}

} // namespace

int listStyles() {
    return 10;
}

const char* secondUnit() {
    // uses the library from a second translation unit
    static blet::Args other;
    return other.isStrict() ? "strict" : "";
}

Vector makeList(int style, const Strs& s) {
    Bufs b(s);
    Vector sized;
    switch (style) {
        case 0:
            return helper(b);
        case 1: // array of const char*
            if (Sizes<25>::make(0, s, b, sized)) {
                return sized;
            }
            break;
        case 2: // initializer list
#if __cplusplus >= 201103L
            switch (s.size()) {
                case 0:
                    return Vector(std::initializer_list<std::string>());
                case 1:
                    return Vector({std::string(b.p[0])});
                case 2:
                    return Vector({b.p[0], b.p[1]});
                case 3:
                    return Vector({b.p[0], b.p[1], b.p[2]});
                case 4:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3]});
                case 5:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4]});
                case 6:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5]});
                case 7:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6]});
                case 9:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8]});
                case 10:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9]});
                case 11:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10]});
                case 12:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11]});
                case 13:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12]});
                case 14:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13]});
                case 15:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13], b.p[14]});
                case 16:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13], b.p[14], b.p[15]});
                case 17:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13], b.p[14], b.p[15], b.p[16]});
                case 20:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13], b.p[14], b.p[15], b.p[16], b.p[17], b.p[18], b.p[19]});
                case 25:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7], b.p[8], b.p[9], b.p[10], b.p[11], b.p[12], b.p[13], b.p[14], b.p[15], b.p[16], b.p[17], b.p[18], b.p[19], b.p[20], b.p[21], b.p[22], b.p[23], b.p[24]});
                case 8:
                    return Vector({b.p[0], b.p[1], b.p[2], b.p[3], b.p[4], b.p[5], b.p[6], b.p[7]});
                default:
                    break;
            }
#endif
            break;
        case 3: // concatenation of std::string
            if (!s.empty()) {
                Vector v(s[0]);
                for (std::size_t i = 1; i < s.size(); ++i) {
                    v + s[i];
                }
                return v;
            }
            break;
        case 4: // char array
            if (s.size() == 1 && s[0].size() < 96) {
                char buf[96];
                std::memset(buf, 0, sizeof(buf));
                std::memcpy(buf, s[0].c_str(), s[0].size());
                const char(&r)[96] = buf;
                return Vector(r);
            }
            break;
        case 5: // array of std::string
            if (Sizes<25>::make(2, s, b, sized)) {
                return sized;
            }
            break;
        case 6: // const array of const char*
            if (Sizes<25>::make(1, s, b, sized)) {
                return sized;
            }
            break;
        case 7: // concatenation of const char*
            if (!s.empty()) {
                const char* first = b.p[0];
                Vector v(first);
                for (std::size_t i = 1; i < s.size(); ++i) {
                    const char* next = b.p[i];
                    v + next;
                }
                return v;
            }
            break;
        case 8: // concatenation of char arrays, from the empty list
            {
                Vector v;
                std::size_t i;
                for (i = 0; i < s.size() && s[i].size() < 96; ++i) {
                    char buf[96];
                    std::memset(buf, 0, sizeof(buf));
                    std::memcpy(buf, s[i].c_str(), s[i].size());
                    const char(&r)[96] = buf;
                    v + r;
                }
                if (i == s.size()) {
                    return v;
                }
            }
            break;
        default:
            break;
    }
    return generic(s);
}
