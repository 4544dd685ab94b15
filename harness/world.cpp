// What a library could ask the process or the system about: answered otherwise on demand.
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>

#include "mon.h"

namespace {
bool g_other = false;
long g_asked = 0;

void other(bool on) { g_other = on; }
long asked() { return g_asked; }

struct Init {
    Init() {
        worldHooks.other = &other;
        worldHooks.asked = &asked;
    }
} g_init;

char* fromEnviron(const char* name) {
    const std::size_t n = std::strlen(name);
    for (char** e = environ; e && *e; ++e) {
        if (std::strncmp(*e, name, n) == 0 && (*e)[n] == '=') {
            return *e + n + 1;
        }
    }
    return nullptr;
}
} // namespace

extern "C" {

char* getenv(const char* name) {
    ++g_asked;
    static char answer[] = "30";
    return g_other ? answer : fromEnviron(name);
}

char* secure_getenv(const char* name) {
    return getenv(name);
}

int isatty(int) {
    ++g_asked;
    if (!g_other) {
        errno = ENOTTY;
        return 0;
    }
    return 1;
}

int ioctl(int fd, unsigned long request, ...) {
    va_list l;
    va_start(l, request);
    void* p = va_arg(l, void*);
    va_end(l);
    if (request == TIOCGWINSZ) {
        ++g_asked;
        if (!g_other) {
            errno = ENOTTY;
            return -1;
        }
        struct winsize w;
        std::memset(&w, 0, sizeof w);
        w.ws_col = 30;
        w.ws_row = 10;
        std::memcpy(p, &w, sizeof w);
        return 0;
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, request, p));
}

time_t time(time_t* t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    const time_t v = g_other ? s.tv_sec + 400000000 : s.tv_sec;
    if (t) {
        *t = v;
    }
    return v;
}

uid_t getuid() {
    const uid_t u = static_cast<uid_t>(syscall(SYS_getuid));
    return g_other ? u + 1000 : u;
}

uid_t geteuid() {
    const uid_t u = static_cast<uid_t>(syscall(SYS_geteuid));
    return g_other ? u + 1000 : u;
}
}
