// Allocation functions that fail on demand, during calls of the library only.
#include <malloc.h>

#include <cstdlib>
#include <new>

#include "script.h"

namespace {

bool g_armed = false, g_all = false;
long g_at = 0, g_count = 0, g_live = 0, g_peak = 0;

void arm(long at, bool all) {
    g_at = at;
    g_all = all;
    g_count = g_live = g_peak = 0;
    g_armed = true;
}

long disarm() {
    g_armed = false;
    return g_count;
}

long peak() { return g_peak; }

// blocks allocated by the library and not yet freed, by whomever
const std::size_t kSlots = 1 << 18;
struct Slot {
    void* p;
    std::size_t size; // asked for: what malloc gives depends on what was freed before
};
Slot* g_slots = nullptr;
bool g_tracking = false;
long g_blocks = 0, g_bytes = 0;
void* const kGone = reinterpret_cast<void*>(1);

std::size_t slotOf(void* p) { return (reinterpret_cast<std::size_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 46; }

void track(bool on) {
    if (!g_slots) {
        g_slots = static_cast<Slot*>(std::malloc(kSlots * sizeof(Slot)));
    }
    for (std::size_t i = 0; on && i < kSlots; ++i) {
        g_slots[i].p = nullptr;
    }
    g_tracking = on;
    if (on) {
        g_blocks = g_bytes = 0;
    }
}

void remember(void* p, std::size_t size) {
    for (std::size_t i = slotOf(p), n = 0; n < kSlots; i = (i + 1) % kSlots, ++n) {
        if (!g_slots[i].p || g_slots[i].p == kGone) {
            g_slots[i].p = p;
            g_slots[i].size = size;
            ++g_blocks;
            g_bytes += static_cast<long>(size);
            return;
        }
    }
}

void forget(void* p) {
    for (std::size_t i = slotOf(p), n = 0; n < kSlots && g_slots[i].p; i = (i + 1) % kSlots, ++n) {
        if (g_slots[i].p == p) {
            g_slots[i].p = g_slots[(i + 1) % kSlots].p ? kGone : nullptr;
            --g_blocks;
            g_bytes -= static_cast<long>(g_slots[i].size);
            return;
        }
    }
}

long blocks() { return g_blocks; }
long bytes() { return g_bytes; }

void* counted(void* p, std::size_t size) {
    if (g_tracking && insideLibrary && p) {
        remember(p, size);
    }
    if (g_armed && insideLibrary && p) {
        g_live += static_cast<long>(malloc_usable_size(p));
        g_peak = g_live > g_peak ? g_live : g_peak;
    }
    return p;
}

void release(void* p) {
    if (g_tracking && p) {
        forget(p);
    }
    if (g_armed && insideLibrary && p) {
        g_live -= static_cast<long>(malloc_usable_size(p));
    }
    std::free(p);
}

struct Register {
    Register() {
        allocHooks.arm = &arm;
        allocHooks.disarm = &disarm;
        allocHooks.peak = &peak;
        allocHooks.track = &track;
        allocHooks.blocks = &blocks;
        allocHooks.bytes = &bytes;
    }
} g_register;

bool fails() {
    if (!g_armed || !insideLibrary) {
        return false;
    }
    ++g_count;
    return g_at > 0 && (g_all ? g_count >= g_at : g_count == g_at);
}

void* get(std::size_t n) {
    if (fails()) {
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    return counted(p, n);
}

} // namespace

void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : counted(std::malloc(n ? n : 1), n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : counted(std::malloc(n ? n : 1), n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
