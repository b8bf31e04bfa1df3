// How much heap memory is in use, at most, while it is watched (builds with AddressSanitizer; elsewhere 0)
#pragma once
#include <cstddef>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MEMORY_WATCH 1
#endif
#endif
#ifdef MEMORY_WATCH
#include <sanitizer/allocator_interface.h>
#endif

namespace memory_watch {
struct State {
    bool on = false;
    long long now = 0, peak = 0;
};
inline State state;
#ifdef MEMORY_WATCH
inline void on_malloc(const volatile void *, std::size_t n) {
    if (!state.on) return;
    state.now += (long long)n;
    if (state.now > state.peak) state.peak = state.now;
}
inline void on_free(const volatile void *p) {
    if (!state.on || !p) return;
    state.now -= (long long)__sanitizer_get_allocated_size(p);
}
inline const bool installed = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
#endif
struct Watch {
    Watch() { state = {true, 0, 0}; }
    ~Watch() { state.on = false; }
    long long in_use() const { return state.now; }
    long long stop() {
        state.on = false;
        return state.peak;
    }
};
// What is done again and again keeps its share of memory each time: how much, or 0. Memory kept once, or sometimes, as
// for a cache, is none.
template <class F>
long long lost(F f) {
    f();
    f();
    long long each = 0;
    for (int i = 0; i < 4; ++i) {
        Watch w;
        f();
        auto more = w.in_use();
        if (more <= 0 || (i && more != each)) return 0;
        each = more;
    }
    return each;
}
}  // namespace memory_watch
