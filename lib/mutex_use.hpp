// Detects mutexes used outside of their contract, which is undefined and silent on Linux: unlocking a mutex that is not
// locked or is locked by another thread, and locking one that the same thread already holds. Linked with
//   -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// Include in the file with the harness only.
#pragma once
#include <pthread.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>

namespace mutex_use {
[[noreturn]] inline void misuse(const char* what) {
    std::fprintf(stderr, "MUTEX MISUSE: %s\n", what);
    std::fflush(stderr);
    std::abort();
}
inline bool plain(const pthread_mutex_t* m) { return (m->__data.__kind & 0x7f) == 0; }
// Called when the mutex is held by another callback of the same thread; the scheduler of the harness may run that.
inline bool (*&contended())() { static bool (*f)() = nullptr; return f; }
// Called before a mutex is locked
inline void (*&locking())() { static void (*f)() = nullptr; return f; }
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
__attribute__((visibility("default"), no_sanitize("thread"))) int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (mutex_use::locking() && mutex_use::plain(m)) mutex_use::locking()();
    if (mutex_use::plain(m))
        while (m->__data.__lock != 0 && m->__data.__owner == gettid())
            if (!mutex_use::contended() || !mutex_use::contended()()) mutex_use::misuse("a callback locks a mutex that it already holds");
    return __real_pthread_mutex_lock(m);
}
__attribute__((visibility("default"), no_sanitize("thread"))) int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (mutex_use::plain(m)) {
        if (m->__data.__lock == 0) mutex_use::misuse("a mutex is unlocked that is not locked");
        if (m->__data.__owner != 0 && m->__data.__owner != gettid()) mutex_use::misuse("a mutex is unlocked that another callback holds");
    }
    return __real_pthread_mutex_unlock(m);
}
}
