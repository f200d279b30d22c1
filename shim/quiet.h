// With the thread sanitizer, the stand-in's own bookkeeping is not the code under test: it is hidden from the sanitizer, and
// the order that ROS guarantees (publishing comes before the callback) is stated explicitly.
#pragma once
#include <memory>
#ifdef __SANITIZE_THREAD__
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
void __tsan_acquire(void*);
void __tsan_release(void*);
}
namespace shim {
struct Quiet {
    Quiet() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
    ~Quiet() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
    Quiet(const Quiet&) = delete;
};
typedef std::shared_ptr<char> Token;
inline Token release() {
    Token t;
    { Quiet q; t = std::make_shared<char>(); }
    __tsan_release(t.get());
    return t;
}
inline void acquire(const Token& t) { if (t) __tsan_acquire(t.get()); }
}
#else
namespace shim {
struct Quiet { Quiet() {} ~Quiet() {} };
struct Token {};
inline Token release() { return {}; }
inline void acquire(const Token&) {}
}
#endif
