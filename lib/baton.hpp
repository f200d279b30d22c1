// Runs callbacks of the code under test as threads of which only one runs at a time: a callback runs until it returns or
// sleeps, and a sleeping callback continues when the scheduler resumes it.
#pragma once
#include <condition_variable>
#include <mutex>
#include <thread>

#include "pbt.hpp"

namespace baton {
class Task {
public:
    template<typename F>
    static Task* start(F fn) {
        Task* t = new Task();  // never deleted: a blocked callback cannot be stopped
        t->th = std::thread([t, fn] {
            current() = t;
            try { fn(); } catch (...) { t->err = std::current_exception(); }
            std::lock_guard<std::mutex> g(t->m);
            t->state = DONE;
            t->cv.notify_all();
        });
        t->th.detach();
        t->wait();
        return t;
    }
    void resume() {
        { std::lock_guard<std::mutex> g(m); state = RUN; cv.notify_all(); }
        wait();
    }
    bool done() { std::lock_guard<std::mutex> g(m); return state == DONE; }
    std::exception_ptr error() const { return err; }
    // Called where the code under test sleeps.
    static void sleep() {
        Task* t = current();
        if (!t) throw pbt::Fail("a callback sleeps outside of a task");
        std::unique_lock<std::mutex> l(t->m);
        t->state = SLEEP;
        t->cv.notify_all();
        t->cv.wait(l, [t] { return t->state == RUN; });
    }
private:
    enum State { RUN, SLEEP, DONE };
    static Task*& current() { static thread_local Task* c = nullptr; return c; }
    void wait() {
        std::unique_lock<std::mutex> l(m);
        if (!cv.wait_for(l, std::chrono::seconds(15), [this] { return state != RUN; })) throw pbt::Fail("a callback is blocked: it neither returns nor waits for data");
    }
    std::thread th;
    std::mutex m;
    std::condition_variable cv;
    State state{RUN};
    std::exception_ptr err;
};
}
