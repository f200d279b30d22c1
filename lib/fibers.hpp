// Runs the subscribers of the programs under test as ROS would with a pool of threads: messages queue per subscription,
// a subscription runs one callback at a time, and a callback that sleeps keeps its thread while others run. Everything
// happens on one real thread, so a schedule is a sequence of generated choices and replays exactly. With the thread
// sanitizer, the callbacks of each subscription are a thread to it: what orders callbacks is only what the programs and ROS
// do, and never that this scheduler ran one after the other.
#pragma once
#include <ros/ros.h>
#ifdef __SANITIZE_THREAD__
extern "C" {
void* __tsan_get_current_fiber(void);
void* __tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void* fiber);
void __tsan_switch_to_fiber(void* fiber, unsigned flags);
}
#else
#include <sanitizer/common_interface_defs.h>
#endif
#include <sys/mman.h>
#include <ucontext.h>

#include <deque>
#include <map>
#include <memory>
#include <vector>

#include "mutex_use.hpp"
#include "pbt.hpp"

namespace fibers {
const std::size_t STACK = 8u << 20;

class Scheduler {
public:
    Scheduler(pbt::Src& s, bool random) : s(s), random(random) {
        current() = this;
        shim::on_sleep() = [](double) { Scheduler::current()->yield(); };
        mutex_use::contended() = [] { return Scheduler::current()->blocked(); };
        if (random) mutex_use::locking() = shim::on_publish() = [] { Scheduler::current()->preempt(); };
#ifdef __SANITIZE_THREAD__
        // Threads start after what main() did so far; what this scheduler does next is not the code under test.
        main_thread = __tsan_get_current_fiber();
        for (const auto& [topic, subs] : shim::bus().subs)
            for (const auto& sub : subs) queues[sub.id];
        for (auto& [id, q] : queues) q.thread = __tsan_create_fiber(0);
        for (int k = 0; k < 4; ++k) spare.push_back(__tsan_create_fiber(0));
        quiet = std::make_unique<shim::Quiet>();
#endif
    }
    ~Scheduler() {
        shim::on_sleep() = nullptr;
        mutex_use::contended() = nullptr;
        mutex_use::locking() = shim::on_publish() = nullptr;
        for (void* p : stacks) munmap(p, STACK);
#ifdef __SANITIZE_THREAD__
        quiet.reset();
        for (auto& [id, q] : queues) {
            if (q.thread) spare.push_back(q.thread);
            if (q.stack) munmap(q.stack, STACK);
        }
        for (void* thread : spare) {
            join(thread);
            __tsan_destroy_fiber(thread);
        }
#endif
    }
    // Subscriptions made from now back to the last call belong to a program with this many threads.
    void add_program(uint64_t end_id, int threads) { programs.push_back({end_id, threads, 0}); }

    // Move published messages to the queues of the subscriptions.
    void collect() {
        auto& pending = shim::bus().pending;
        while (!pending.empty()) {
            const shim::Record& r = pending.front();
            const auto it = shim::bus().subs.find(r.topic);
            if (it != shim::bus().subs.end())
                for (const auto& sub : it->second) {
                    Queue& q = queues[sub.id];
                    if (q.topic.empty()) { q.topic = r.topic; q.fn = sub.fn; q.program = program_of(sub.id); }
                    const bool share = r.object.has_value() && std::type_index(r.object.type()) == sub.object;
                    q.messages.push_back({r.order, share ? r.object : r.wire, r.token});
                }
            pending.pop_front();
        }
    }
    // Queue a call of a service.
    void call(const std::string& name, std::function<void()> fn) {
        Queue& q = queues[(1ULL << 40) + std::hash<std::string>()(name) % (1ULL << 30)];
        if (q.topic.empty()) { q.topic = name; q.program = programs.size() - 1; }
        q.fn = [fn](const std::any&) { fn(); };
        q.messages.push_back({shim::bus().order++, {}, {}});
    }
    bool waiting(const std::string& topic) const {
        for (const auto& [id, q] : queues) if (q.topic == topic && !q.messages.empty()) return true;
        return false;
    }
    // Until nothing can run and the sleeping callbacks keep sleeping.
    void run_idle() { run_until([] { return false; }); }
    void run_until(const std::function<bool()>& done) {
        while (!done()) {
            if (random && s.chance(1, 3) && !sleeping.empty()) { resume(s.draw(sleeping.size() - 1)); continue_polling(); continue; }
            if (start_one()) continue;
            if (!poll()) return;
        }
    }
    // A random number of steps, keeping up with the sensors.
    void run_some() {
        while (true) {
            std::size_t backlog = 0;
            for (const auto& [id, q] : queues) if (q.topic.find("/input/") != std::string::npos) backlog = std::max(backlog, q.messages.size());
            if (backlog <= 2 && s.boolean()) return;
            if (s.chance(1, 3) && !sleeping.empty()) { resume(s.draw(sleeping.size() - 1)); continue; }
            if (!start_one() && !poll()) return;
        }
    }
    bool stuck() const {
        for (const auto& [id, q] : queues) if (!q.messages.empty()) return true;
        return false;
    }
    std::string describe() const {
        std::ostringstream os;
        for (const auto& f : sleeping) os << "asleep in the callback of " << queues.at(f->sub).topic << "; ";
        for (const auto& [id, q] : queues) if (!q.messages.empty()) os << q.messages.size() << " messages wait on " << q.topic << "; ";
        return os.str();
    }
    // After shutdown every callback has to come back.
    void finish() {
        mutex_use::locking() = shim::on_publish() = nullptr;
        for (int round = 0; round < 4 && !sleeping.empty(); ++round) poll();
        CHECK(sleeping.empty(), "callbacks do not return after shutdown: ", describe());
    }
    std::size_t asleep() const { return sleeping.size(); }
    int most_threads{0};

private:
    struct Message { uint64_t order; std::any wire; shim::Token token; };
    struct Queue {
        std::string topic;
        std::function<void(const std::any&)> fn;
        std::size_t program{0};
        std::deque<Message> messages;
        bool active{false};
        void *thread{nullptr}, *stack{nullptr};  // with the thread sanitizer
    };
    struct Program { uint64_t end_id; int threads; int active; };
    struct Fiber { ucontext_t ctx; void* stack; void* fake{nullptr}; uint64_t sub; std::any wire; shim::Token token; bool done{false}; std::string error; void* thread{nullptr}; };

    static Scheduler*& current() { static Scheduler* c = nullptr; return c; }
    std::size_t program_of(uint64_t id) const {
        for (std::size_t k = 0; k < programs.size(); ++k) if (id < programs[k].end_id) return k;
        return programs.size() - 1;
    }
    bool start_one() {
        std::vector<uint64_t> ready;
        uint64_t first = 0, order = ~0ULL;
        for (const auto& [id, q] : queues) {
            if (q.messages.empty() || q.active || programs[q.program].active >= programs[q.program].threads) continue;
            ready.push_back(id);
            if (q.messages.front().order < order) { order = q.messages.front().order; first = id; }
        }
        if (ready.empty()) return false;
        const uint64_t id = random ? ready[s.draw(ready.size() - 1)] : first;
        Queue& q = queues[id];
        auto f = std::make_unique<Fiber>();
        f->sub = id;
        f->wire = q.messages.front().wire;
        f->token = q.messages.front().token;
        q.messages.pop_front();
        q.active = true;
        Program& p = programs[q.program];
        ++p.active;
        most_threads = std::max(most_threads, p.active);
#ifdef __SANITIZE_THREAD__
        if (!q.thread) {
            if (spare.empty()) throw std::logic_error("no thread for " + q.topic);
            q.thread = spare.back();
            spare.pop_back();
        }
        if (!q.stack) {
            q.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (q.stack == MAP_FAILED) throw std::bad_alloc();
        }
        f->thread = q.thread;
        f->stack = q.stack;
#else
        if (stacks.empty()) {
            f->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (f->stack == MAP_FAILED) throw std::bad_alloc();
        } else {
            f->stack = stacks.back();
            stacks.pop_back();
        }
#endif
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = STACK;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, &Scheduler::entry, 0);
        enter(std::move(f));
        return true;
    }
    void resume(std::size_t k) {
        auto f = std::move(sleeping[k]);
        sleeping.erase(sleeping.begin() + k);
        enter(std::move(f));
    }
    // Every sleeping callback looks at its condition again; true if one got anywhere.
    bool poll() {
        const std::size_t n = sleeping.size();
        const uint64_t before = finished + preempted, published = shim::bus().order;
        for (std::size_t k = 0; k < n && k < sleeping.size() + 1 && !sleeping.empty(); ++k) resume(0);
        return finished + preempted != before || shim::bus().order != published;
    }
    void continue_polling() {}
    void enter(std::unique_ptr<Fiber> f) {
        running = f.get();
#ifdef __SANITIZE_THREAD__
        to_fiber(f->thread, &main, &f->ctx);
#else
        void* fake = nullptr;
        __sanitizer_start_switch_fiber(&fake, f->stack, STACK);
        swapcontext(&main, &f->ctx);
        __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
        running = nullptr;
        collect();
        if (!f->done) { sleeping.push_back(std::move(f)); return; }
        ++finished;
        Queue& q = queues[f->sub];
        q.active = false;
        --programs[q.program].active;
#ifndef __SANITIZE_THREAD__
        stacks.push_back(f->stack);
#endif
        CHECK(f->error.empty(), "the callback of ", q.topic, " threw: ", f->error);
    }
#ifdef __SANITIZE_THREAD__
    __attribute__((noinline, no_sanitize("thread"))) static void to_fiber(void* thread, ucontext_t* from, const ucontext_t* to) {
        __tsan_switch_to_fiber(thread, 1);  // without ordering the two
        swapcontext(from, to);
    }
    __attribute__((noinline, no_sanitize("thread"))) void join(void* thread) {
        __tsan_switch_to_fiber(thread, 0);
        __tsan_switch_to_fiber(main_thread, 0);
    }
    __attribute__((no_sanitize("thread"))) static void entry() {
        run_callback();
        __tsan_switch_to_fiber(current()->main_thread, 1);
        setcontext(&current()->main);
    }
#else
    static void entry() {
        Scheduler* c = current();
        __sanitizer_finish_switch_fiber(nullptr, &c->main_stack, &c->main_size);
        run_callback();
        __sanitizer_start_switch_fiber(nullptr, c->main_stack, c->main_size);
        setcontext(&c->main);
    }
#endif
    __attribute__((noinline)) static void run_callback() {
        Scheduler* c;
        Fiber* f;
        std::function<void(const std::any&)>* fn;
        {
            shim::Quiet quiet;
            c = current();
            f = c->running;
            fn = &c->queues.at(f->sub).fn;
        }
        shim::acquire(f->token);
        try {
            (*fn)(f->wire);
        } catch (const std::exception& e) {
            f->error = std::string("exception: ") + e.what();
        } catch (...) {
            f->error = "an exception";
        }
        f->wire.reset();
        f->done = true;
    }
    // A callback waits for a mutex that a sleeping callback holds.
    bool blocked() {
        if (!running || sleeping.empty()) return false;
        yield();
        return true;
    }
    // Another callback may run when this one publishes or is about to lock.
    void preempt() {
        shim::Quiet quiet;
        if (!running || !s.chance(1, 8)) return;
        ++preempted;
        yield();
    }
    void yield() {
        Fiber* f = running;
        if (!f) return;
#ifdef __SANITIZE_THREAD__
        to_fiber(main_thread, &f->ctx, &main);
#else
        __sanitizer_start_switch_fiber(&f->fake, main_stack, main_size);
        swapcontext(&f->ctx, &main);
        __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
#endif
    }

    pbt::Src& s;
    bool random;
    std::vector<Program> programs;
    std::map<uint64_t, Queue> queues;
    std::vector<std::unique_ptr<Fiber>> sleeping;
    std::vector<void*> stacks;
    void* main_thread{nullptr};
    std::vector<void*> spare;
    std::unique_ptr<shim::Quiet> quiet;
    Fiber* running{nullptr};
    ucontext_t main;
    const void* main_stack{nullptr};
    std::size_t main_size{0};
    uint64_t finished{0}, preempted{0};
};
}
