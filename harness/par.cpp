// Several operations at the same time: interleaved as specified by a schedule (by threads handing over a baton, or nested within one thread) or
// running freely.
#include "codec.h"
#include <atomic>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

namespace vf {
using CaseFn = std::function<void(const JV &, Out &)>;
std::map<std::string, CaseFn> &registry();

static void runCase(const JV &c, Out &o)
{
    o.raw("{\"k\":0");
    registry().find(c["type"].GetString())->second(c, o);
    o.raw("}");
}

struct Job {
    std::vector<const JV *> cases;
    std::vector<std::size_t> sched;
    std::vector<std::size_t> ran; // the schedule actually executed
    std::vector<Out> outs;
};

// one thread per operation, only the one having the baton runs
struct Baton {
    Job &job;
    std::mutex m;
    std::condition_variable cv;
    std::size_t pos = 0, turn = 0;
    std::vector<bool> done;
    void next()
    {
        while (pos < job.sched.size() && done[job.sched[pos]]) {
            ++pos;
        }
        turn = job.cases.size();
        if (pos < job.sched.size()) {
            turn = job.sched[pos++];
        } else {
            for (std::size_t w = 0; w != job.cases.size() && turn == job.cases.size(); ++w) {
                if (!done[w]) {
                    turn = w;
                }
            }
        }
        if (turn != job.cases.size()) {
            job.ran.push_back(turn);
        }
        cv.notify_all();
    }
};
struct BatonHook : YieldHook {
    Baton &b;
    std::size_t w;
    BatonHook(Baton &b, std::size_t w)
        : b(b)
        , w(w)
    {
    }
    void yield() override
    {
        std::unique_lock<std::mutex> l(b.m);
        b.next();
        b.cv.wait(l, [this] { return b.turn == w; });
    }
};
static void runThreads(Job &job)
{
    Baton b{ job };
    b.done.resize(job.cases.size());
    b.turn = job.cases.size();
    std::vector<std::thread> threads;
    for (std::size_t w = 0; w != job.cases.size(); ++w) {
        threads.emplace_back([&, w] {
            BatonHook hook(b, w);
            {
                std::unique_lock<std::mutex> l(b.m);
                b.cv.wait(l, [&] { return b.turn == w; });
            }
            yieldHook() = &hook;
            runCase(*job.cases[w], job.outs[w]);
            yieldHook() = nullptr;
            std::unique_lock<std::mutex> l(b.m);
            b.done[w] = true;
            b.next();
        });
    }
    {
        std::unique_lock<std::mutex> l(b.m);
        b.next();
    }
    for (auto &t : threads) {
        t.join();
    }
}

// custom (de)serialization code which (de)serializes other objects itself
struct Nest : YieldHook {
    Job &job;
    std::size_t pos = 0, current = 0;
    std::vector<bool> started;
    explicit Nest(Job &job)
        : job(job)
        , started(job.cases.size())
    {
    }
    void run(std::size_t w)
    {
        std::vector<ProbeEvent> log;
        Graph g;
        std::list<std::string> views;
        log.swap(probeLog());
        std::swap(g, graph());
        views.swap(viewStorage());
        const auto outer = current;
        current = w;
        started[w] = true;
        job.ran.push_back(w);
        runCase(*job.cases[w], job.outs[w]);
        current = outer;
        log.swap(probeLog());
        std::swap(g, graph());
        views.swap(viewStorage());
    }
    void yield() override
    {
        const auto self = current;
        while (pos < job.sched.size() && job.sched[pos] != self) {
            const auto w = job.sched[pos++];
            if (!started[w]) {
                run(w);
            }
        }
        if (pos < job.sched.size()) {
            ++pos;
        }
        job.ran.push_back(self);
    }
};
static void runNested(Job &job)
{
    Nest n(job);
    yieldHook() = &n;
    while (n.pos < job.sched.size()) {
        const auto w = job.sched[n.pos++];
        if (!n.started[w]) {
            n.run(w);
        }
    }
    for (std::size_t w = 0; w != job.cases.size(); ++w) {
        if (!n.started[w]) {
            n.run(w);
        }
    }
    yieldHook() = nullptr;
}

// all at the same time, repeatedly; the distinct outcomes of each operation
static void runFree(Job &job, unsigned reps)
{
    std::atomic<std::size_t> waiting(job.cases.size());
    std::vector<std::thread> threads;
    for (std::size_t w = 0; w != job.cases.size(); ++w) {
        threads.emplace_back([&, w] {
            --waiting;
            while (waiting) {
                std::this_thread::yield();
            }
            std::vector<std::string> seen;
            for (unsigned k = 0; k != reps; ++k) {
                Out o;
                runCase(*job.cases[w], o);
                if (std::find(seen.begin(), seen.end(), o.s) == seen.end() && seen.size() < 8) {
                    seen.push_back(o.s);
                }
            }
            for (const auto &s : seen) {
                job.outs[w].s += (job.outs[w].s.empty() ? "" : ",") + s;
            }
        });
    }
    for (auto &t : threads) {
        t.join();
    }
}

static void runPar(const JV &c, Out &o)
{
    Job job;
    for (const auto &e : c["cases"].GetArray()) {
        job.cases.push_back(&e);
    }
    job.outs.resize(job.cases.size());
    if (c.HasMember("sched")) {
        for (const auto &e : c["sched"].GetArray()) {
            job.sched.push_back(e.GetUint() - 1);
        }
    }
    const std::string mode = c["mode"].GetString();
    if (mode == "threads") {
        runThreads(job);
    } else if (mode == "nested") {
        runNested(job);
    } else {
        runFree(job, c["reps"].GetUint());
    }
    o.raw(",\"ran\":[");
    for (std::size_t k = 0; k != job.ran.size(); ++k) {
        o.raw(k ? "," : "");
        o.num(static_cast<long long>(job.ran[k] + 1));
    }
    o.raw("],\"outs\":[");
    for (std::size_t w = 0; w != job.outs.size(); ++w) {
        o.raw(w ? ",[" : "[");
        o.s += job.outs[w].s;
        o.raw("]");
    }
    o.raw("]");
}

static const bool registered = [] {
    registry()["$par"] = &runPar;
    return true;
}();

} // namespace vf
