// C19: partitions, thread pools, threads and guarded state under generated histories and schedules.
#include "vh.hpp"

#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"
#include "svs/lib/threads.h"
#include "svs/lib/threads/threadlocal.h"

#include <algorithm>
#include <deque>
#include <list>
#include <numeric>
#include <set>

namespace {
using namespace svs;
using Pool = threads::NativeThreadPool;

// Something of random length that the optimizer keeps.
struct Delay {
    unsigned kind;
    unsigned amount;
    void operator()() const {
        switch (kind) {
            case 0: return;
            case 1:
                for (unsigned i = 0; i < amount; ++i) {
                    asm volatile("");
                }
                return;
            case 2:
                for (unsigned i = 0; i < amount % 8; ++i) {
                    sched_yield();
                }
                return;
            default: usleep(amount % 300); return;
        }
    }
};
struct Delays {
    uint64_t seed;
    bool any;
    Delay at(uint64_t i) const {
        if (!any) {
            return {0, 0};
        }
        uint64_t h = vh::mix(seed, i);
        return {unsigned(h % 16 < 10 ? 0 : h % 16 < 13 ? 1 : h % 16 < 15 ? 2 : 3), unsigned(h >> 8) % 4000};
    }
};
Delays gen_delays(vh::Gen& g) {
    bool any = g.chance(2, 3);
    return {any ? g.seed() : 0, any};
}

/////
///// Partitions
/////

template <typename T, typename U> void balance_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t most = std::min<size_t>(std::numeric_limits<T>::max(), size_t(1) << 40);
    T n = T(g.chance(1, 8) ? g.range(0, most) : g.skew(0, std::min<size_t>(most, 5000)));
    U nthreads = U(g.skew(1, std::is_same_v<U, uint8_t> ? 120 : 300));
    ctx.describe("balance n={} threads={}", size_t(n), size_t(nthreads));
    ctx.interesting(n > 1 && nthreads > 1);
    T next = 0;
    size_t smallest = std::numeric_limits<size_t>::max(), largest = 0;
    for (U tid = 0; tid < nthreads; ++tid) {
        auto r = threads::balance(n, nthreads, tid);
        if (nthreads == 1) {
            VH_REQUIRE(r.start() == 0 && r.stop() == n, "one thread gets [{}, {})", size_t(r.start()), size_t(r.stop()));
            return;
        }
        if (n == 0) {
            VH_REQUIRE(r.empty(), "thread {} gets something from nothing", size_t(tid));
            continue;
        }
        if (!r.empty()) {
            VH_REQUIRE(r.start() == next, "thread {} starts at {}, the one before stopped at {}", size_t(tid), size_t(r.start()), size_t(next));
            VH_REQUIRE(r.stop() <= n, "thread {} stops at {}", size_t(tid), size_t(r.stop()));
            next = r.stop();
        }
        smallest = std::min<size_t>(smallest, r.size());
        largest = std::max<size_t>(largest, r.size());
    }
    VH_REQUIRE(next == n, "the parts end at {}", size_t(next));
    VH_REQUIRE(n == 0 || largest - smallest <= 1, "part sizes go from {} to {}", smallest, largest);
}

template <typename T> void unit_range_case(vh::Gen& g, vh::Ctx& ctx) {
    auto num = [&]() { return T(g.chance(1, 4) ? g.range(0, size_t(std::numeric_limits<T>::max()) / 2) : g.range(0, 20)); };
    T a = num(), b = num();
    auto r = threads::UnitRange<T>(a, b);
    T stop = std::max(a, b);
    ctx.describe("UnitRange({}, {})", int64_t(a), int64_t(b));
    ctx.interesting(b > a);
    size_t n = size_t(stop - a);
    VH_REQUIRE(r.size() == n && r.empty() == (n == 0) && r.start() == a && r.stop() == stop, "size {} empty {} start {} stop {}", r.size(), r.empty(), int64_t(r.start()), int64_t(r.stop()));
    VH_REQUIRE(r == threads::UnitRange<T>(a, stop) && !(r != threads::UnitRange<T>(a, stop)), "not equal to itself");
    if (n > 0) {
        VH_REQUIRE(r.front() == a && r.back() == T(stop - 1), "front {} back {}", int64_t(r.front()), int64_t(r.back()));
    }
    for (int64_t i : {int64_t(a) - 1, int64_t(a), int64_t(a) + 1, int64_t(stop) - 1, int64_t(stop), int64_t(stop) + 1}) {
        if (i < 0 || i > int64_t(std::numeric_limits<T>::max() / 2)) {
            continue;
        }
        bool want = i >= int64_t(a) && i < int64_t(stop);
        VH_REQUIRE(r.contains(T(i)) == want, "contains({}) is {}", i, !want);
    }
    if (n == 0) {
        VH_REQUIRE(!r.contains(T(12345 % 100)), "an empty range contains 45");
    }
    VH_REQUIRE(vh::throws([&] { r.at(n); }), "at() past the end does not throw");
    size_t m = std::min<size_t>(n, 50);
    size_t i = 0;
    for (auto it = r.begin(); it != r.end() && i < m; ++it, ++i) {
        VH_REQUIRE(*it == T(a + i) && r[i] == T(a + i) && r.at(i) == T(a + i), "element {} is {}", i, int64_t(*it));
    }
    VH_REQUIRE(i == m, "{} elements instead of {}", i, m);
    auto each = r.eachindex();
    VH_REQUIRE(each.start() == 0 && each.stop() == n, "eachindex is [{}, {})", each.start(), each.stop());
    auto sp = threads::StaticPartition<threads::IndexIterator<T>>(a, stop);
    VH_REQUIRE(sp.size() == n && sp.empty() == (n == 0), "partition of size {}", sp.size());
    if (n > 0) {
        VH_REQUIRE(sp.front() == a && sp.back() == T(stop - 1) && sp[n / 2] == T(a + n / 2), "partition {} to {}", int64_t(sp.front()), int64_t(sp.back()));
        auto back = threads::UnitRange<T>(threads::IteratorPair{sp.begin(), sp.end()});
        VH_REQUIRE(back == r, "a range from a pair of iterators is different");
    }
    // Iterator arithmetic.
    T x = num();
    int64_t step = int64_t(g.range(0, 10));
    auto it = threads::IndexIterator<T>(x);
    VH_REQUIRE(*(it + step) == T(x + step) && *(step + it) == T(x + step) && it[step] == T(x + step), "iterator addition");
    VH_REQUIRE((it + step) - it == step && *((it + step) - step) == x, "iterator subtraction");
    VH_REQUIRE((it < it + step) == (step > 0) && it <= it && it == threads::IndexIterator<T>(x), "iterator order");
    auto jt = it;
    VH_REQUIRE(*jt++ == x && *jt == T(x + 1) && *jt-- == T(x + 1) && *jt == x && *++jt == T(x + 1) && *--jt == x, "iterator steps");
    jt += step;
    VH_REQUIRE(*jt == T(x + step), "iterator +=");
    jt -= step;
    VH_REQUIRE(jt == it, "iterator -=");
}

/////
///// Pools
/////

struct Odd {
    int x;
};

// Tasks record what they did in plain memory, which the caller reads after the run.
struct Work {
    std::vector<uint32_t> hits{};
    std::vector<uint64_t> value{};
    std::atomic<int> inside{0};
    std::vector<char> tid_used{};

    void reset(size_t n, size_t nthreads) {
        hits.assign(n, 0);
        value.assign(n, 0);
        tid_used.assign(nthreads, 0);
    }
};
struct Inside {
    std::atomic<int>& n;
    explicit Inside(std::atomic<int>& x)
        : n{x} {
        n.fetch_add(1, std::memory_order_relaxed); // no synchronization of its own
    }
    ~Inside() { n.fetch_sub(1, std::memory_order_relaxed); }
};

// What one thread does to fail.
enum Throw { none, runtime, logic, derived, ann, odd, text };
struct MyError : std::exception {
    std::string w;
    explicit MyError(std::string s)
        : w{std::move(s)} {}
    const char* what() const noexcept override { return w.c_str(); }
};
[[noreturn]] void fail_with(Throw how, size_t key) {
    switch (how) {
        case runtime: throw std::runtime_error(fmt::format("boom-{}-", key));
        case logic: throw std::out_of_range(fmt::format("boom-{}-", key));
        case derived: throw MyError(fmt::format("boom-{}-", key));
        case ann: throw ANNEXCEPTION("boom-{}-", key);
        case odd: throw Odd{int(key)};
        default: throw "boom";
    }
}

void pool_case(vh::Gen& g, vh::Ctx& ctx) {
    vh::jitter = g.flip();
    size_t nthreads = g.skew(0, 7);
    uint64_t spin = g.pick<uint64_t>({1000, 1, 50, 5000, 1000000});
    auto pool = Pool(nthreads, spin);
    size_t expected = std::max<size_t>(nthreads, 1);
    ctx.describe("pool of {} threads, spin time {}, jitter {}:", nthreads, spin, vh::jitter);
    VH_REQUIRE(pool.size() == expected, "the pool has {} threads", pool.size());
    Work w;
    size_t nops = g.range(1, 14), runs = 0, failures = 0, changes = 0;
    for (size_t op = 0; op < nops; ++op) {
        size_t what = g.raw(11);
        if (what == 10) {
            size_t to = g.skew(0, 7);
            ctx.trace(" resize {}", to);
            pool.resize(to);
            expected = std::max<size_t>(to, 1);
            VH_REQUIRE(pool.size() == expected, "the pool has {} threads", pool.size());
            ++changes;
            continue;
        }
        if (what == 11) {
            ctx.trace(" move");
            if (g.flip()) {
                auto other = Pool(std::move(pool));
                pool = std::move(other);
            } else {
                auto other = Pool(g.range(1, 3), spin);
                other = std::move(pool);
                pool = std::move(other);
            }
            VH_REQUIRE(pool.size() == expected, "after a move the pool has {} threads", pool.size());
            ++changes;
            continue;
        }
        if (what == 9) {
            auto d = Delay{unsigned(g.raw(3)), unsigned(g.raw(3000))};
            d();
            continue;
        }
        ++runs;
        auto delays = gen_delays(g);
        // Which threads or which indices fail.
        bool fails = g.chance(1, 3);
        uint64_t fail_seed = fails ? g.seed() : 0;
        size_t fail_rate = fails ? g.pick<size_t>({2, 1, 4, 30}) : 0;
        auto how_of = [&](uint64_t key) -> Throw {
            uint64_t h = vh::mix(fail_seed, key);
            if (!fails || h % fail_rate != 0) {
                return none;
            }
            return Throw(1 + (h >> 8) % 6);
        };
        std::string thrown_what;
        bool threw = false, odd_type = false;
        auto guard = [&](auto&& f) {
            try {
                f();
            } catch (const threads::ThreadingException& e) {
                threw = true;
                thrown_what = e.what();
            } catch (const vh::Fail&) {
                throw;
            } catch (const std::exception& e) {
                threw = true;
                thrown_what = e.what();
            } catch (...) {
                threw = true;
                odd_type = true;
            }
            VH_REQUIRE(w.inside.load(std::memory_order_relaxed) == 0, "the run returned while {} tasks were running", w.inside.load(std::memory_order_relaxed));
        };
        auto check_message = [&](const std::set<size_t>& keys) {
            VH_REQUIRE(!odd_type, "the caller got an exception that is not a std::exception");
            for (auto k : keys) {
                VH_REQUIRE(thrown_what.find(fmt::format("boom-{}-", k)) != std::string::npos, "the message of the exception in thread or index {} is lost: \"{}\"", k, thrown_what);
            }
        };
        if (what <= 2) { // once per thread
            w.reset(expected, expected);
            ctx.trace(" each thread{}", fails ? " (failing)" : "");
            std::set<size_t> keys;
            bool want_throw = false;
            for (size_t t = 0; t < expected; ++t) {
                auto how = how_of(t);
                want_throw |= how != none;
                if (how != none && how != odd && how != text) {
                    keys.insert(t);
                }
            }
            guard([&] {
                threads::run(pool, [&](uint64_t tid) {
                    Inside in(w.inside);
                    VH_REQUIRE(tid < expected, "a thread has the id {}", tid);
                    delays.at(tid)();
                    w.hits[tid]++;
                    w.value[tid] = tid * 3 + 1;
                    auto how = how_of(tid);
                    if (how != none) {
                        fail_with(how, tid);
                    }
                });
            });
            VH_REQUIRE(threw == want_throw, "{} although {} thread failed", threw ? "an exception surfaced" : "no exception surfaced", want_throw ? "a" : "no");
            for (size_t t = 0; t < expected; ++t) {
                VH_REQUIRE(w.hits[t] == 1 && w.value[t] == t * 3 + 1, "thread {} was called {} times", t, w.hits[t]);
            }
            check_message(keys);
            failures += threw;
            continue;
        }
        // A partition.
        size_t n = g.chance(1, 10) ? g.range(0, 3000) : g.skew(0, 60);
        bool dynamic = what >= 6;
        size_t grain = g.chance(1, 8) ? g.pick<size_t>({0, size_t(1) << 63, ~size_t(0), (~size_t(0)) / 3 + 1}) : g.skew(1, 20);
        size_t form = g.raw(4);
        size_t offset = form == 1 || form == 4 ? g.range(0, 50) : 0;
        ctx.trace(" {} over {} from {} as {}{}{}", dynamic ? "dynamic" : "static", n, offset, form, dynamic ? fmt::format(" grain {}", grain) : "", fails ? " (failing)" : "");
        w.reset(n, expected);
        auto body = [&](const auto& range, uint64_t tid) {
            Inside in(w.inside);
            VH_REQUIRE(tid < expected, "a thread has the id {}", tid);
            for (auto i : range) {
                size_t k = size_t(i) - offset;
                VH_REQUIRE(k < n, "the index {} is outside the range", size_t(i));
                w.hits[k]++;
                w.value[k] += k * 7 + 5;
                delays.at(k)();
                auto how = how_of(k);
                if (how != none) {
                    fail_with(how, k);
                }
            }
        };
        auto go = [&](auto&& partition) { threads::run(pool, std::move(partition), body); };
        std::vector<size_t> items(n);
        std::iota(items.begin(), items.end(), offset);
        guard([&] {
            switch (form) {
                case 0: dynamic ? go(threads::DynamicPartition(n, grain)) : go(threads::StaticPartition(n)); break;
                case 1: dynamic ? go(threads::DynamicPartition(offset, offset + n, grain)) : go(threads::StaticPartition(offset, offset + n)); break;
                case 2: dynamic ? go(threads::DynamicPartition(items, grain)) : go(threads::StaticPartition(items)); break;
                case 3: {
                    auto r = threads::UnitRange<uint32_t>(0, n);
                    dynamic ? go(threads::DynamicPartition(r, grain)) : go(threads::StaticPartition(r));
                    break;
                }
                default: {
                    auto pair = threads::IteratorPair{items.begin(), items.end()};
                    if (dynamic) {
                        auto p = threads::DynamicPartition<std::vector<size_t>::iterator>(pair);
                        p.grainsize = grain;
                        go(std::move(p));
                    } else {
                        go(threads::StaticPartition<std::vector<size_t>::iterator>(pair));
                    }
                }
            }
        });
        bool want_throw = false;
        for (size_t k = 0; k < n; ++k) {
            want_throw |= how_of(k) != none;
        }
        VH_REQUIRE(threw == want_throw, "{} although {} task failed", threw ? "an exception surfaced" : "no exception surfaced", want_throw ? "a" : "no");
        VH_REQUIRE(!odd_type, "the caller got an exception that is not a std::exception");
        std::set<size_t> keys;
        for (size_t k = 0; k < n; ++k) {
            VH_REQUIRE(w.hits[k] <= 1, "index {} was visited {} times", k, w.hits[k]);
            if (!want_throw) {
                VH_REQUIRE(w.hits[k] == 1 && w.value[k] == k * 7 + 5, "index {} was visited {} times", k, w.hits[k]);
            }
            auto how = how_of(k);
            if (w.hits[k] == 1 && how != none && how != odd && how != text) {
                keys.insert(k);
            }
        }
        check_message(keys);
        failures += threw;
    }
    // The pool is still good.
    w.reset(expected * 3, expected);
    threads::run(pool, threads::StaticPartition(expected * 3), [&](const auto& is, uint64_t) {
        for (auto i : is) {
            w.hits[i]++;
        }
    });
    VH_REQUIRE(std::all_of(w.hits.begin(), w.hits.end(), [](auto h) { return h == 1; }), "the last run was incomplete: {}", vh::show(w.hits, 40));
    ctx.interesting(runs >= 2 && (failures > 0 || changes > 0) && expected > 1);
    ctx.label(failures > 0 ? "with failures" : "without failures");
}

// Several callers share one pool.
void shared_case(vh::Gen& g, vh::Ctx& ctx) {
    vh::jitter = g.flip();
    size_t nthreads = g.range(1, 4), callers = g.range(2, 4), rounds = g.range(1, 6), n = g.skew(1, 40);
    ctx.describe("{} callers share a pool of {} for {} runs of {}", callers, nthreads, rounds, n);
    ctx.interesting(nthreads > 1);
    auto pool = Pool(nthreads, g.pick<uint64_t>({1000, 1, 50}));
    auto delays = gen_delays(g);
    bool failing = g.chance(1, 3);
    std::vector<std::vector<uint32_t>> hits(callers, std::vector<uint32_t>(n, 0));
    std::vector<size_t> thrown(callers, 0);
    // All runs of a pool exclude each other.
    std::vector<size_t> unguarded(1, 0);
    std::atomic<int> owner{-1};
    std::atomic<bool> overlap{false};
    std::vector<std::thread> ts;
    for (size_t c = 0; c < callers; ++c) {
        ts.emplace_back([&, c] {
            for (size_t r = 0; r < rounds; ++r) {
                try {
                    threads::run(pool, threads::DynamicPartition(n, 3), [&](const auto& is, uint64_t tid) {
                        if (tid == 0) {
                            int none = -1;
                            if (!owner.compare_exchange_strong(none, int(c)) && none != int(c)) {
                                overlap = true;
                            }
                        }
                        for (auto i : is) {
                            delays.at(i + c)();
                            hits[c][i]++;
                        }
                        if (tid == 0) {
                            owner = -1;
                            if (failing && (r + c) % 3 == 0) {
                                throw std::runtime_error("boom");
                            }
                        }
                    });
                } catch (const std::exception&) { thrown[c]++; }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    VH_REQUIRE(!overlap, "two callers' runs overlapped");
    for (size_t c = 0; c < callers; ++c) {
        for (size_t i = 0; i < n; ++i) {
            VH_REQUIRE(failing || hits[c][i] == rounds, "caller {}: index {} was visited {} times in {} runs", c, i, hits[c][i], rounds);
        }
        VH_REQUIRE(failing || thrown[c] == 0, "caller {} got {} exceptions", c, thrown[c]);
    }
}

// One caller runs work while another changes the size: each run is by a whole team.
void resized_case(vh::Gen& g, vh::Ctx& ctx) {
    vh::jitter = g.flip();
    size_t start = g.range(1, 4), rounds = g.range(1, 12), changes = g.range(1, 6);
    ctx.describe("{} runs of a pool of {} while it is resized {} times", rounds, start, changes);
    ctx.interesting(rounds > 1);
    auto pool = Pool(start, g.pick<uint64_t>({1000, 1, 50}));
    std::set<size_t> sizes{start};
    std::vector<size_t> to;
    for (size_t i = 0; i < changes; ++i) {
        to.push_back(g.range(1, 5));
        sizes.insert(to.back());
    }
    auto delays = gen_delays(g);
    std::string wrong;
    std::thread resizer([&] {
        for (size_t i = 0; i < changes; ++i) {
            delays.at(1000 + i)();
            pool.resize(to[i]);
        }
    });
    for (size_t r = 0; r < rounds; ++r) {
        std::vector<uint32_t> hits(16, 0);
        auto f = [&](size_t tid) {
            delays.at(r * 16 + tid)();
            if (tid < 16) {
                hits[tid]++;
            }
        };
        pool.run(threads::FunctionRef(f));
        size_t n = std::count(hits.begin(), hits.end(), 1u);
        bool whole = sizes.count(n) && std::all_of(hits.begin(), hits.begin() + n, [](auto h) { return h == 1; }) && std::all_of(hits.begin() + n, hits.end(), [](auto h) { return h == 0; });
        if (!whole && wrong.empty()) {
            wrong = fmt::format("run {} called the threads {}", r, vh::show(hits, 16));
        }
    }
    resizer.join();
    VH_REQUIRE(wrong.empty(), "{}", wrong);
    VH_REQUIRE(pool.size() == to.back(), "the pool has {} threads instead of {}", pool.size(), to.back());
}

// One thread of its own.
void thread_case(vh::Gen& g, vh::Ctx& ctx) {
    vh::jitter = g.flip();
    uint64_t spin = g.pick<uint64_t>({1000, 1, 50, 3000});
    auto thread = std::make_unique<threads::Thread>(spin);
    std::vector<size_t> log;
    std::deque<std::function<void(size_t)>> jobs; // kept until the end
    size_t n = g.range(1, 60);
    auto delays = gen_delays(g);
    uint64_t pause_seed = g.seed();
    size_t crash_at = g.chance(1, 2) ? g.range(0, n) : n + 1;
    Throw how = Throw(1 + g.raw(2));
    ctx.describe("one thread, spin time {}, {} jobs, failing at {}", spin, n, crash_at);
    ctx.interesting(n > 3);
    std::vector<size_t> want;
    bool crashed = false;
    for (size_t i = 0; i < n && !crashed; ++i) {
        vh::Stream st(vh::mix(pause_seed, i));
        Delay{unsigned(st.below(12) < 6 ? 0 : st.below(4)), unsigned(st.below(4000))}();
        bool crash = i == crash_at;
        jobs.push_back([&, i, crash](size_t tid) {
            delays.at(i)();
            log.push_back(i * 10 + tid);
            if (crash) {
                fail_with(how, i);
            }
        });
        auto f = threads::FunctionRef(jobs.back());
        want.push_back(i * 10 + i % 7);
        if (st.below(3) == 0) {
            thread->unsafe_assign_blocking({f, i % 7});
            VH_REQUIRE(log == want, "after job {} the log is {}", i, vh::show(log, 12));
            VH_REQUIRE(thread->is_okay() == !crash, "after job {} the thread is {}", i, crash ? "okay" : "not okay");
        } else {
            thread->assign({f, i % 7});
        }
        if (st.below(8) == 0) {
            auto other = std::make_unique<threads::Thread>(std::move(*thread));
            thread = std::move(other);
        }
        VH_REQUIRE(!thread->is_shutdown(), "the thread says that it is shut down");
        crashed = crash;
    }
    thread->wait();
    VH_REQUIRE(log == want, "the log is {} instead of {}", vh::show(log, 12), vh::show(want, 12));
    if (crashed) {
        VH_REQUIRE(!thread->is_okay() && !thread->is_running(), "a failed thread says that it is okay");
        if (g.flip()) {
            bool error = false;
            auto job = [&](size_t) { log.push_back(99999); };
            try {
                thread->assign({threads::FunctionRef(job), 0});
            } catch (const std::exception& e) {
                error = true;
                VH_REQUIRE(std::string(e.what()).find(fmt::format("boom-{}-", crash_at)) != std::string::npos, "the message of the failure is lost: {}", e.what());
            }
            VH_REQUIRE(error, "work was assigned to a failed thread");
        } else {
            bool error = false;
            try {
                thread->unsafe_get_exception();
            } catch (const std::exception& e) {
                error = true;
                VH_REQUIRE(std::string(e.what()).find(fmt::format("boom-{}-", crash_at)) != std::string::npos, "the message of the failure is lost: {}", e.what());
            }
            VH_REQUIRE(error, "a failed thread has no exception");
        }
        VH_REQUIRE(log == want, "a failed thread ran something");
        ctx.label("failed");
    } else {
        VH_REQUIRE(thread->is_running(), "the thread is not running");
    }
    size_t times = g.range(0, 2);
    for (size_t i = 0; i < times; ++i) {
        thread->shutdown();
        VH_REQUIRE(crashed || thread->is_shutdown(), "after a shutdown the thread is not shut down");
        VH_REQUIRE(!thread->is_running(), "after a shutdown the thread is running");
    }
    if (times && !crashed) {
        auto job = [&](size_t) { log.push_back(99999); };
        VH_REQUIRE(vh::throws([&] { thread->assign({threads::FunctionRef(job), 0}); }), "work was assigned to a thread that is shut down");
        VH_REQUIRE(log == want, "a thread that is shut down ran something");
    }
}

// A worker on its way to sleep, with delays before and inside of the check whether it may sleep, and a request at any
// moment: it must wake up, and see the request.
void sleep_case(vh::Gen& g, vh::Ctx& ctx) {
    threads::ThreadControlBlock<threads::telemetry::ActionTelemetry> block{};
    size_t rounds = g.range(1, 12), stops = 0;
    ctx.describe("sleeping worker, {} rounds:", rounds);
    auto gen_delay = [&]() { return g.flip() ? Delay{0, 0} : Delay{unsigned(g.range(1, 3)), unsigned(g.raw(3000))}; };
    auto nothing = [](size_t) {};
    auto fn = threads::FunctionRef(nothing);
    for (size_t r = 0; r < rounds; ++r) {
        auto before = gen_delay(), inside = gen_delay(), ask = gen_delay();
        bool stop = g.flip(), at_check = g.flip();
        stops += stop;
        ctx.trace(" {}{}", stop ? "stop" : "work", at_check ? " during the check" : "");
        block.set_state(threads::ThreadState::Spinning);
        std::atomic<bool> checking{false};
        bool slept = false;
        auto worker = std::thread([&]() {
            slept = block.try_sleep([&]() { before(); }, [&]() {
                checking.store(true);
                inside();
            });
        });
        if (at_check) {
            while (!checking.load()) {
                sched_yield();
            }
        }
        ask();
        if (stop) {
            block.shutdown(false);
        } else {
            block.assign({fn, 0});
        }
        worker.join();
        auto want = stop ? threads::ThreadState::RequestShutdown : threads::ThreadState::Working;
        VH_REQUIRE(block.get_state() == want, "round {}: the worker finds {}", r, int(block.get_state()));
        VH_REQUIRE(slept || !at_check, "round {}: the worker was asleep but says that it was not", r);
    }
    ctx.interesting(rounds > 3 && stops > 0);
    ctx.label("slept");
}

// The control block with delays where the worker goes to sleep.
void block_case(vh::Gen& g, vh::Ctx& ctx) {
    vh::jitter = g.flip();
    auto block = threads::ThreadControlBlock<threads::telemetry::ActionTelemetry>();
    size_t n = g.range(1, 150);
    size_t spin = g.pick<size_t>({1, 2, 20, 300});
    uint64_t seed = g.seed();
    ctx.describe("control block, spin count {}, {} jobs", spin, n);
    ctx.interesting(n > 5);
    std::promise<void> promise{};
    auto future = promise.get_future();
    auto worker = std::thread([&](std::promise<void> p) { block.unsafe_run(std::move(p), spin); }, std::move(promise));
    block.wait_until_started();
    std::vector<size_t> log;
    auto job = [&](size_t i) { log.push_back(i); };
    auto f = threads::FunctionRef(job);
    vh::Stream st(seed);
    for (size_t i = 0; i < n; ++i) {
        auto d = st.below(10);
        if (d < 3) {
            Delay{unsigned(1 + st.below(3)), unsigned(st.below(3000))}();
        } else if (d == 3) {
            block.wait_while_busy();
            block.wait_until_fully_asleep();
        }
        block.assign({f, i});
        if (d == 5) {
            block.wait_while_busy();
            VH_REQUIRE(log.size() == i + 1 && log.back() == i, "job {} did not run before the worker was idle", i);
        }
    }
    block.wait_while_busy();
    bool complete = log.size() == n;
    for (size_t i = 0; i < log.size(); ++i) {
        complete &= log[i] == i;
    }
    VH_REQUIRE(block.is_okay() && !block.is_shutdown(), "the worker is not okay");
    block.shutdown();
    worker.join();
    future.get();
    VH_REQUIRE(complete, "the jobs that ran are {}", vh::show(log, 20));
    VH_REQUIRE(block.is_shutdown(), "the worker has not shut down");
    auto& t = block.get_telemetry();
    ctx.label(t.sleep_success_ > 0 ? "slept" : "never slept");
    if (t.sleep_fail_ > 0) {
        ctx.label("work arrived while going to sleep");
    }
}

/////
///// Guarded state
/////

struct Wide {
    std::array<uint64_t, 9> x{};
    std::vector<uint64_t> v{};
    Wide() = default;
    explicit Wide(uint64_t k) {
        x.fill(k);
        v.assign(1 + k % 5, k);
    }
    bool whole() const {
        for (auto y : x) {
            if (y != x[0]) {
                return false;
            }
        }
        for (auto y : v) {
            if (y != x[0]) {
                return false;
            }
        }
        return v.empty() ? x[0] == 0 : v.size() == 1 + x[0] % 5;
    }
};

void protected_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t readers = g.range(0, 3), writers = g.range(1, 3), rounds = g.skew(1, 200);
    ctx.describe("guarded value with {} readers and {} writers, {} rounds", readers, writers, rounds);
    ctx.interesting(readers > 0 && rounds > 2);
    using RW = lib::ReadWriteProtected<Wide>;
    uint64_t k0 = g.range(0, 100);
    RW shared = g.flip() ? RW(Wide(k0)) : RW();
    RW other{Wide(7)};
    bool copying = g.flip();
    std::atomic<bool> torn{false};
    std::vector<std::thread> ts;
    for (size_t r = 0; r < readers; ++r) {
        ts.emplace_back([&] {
            for (size_t i = 0; i < rounds; ++i) {
                auto w = std::as_const(shared).get();
                if (!w.whole()) {
                    torn = true;
                }
                if (copying && i % 4 == 0) {
                    RW copy(std::as_const(shared));
                    if (!copy.get().whole()) {
                        torn = true;
                    }
                }
            }
        });
    }
    for (size_t t = 0; t < writers; ++t) {
        ts.emplace_back([&, t] {
            for (size_t i = 0; i < rounds; ++i) {
                Wide w(t * 1000 + i + 1);
                if (copying && i % 3 == 0) {
                    RW from(w);
                    auto& ref = (shared = std::as_const(from));
                    if (&ref != &shared) {
                        torn = true;
                    }
                } else if (i % 2 == 0) {
                    shared.set(w);
                } else {
                    shared.set(std::move(w));
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    VH_REQUIRE(!torn, "a value was seen half-written");
    auto last = shared.get();
    bool ok = false;
    for (size_t t = 0; t < writers; ++t) {
        ok |= last.x[0] == t * 1000 + rounds;
    }
    VH_REQUIRE(last.whole() && ok, "the last value is {}", last.x[0]);
    // Special members.
    RW copy(shared);
    VH_REQUIRE(copy.get().x == last.x && shared.get().x == last.x, "copying lost the value");
    VH_REQUIRE(&(other = shared) == &other && other.get().x == last.x && shared.get().x == last.x, "assignment lost the value");
    auto& self = shared;
    shared = self;
    VH_REQUIRE(shared.get().x == last.x && shared.get().whole(), "self-assignment lost the value");
    RW moved(std::move(copy));
    VH_REQUIRE(moved.get().x == last.x && moved.get().whole(), "moving lost the value");
    RW assigned;
    VH_REQUIRE(&(assigned = std::move(moved)) == &assigned && assigned.get().x == last.x, "move assignment lost the value");
    auto taken = std::move(assigned).get();
    VH_REQUIRE(taken.x == last.x && taken.whole(), "taking the value lost it");
}

void spinlock_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.range(1, 4), rounds = g.skew(1, 300);
    ctx.describe("spin lock with {} threads, {} rounds", n, rounds);
    ctx.interesting(n > 1);
    vh::jitter = g.flip();
    SpinLock lock;
    uint64_t count = 0;
    std::atomic<size_t> failed{0}, lied{0};
    std::vector<std::thread> ts;
    bool trying = g.flip();
    for (size_t t = 0; t < n; ++t) {
        ts.emplace_back([&] {
            for (size_t i = 0; i < rounds; ++i) {
                if (trying && i % 2) {
                    if (!lock.try_lock()) {
                        ++failed;
                        continue;
                    }
                } else {
                    lock.lock();
                }
                auto c = count;
                lied += !lock.islocked() || lock.try_lock();
                if (i % 16 == 0) {
                    sched_yield();
                }
                count = c + 1;
                lock.unlock();
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    VH_REQUIRE(count + failed == n * rounds, "{} of {} increments survived", count, n * rounds - failed);
    VH_REQUIRE(lied == 0 && !lock.islocked() && lock.try_lock(), "the state of the lock is wrong");
}

void tls_case(vh::Gen& g, vh::Ctx& ctx) {
    size_t n = g.range(1, 8), rounds = g.range(1, 5);
    auto tls = g.flip() ? threads::SequentialTLS<std::vector<uint32_t>>(n) : threads::SequentialTLS<std::vector<uint32_t>>(std::vector<uint32_t>{}, n);
    std::vector<std::vector<uint32_t>> model(n);
    ctx.describe("thread-local storage for {} threads", n);
    ctx.interesting(n > 1);
    auto pool = Pool(n, 100);
    for (size_t r = 0; r < rounds; ++r) {
        if (g.chance(1, 3)) {
            size_t to = g.skew(0, 8);
            ctx.trace(" resize {}", to);
            tls.resize(to);
            to = std::max<size_t>(to, 1);
            auto first = model.front();
            model.resize(to, first);
            pool.resize(to);
        }
        VH_REQUIRE(tls.size() == model.size(), "size is {}", tls.size());
        threads::run(pool, [&](uint64_t tid) { tls.at(tid).push_back(uint32_t(r * 100 + tid)); });
        for (size_t t = 0; t < model.size(); ++t) {
            model[t].push_back(uint32_t(r * 100 + t));
            VH_REQUIRE(tls[t] == model[t] && std::as_const(tls).at(t) == model[t], "thread {} has {}", t, vh::show(tls[t], 10));
            for (size_t u = 0; u < t; ++u) {
                auto a = reinterpret_cast<uintptr_t>(&tls[t]), b = reinterpret_cast<uintptr_t>(&tls[u]);
                VH_REQUIRE(a / 64 != b / 64, "threads {} and {} share a cache line", t, u);
            }
        }
        size_t i = 0;
        tls.visit([&](auto& v) {
            VH_REQUIRE(i < model.size() && v == model[i], "visit passes {} as number {}", vh::show(v, 10), i);
            ++i;
        });
        VH_REQUIRE(i == model.size(), "visit passes {} values", i);
        VH_REQUIRE(vh::throws([&] { tls.at(model.size()); }), "at() past the end does not throw");
    }
}
} // namespace

VH_CASES("balance 64", 2) { balance_case<size_t, size_t>(g, ctx); }
VH_CASES("balance mixed", 1) { balance_case<uint32_t, size_t>(g, ctx); }
VH_CASES("balance int", 1) { balance_case<int64_t, uint8_t>(g, ctx); }
VH_CASES("range 64", 1) { unit_range_case<uint64_t>(g, ctx); }
VH_CASES("range 32", 1) { unit_range_case<uint32_t>(g, ctx); }
VH_CASES("range int", 1) { unit_range_case<int>(g, ctx); }
VH_CASES("pool", 10) { pool_case(g, ctx); }
VH_CASES("shared pool", 3) { shared_case(g, ctx); }
VH_CASES("resized pool", 2) { resized_case(g, ctx); }
VH_CASES("thread", 3) { thread_case(g, ctx); }
VH_CASES("control block", 3) { block_case(g, ctx); }
VH_CASES("sleeping worker", 1) { sleep_case(g, ctx); }
VH_CASES("guarded value", 2) { protected_case(g, ctx); }
VH_CASES("spin lock", 1) { spinlock_case(g, ctx); }
VH_CASES("thread local", 1) { tls_case(g, ctx); }
