// Driver: runs the registered groups in forked workers, shrinks the first failure, confirms
// it by replaying, and writes statistics and the replay file.
#include "vh.hpp"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vh {
int jitter = 0;
}

extern "C" void vh_pause() noexcept {
    static thread_local uint64_t s = reinterpret_cast<uintptr_t>(&s) * 0x9e3779b97f4a7c15ull;
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    unsigned r = unsigned(s >> 40);
    if (vh::jitter == 0) {
        if ((r & 63) == 0) {
            sched_yield();
        }
    } else if ((r & 7) == 0) {
        sched_yield();
    } else if ((r & 1023) == 1) {
        usleep(r >> 18);
    }
}

namespace vh {
std::vector<Group>& groups() {
    static std::vector<Group> g;
    return g;
}
uint64_t* rec_sink = nullptr;
char* desc_sink = nullptr;
std::set<std::string>& known_keys() {
    static std::set<std::string> k;
    return k;
}
} // namespace vh

using namespace vh;
using Clock = std::chrono::steady_clock;
static double now() {
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

namespace {

struct Slot { // in shared memory, one per worker (slot 0 also used by the replayer)
    volatile uint64_t index;
    volatile double started;
    volatile int busy;
    char message[6000];
    char description[8000];
    char key[200];
};

constexpr int CODE_OK = 0;
constexpr int CODE_FAIL = 10;

struct Options {
    std::string tier = "quick";
    uint64_t seed = 1;
    double seconds = 20;
    uint64_t min_cases = 0;
    unsigned workers = 8;
    std::string scratch = "";
    std::string out = "";
    std::string replay = "";
    std::string replay_out = "";
    std::string only = "";
    std::string tag = "";
    double hang = 60;
    double shrink_seconds = 60;
    bool list = false;
};
Options opt;
Slot* slots = nullptr;
std::vector<unsigned> table; // group schedule

void copy_to(char* dst, size_t n, const std::string& s) {
    size_t m = std::min(n - 1, s.size());
    memcpy(dst, s.data(), m);
    dst[m] = 0;
}

uint64_t case_seed(unsigned group, uint64_t index) {
    return mix(mix(opt.seed, hash_str(groups()[group].name)), index);
}

struct Worker {
    std::string dir;
    uint64_t evaluations = 0, discarded = 0, nontrivial = 0, known = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, std::map<std::string, uint64_t>> labels;
    std::map<std::string, uint64_t> per_group, per_group_nt;
    std::map<std::string, std::vector<std::string>> samples;
    std::set<std::string> known_hit;
};

void clear_dir(const std::string& dir) {
    std::error_code ec;
    for (auto& e : std::filesystem::directory_iterator(dir, ec)) {
        std::filesystem::remove_all(e.path(), ec);
    }
}

// Run one case in this process.  Returns true if it failed (slot filled in).
bool run_here(unsigned group, Gen& g, Ctx& ctx, Slot& slot) {
    slot.key[0] = 0;
    bool failed = false;
    std::string msg;
    try {
        groups()[group].fn(g, ctx);
    } catch (const Discard&) {
        ctx.labels["(discarded)"] += 1;
        ctx.nontrivial = false;
    } catch (const Fail& f) {
        if (!f.key.empty() && known_keys().count(f.key)) {
            ctx.known = true;
            copy_to(slot.key, sizeof(slot.key), f.key);
        } else {
            failed = true;
            msg = f.what();
        }
    } catch (const std::exception& e) {
        failed = true;
        msg = fmt::format("unexpected exception: {}", e.what());
    } catch (...) {
        failed = true;
        msg = "unexpected exception of a non-standard type";
    }
    copy_to(slot.description, sizeof(slot.description), ctx.description);
    if (failed) {
        copy_to(slot.message, sizeof(slot.message), msg);
    }
    return failed;
}

std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            o += fmt::format("\\u{:04x}", unsigned(c));
        } else {
            o += char(c);
        }
    }
    return o + "\"";
}

// --- worker process
[[noreturn]] void worker_main(unsigned w, double deadline) {
    Slot& slot = slots[w];
    Worker k;
    k.dir = opt.scratch + "/w" + std::to_string(w);
    std::filesystem::create_directories(k.dir);
    for (uint64_t i = w;; i += opt.workers) {
        if (now() >= deadline && (i >= opt.min_cases || now() >= deadline + 4 * opt.seconds)) {
            break;
        }
        // A different permutation of the schedule on every lap, so workers do not always
        // see the same groups.
        unsigned group = table[(i + i / table.size()) % table.size()];
        Gen g = Gen::fresh(case_seed(group, i));
        Ctx ctx;
        ctx.scratch = k.dir;
        slot.index = i;
        slot.started = now();
        slot.message[0] = 0;
        slot.description[0] = 0;
        slot.busy = 1;
        bool failed = run_here(group, g, ctx, slot);
        slot.busy = 0;
        if (failed) {
            _exit(CODE_FAIL);
        }
        auto& name = groups()[group].name;
        k.evaluations += 1;
        k.per_group[name] += 1;
        for (auto& [l, n] : ctx.labels) {
            k.labels[name][l] += 1;
        }
        if (ctx.labels.count("(discarded)")) {
            k.discarded += 1;
        }
        if (ctx.known) {
            k.known += 1;
            k.known_hit.insert(slot.key);
        }
        if (ctx.nontrivial) {
            k.nontrivial += 1;
            k.per_group_nt[name] += 1;
            uint64_t h = hash_str(name);
            for (auto c : g.rec) {
                h = mix(h, c);
            }
            k.hashes.insert(h);
            if (k.samples[name].size() < 1 && !ctx.description.empty()) {
                k.samples[name].push_back(ctx.description.substr(0, 700));
            }
        }
        clear_dir(k.dir);
    }
    // Write out the statistics.
    std::ofstream f(opt.scratch + "/stats" + std::to_string(w));
    f << "E " << k.evaluations << " " << k.discarded << " " << k.nontrivial << " " << k.known
      << "\n";
    for (auto& [n, c] : k.per_group) {
        f << "G " << c << " " << k.per_group_nt[n] << " " << n << "\n";
    }
    for (auto& [n, m] : k.labels) {
        for (auto& [l, c] : m) {
            f << "L " << c << "\t" << n << "\t" << l << "\n";
        }
    }
    for (auto& [n, v] : k.samples) {
        for (auto& s : v) {
            f << "S " << json_str(n + ": " + s) << "\n";
        }
    }
    for (auto& s : k.known_hit) {
        f << "K " << s << "\n";
    }
    f.close();
    std::ofstream h(opt.scratch + "/hash" + std::to_string(w), std::ios::binary);
    for (auto x : k.hashes) {
        h.write(reinterpret_cast<const char*>(&x), 8);
    }
    h.close();
    _exit(CODE_OK);
}

// --- running one candidate in a child
struct Outcome {
    enum { ok, fail, crash, hang } kind = ok;
    std::string message, description, log;
    std::vector<uint64_t> rec;
};

std::string tail(const std::string& path, size_t n) {
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    auto s = ss.str();
    return s.size() > n ? s.substr(0, n) : s;
}

uint64_t* rec_shared = nullptr; // [0] = count

Outcome run_child(unsigned group, const std::vector<uint64_t>* choices, uint64_t seed, double limit) {
    Slot& slot = slots[0];
    slot.message[0] = 0;
    slot.description[0] = 0;
    rec_shared[0] = 0;
    std::string dir = opt.scratch + "/replay";
    std::filesystem::create_directories(dir);
    clear_dir(dir);
    std::string log = opt.scratch + "/replay.log";
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        Gen g = choices ? Gen::replay(*choices) : Gen::fresh(seed);
        Ctx ctx;
        ctx.scratch = dir;
        rec_sink = rec_shared;
        desc_sink = slot.description;
        bool failed = run_here(group, g, ctx, slot);
        _exit(failed ? CODE_FAIL : CODE_OK);
    }
    double t0 = now();
    int status = 0;
    Outcome o;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            o.kind = Outcome::hang;
            o.description = slot.description;
            o.message = fmt::format("no result within {} s (normal cases take milliseconds)", limit);
            return o;
        }
        usleep(now() - t0 < 0.05 ? 200 : 5000);
    }
    o.description = slot.description;
    if (WIFEXITED(status) && WEXITSTATUS(status) == CODE_OK) {
        o.kind = Outcome::ok;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == CODE_FAIL) {
        o.kind = Outcome::fail;
        o.message = slot.message;
    } else {
        o.kind = Outcome::crash;
        o.log = tail(log, 4000);
        o.message = WIFSIGNALED(status)
                        ? fmt::format("crashed with signal {}", WTERMSIG(status))
                        : fmt::format("exited with status {}", WEXITSTATUS(status));
    }
    o.rec.assign(rec_shared + 1, rec_shared + 1 + rec_shared[0]);
    return o;
}

struct Candidate {
    bool by_seed = true;
    uint64_t seed = 0;
    std::vector<uint64_t> choices;
};

Outcome run_candidate(unsigned group, const Candidate& c, double limit) {
    return run_child(group, c.by_seed ? nullptr : &c.choices, c.seed, limit);
}

} // namespace

namespace {
void shrink(unsigned group, Candidate& best, Outcome& out) {
    double end = now() + opt.shrink_seconds;
    if (best.by_seed || out.kind == Outcome::hang) {
        return;
    }
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (cand == best.choices || now() > end) {
            return false;
        }
        Candidate c;
        c.by_seed = false;
        c.choices = std::move(cand);
        auto o = run_candidate(group, c, 20);
        if (o.kind == Outcome::ok || o.kind == Outcome::hang) {
            return false;
        }
        if (!o.rec.empty() && o.rec.size() < c.choices.size()) {
            c.choices = o.rec; // drop unused choices
        }
        best = c;
        out = o;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // Delete chunks, from the end.
        for (size_t len : {64u, 16u, 8u, 4u, 2u, 1u}) {
            for (size_t at = best.choices.size(); at-- > 0 && now() < end;) {
                if (at + len > best.choices.size()) {
                    continue;
                }
                auto c = best.choices;
                c.erase(c.begin() + at, c.begin() + at + len);
                if (attempt(c)) {
                    progress = true;
                }
            }
        }
        // Lower single choices.
        for (size_t i = 0; i < best.choices.size() && now() < end; ++i) {
            uint64_t v = best.choices[i];
            if (v == 0) {
                continue;
            }
            auto c = best.choices;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = v; // lo passes, hi fails
            for (int k = 0; k < 24 && hi - lo > 1 && now() < end; ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                if (i >= best.choices.size()) {
                    break;
                }
                c = best.choices;
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
    }
}

void write_replay(const std::string& path, unsigned group, const Candidate& c, const Outcome& o) {
    std::ofstream f(path);
    f << "vh-replay 1\n";
    f << "tag " << opt.tag << "\n";
    f << "group " << groups()[group].name << "\n";
    if (c.by_seed) {
        f << "seed " << c.seed << "\n";
    } else {
        f << "choices " << c.choices.size();
        for (auto v : c.choices) {
            f << " " << v;
        }
        f << "\n";
    }
    auto comment = [&](const std::string& s) {
        std::istringstream in(s);
        std::string line;
        while (std::getline(in, line)) {
            f << "# " << line << "\n";
        }
    };
    comment("what failed: " + o.message);
    comment("case: " + o.description);
    if (!o.log.empty()) {
        comment("log:\n" + o.log);
    }
}

int replay_main() {
    std::ifstream f(opt.replay);
    std::string word, line, gname;
    Candidate c;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> word;
        if (word == "group") {
            std::getline(in >> std::ws, gname);
        } else if (word == "seed") {
            in >> c.seed;
            c.by_seed = true;
        } else if (word == "choices") {
            size_t n;
            in >> n;
            c.choices.resize(n);
            for (auto& v : c.choices) {
                in >> v;
            }
            c.by_seed = false;
        }
    }
    for (unsigned i = 0; i < groups().size(); ++i) {
        if (groups()[i].name == gname) {
            auto o = run_candidate(i, c, opt.hang);
            std::cout << "case: " << o.description << "\n";
            std::cout << (o.kind == Outcome::ok ? "PASSES" : "FAILS: " + o.message) << "\n"
                      << o.log << "\n";
            return o.kind == Outcome::ok ? 0 : 1;
        }
    }
    std::cout << "no such group: " << gname << "\n";
    return 3;
}
} // namespace

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc + 1; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--tier") {
            opt.tier = val();
        } else if (a == "--seed") {
            opt.seed = std::stoull(val());
        } else if (a == "--seconds") {
            opt.seconds = std::stod(val());
        } else if (a == "--min-cases") {
            opt.min_cases = std::stoull(val());
        } else if (a == "--workers") {
            opt.workers = std::stoul(val());
        } else if (a == "--scratch") {
            opt.scratch = val();
        } else if (a == "--out") {
            opt.out = val();
        } else if (a == "--replay") {
            opt.replay = val();
        } else if (a == "--replay-out") {
            opt.replay_out = val();
        } else if (a == "--only") {
            opt.only = val();
        } else if (a == "--tag") {
            opt.tag = val();
        } else if (a == "--hang") {
            opt.hang = std::stod(val());
        } else if (a == "--shrink") {
            opt.shrink_seconds = std::stod(val());
        } else if (a == "--known") {
            known_keys().insert(val());
        } else if (a == "--list") {
            opt.list = true;
        } else {
            std::cerr << "unknown option " << a << "\n";
            return 3;
        }
    }
    std::sort(groups().begin(), groups().end(), [](auto& a, auto& b) { return a.name < b.name; });
    if (opt.list) {
        for (auto& g : groups()) {
            std::cout << g.name << " " << g.weight << "\n";
        }
        return 0;
    }
    if (!opt.only.empty()) {
        std::erase_if(groups(), [](auto& g) { return g.name.find(opt.only) == std::string::npos; });
    }
    if (groups().empty() || opt.scratch.empty()) {
        std::cerr << "no groups or no scratch directory\n";
        return 3;
    }
    std::filesystem::create_directories(opt.scratch);
    void* mem = mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots = static_cast<Slot*>(mem);
    rec_shared = static_cast<uint64_t*>(
        mmap(nullptr, REC_MAX * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)
    );
    if (!opt.replay.empty()) {
        return replay_main();
    }
    // Interleave the groups in proportion to their weights.
    {
        std::vector<double> acc(groups().size(), 0);
        unsigned total = 0;
        for (auto& g : groups()) {
            total += g.weight;
        }
        for (unsigned n = 0; n < total; ++n) {
            unsigned best = 0;
            for (unsigned i = 0; i < groups().size(); ++i) {
                acc[i] += double(groups()[i].weight) / total;
                if (acc[i] > acc[best]) {
                    best = i;
                }
            }
            acc[best] -= 1;
            table.push_back(best);
        }
    }
    double t0 = now();
    double deadline = t0 + opt.seconds;
    std::vector<pid_t> pids(opt.workers);
    std::vector<std::string> logs(opt.workers);
    for (unsigned w = 0; w < opt.workers; ++w) {
        slots[w].busy = 0;
        logs[w] = opt.scratch + "/log" + std::to_string(w);
        pid_t p = fork();
        if (p == 0) {
            int fd = open(logs[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            worker_main(w, deadline);
        }
        pids[w] = p;
    }
    struct Bad {
        unsigned worker;
        uint64_t index;
        int kind;
        std::string message, description, log;
    };
    std::vector<Bad> bad;
    unsigned live = opt.workers;
    std::vector<bool> done(opt.workers, false);
    while (live) {
        for (unsigned w = 0; w < opt.workers; ++w) {
            if (done[w]) {
                continue;
            }
            int status;
            pid_t r = waitpid(pids[w], &status, WNOHANG);
            if (r == pids[w]) {
                done[w] = true;
                --live;
                if (WIFEXITED(status) && WEXITSTATUS(status) == CODE_OK) {
                    continue;
                }
                if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                    // Ended from outside (memory guard): not a verdict on the code unless a
                    // replay below reproduces it.
                }
                Bad b{w, slots[w].index, Outcome::crash, "", slots[w].description, tail(logs[w], 4000)};
                if (WIFEXITED(status) && WEXITSTATUS(status) == CODE_FAIL) {
                    b.kind = Outcome::fail;
                    b.message = slots[w].message;
                } else {
                    b.message = WIFSIGNALED(status)
                                    ? fmt::format("crashed with signal {}", WTERMSIG(status))
                                    : fmt::format("exited with status {}", WEXITSTATUS(status));
                }
                bad.push_back(b);
            } else if (slots[w].busy && now() - slots[w].started > opt.hang) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                done[w] = true;
                --live;
                bad.push_back(
                    {w, slots[w].index, Outcome::hang, fmt::format("no result within {} s", opt.hang), "", ""}
                );
            }
        }
        if (!bad.empty() && live) {
            // Give the others a moment, then stop: one failure is enough.
            usleep(200000);
            for (unsigned w = 0; w < opt.workers; ++w) {
                if (!done[w]) {
                    kill(pids[w], SIGKILL);
                    int status;
                    waitpid(pids[w], &status, 0);
                    done[w] = true;
                    --live;
                }
            }
        }
        usleep(2000);
    }
    // Merge statistics.
    uint64_t ev = 0, disc = 0, nt = 0, kn = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> pg;
    std::map<std::string, uint64_t> lab;
    std::map<std::string, std::string> samples;
    std::set<std::string> kh;
    std::unordered_set<uint64_t> hashes;
    for (unsigned w = 0; w < opt.workers; ++w) {
        std::ifstream f(opt.scratch + "/stats" + std::to_string(w));
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream in(line.substr(2));
            if (line[0] == 'E') {
                uint64_t a, b, c, d;
                in >> a >> b >> c >> d;
                ev += a;
                disc += b;
                nt += c;
                kn += d;
            } else if (line[0] == 'G') {
                uint64_t a, b;
                std::string n;
                in >> a >> b;
                std::getline(in >> std::ws, n);
                pg[n].first += a;
                pg[n].second += b;
            } else if (line[0] == 'L') {
                uint64_t c;
                std::string rest;
                in >> c;
                std::getline(in, rest);
                auto p = rest.find('\t', 1);
                lab[rest.substr(1, p - 1) + " / " + rest.substr(p + 1)] += c;
            } else if (line[0] == 'S') {
                auto s = line.substr(2);
                auto key = s.substr(0, s.find(':'));
                if (!samples.count(key)) {
                    samples[key] = s;
                }
            } else if (line[0] == 'K') {
                kh.insert(line.substr(2));
            }
        }
        std::ifstream h(opt.scratch + "/hash" + std::to_string(w), std::ios::binary);
        uint64_t x;
        while (h.read(reinterpret_cast<char*>(&x), 8)) {
            hashes.insert(x);
        }
    }
    for (auto& b : bad) { // the workers that stopped had done this much
        ev += b.index / opt.workers + 1;
    }
    // Judge failures.
    bool violation = false;
    std::string unreproduced;
    std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) {
        return std::pair(a.kind, a.index) < std::pair(b.kind, b.index);
    });
    for (auto& b : bad) {
        unsigned group = table[(b.index + b.index / table.size()) % table.size()];
        Candidate c;
        c.seed = case_seed(group, b.index);
        std::cout << fmt::format(
                         "{}: case {} of group '{}' failed: {}\n  case: {}\n",
                         opt.tag, b.index, groups()[group].name, b.message, b.description
                     )
                  << std::flush;
        if (!b.log.empty()) {
            std::cout << b.log.substr(0, 3000) << "\n";
        }
        // Reproduce (a failure that depends on thread timing gets more attempts).
        unsigned tries = b.kind == Outcome::hang ? 2 : 40, need = b.kind == Outcome::hang ? 2 : 3;
        unsigned seen = 0, ran = 0;
        Outcome last;
        double replay_end = now() + 150;
        for (; ran < tries && seen < need && now() < replay_end; ++ran) {
            auto o = run_candidate(group, c, opt.hang);
            if (o.kind != Outcome::ok) {
                ++seen;
                last = o;
            } else if (b.kind == Outcome::hang) {
                break;
            }
        }
        if (seen < need) {
            unreproduced += fmt::format(
                "[{} case {}: failed {} of {} replays] ", groups()[group].name, b.index, seen, ran
            );
            std::cout << "  not reproduced: " << seen << " of " << ran << " replays failed\n";
            continue;
        }
        bool stable = seen == ran;
        if (stable && last.kind != Outcome::hang) {
            if (!last.rec.empty()) {
                c.choices = last.rec;
                c.by_seed = false;
                auto o = run_candidate(group, c, opt.hang);
                if (o.kind == Outcome::ok) {
                    c.by_seed = true;
                } else {
                    last = o;
                    shrink(group, c, last);
                }
            }
            // confirm 3x
            unsigned again = 0;
            for (int k = 0; k < 3; ++k) {
                auto o = run_candidate(group, c, opt.hang);
                if (o.kind != Outcome::ok) {
                    ++again;
                    last = o;
                }
            }
            if (again < 3) {
                c.by_seed = true;
            }
        }
        std::cout << "  minimal case: " << last.description << "\n  fails with: " << last.message
                  << "\n";
        if (!opt.replay_out.empty()) {
            write_replay(opt.replay_out, group, c, last);
        }
        violation = true;
        break;
    }
    if (!opt.out.empty()) {
        std::ofstream f(opt.out);
        f << "{\"tag\": " << json_str(opt.tag) << ", \"evaluations\": " << ev
          << ", \"discarded\": " << disc << ", \"nontrivial\": " << nt
          << ", \"distinct_nontrivial\": " << hashes.size() << ", \"known\": " << kn
          << ", \"violation\": " << (violation ? "true" : "false")
          << ", \"unreproduced\": " << json_str(unreproduced)
          << ", \"wall_s\": " << (now() - t0) << ", \"groups\": {";
        bool first = true;
        for (auto& [n, p] : pg) {
            f << (first ? "" : ", ") << json_str(n) << ": {\"cases\": " << p.first
              << ", \"nontrivial\": " << p.second << "}";
            first = false;
        }
        f << "}, \"labels\": {";
        first = true;
        for (auto& [n, c] : lab) {
            f << (first ? "" : ", ") << json_str(n) << ": " << c;
            first = false;
        }
        f << "}, \"samples\": [";
        first = true;
        for (auto& [n, s] : samples) {
            f << (first ? "" : ", ") << s;
            first = false;
        }
        f << "], \"known_hit\": [";
        first = true;
        for (auto& s : kh) {
            f << (first ? "" : ", ") << json_str(s);
            first = false;
        }
        f << "]}\n";
    }
    return violation ? 1 : 0;
}
