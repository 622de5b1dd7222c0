// Choice-sequence property-based testing engine.
//
// A case is a pure function of a finite sequence of choices. In search mode the choices come from a PRNG seeded with
// (seed, property, case index); in replay mode from a recorded sequence (missing choices read as 0, the simplest value).
// Workers are forked processes: a crash, a sanitizer report or a hang of the code under test is a failure of that case
// and does not stop the search. The first failure is shrunk (delete / zero / minimise choices, keeping the same failure
// kind), replayed three times in fresh processes, and written to a replay file.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

struct Discard {};  // case is outside the domain of the property (counted)
struct Failure {
    std::string kind, msg;
};

constexpr size_t MAX_CHOICES = 1u << 18;

// choices are mirrored into shared memory so that they survive a crash of the worker
struct Shared {
    std::atomic<uint64_t> beat;       // cases started
    std::atomic<int64_t> caseIndex;   // running case
    std::atomic<uint32_t> n;          // choices recorded
    std::atomic<int> outcome;         // 0 running, 1 ok, 2 failure, 3 discard
    char kind[128];
    char msg[8192];
    uint32_t choices[MAX_CHOICES];
};

class Src {
public:
    Src(uint64_t seed, Shared* sh) : mState(seed), mShared(sh) {}
    Src(const std::vector<uint32_t>& replay, Shared* sh) : mReplay(&replay), mShared(sh) {}

    // uniform in [0,n); 0 is the simplest choice
    uint32_t below(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v = 0;
        if (mReplay) {
            v = (mPos < mReplay->size()) ? (*mReplay)[mPos] % n : 0;
        } else {
            v = static_cast<uint32_t>(splitmix(mState) % n);
        }
        if (mPos < MAX_CHOICES) {
            mShared->choices[mPos] = v;
            mShared->n.store(static_cast<uint32_t>(mPos + 1), std::memory_order_relaxed);
        }
        ++mPos;
        return v;
    }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
    bool chance(int pct) { return static_cast<int>(below(100)) >= 100 - pct; }  // simplest: false
    bool coin() { return below(2) != 0; }
    uint64_t bits64() { return (uint64_t(below(0x10000)) << 48) | (uint64_t(below(0x10000)) << 32) | (uint64_t(below(0x10000)) << 16) | below(0x10000); }
    template <class C>
    const typename C::value_type& pick(const C& c) {
        return c[below(static_cast<uint32_t>(c.size()))];
    }
    // index into weights
    size_t weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }
    size_t weighted(const std::vector<int>& w) {
        int total = 0;
        for (int x : w) total += x;
        int v = static_cast<int>(below(static_cast<uint32_t>(total)));
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return w.size() - 1;
    }
    // for loops: "one more element?" (simplest: stop)
    bool more(int pctContinue) { return chance(pctContinue); }
    size_t used() const { return mPos; }

private:
    uint64_t mState = 0;
    const std::vector<uint32_t>* mReplay = nullptr;
    size_t mPos = 0;
    Shared* mShared;
};

struct Rep {
    bool verbose = false;
    std::ostringstream desc;      // filled when verbose
    bool nontrivial = false;
    uint64_t hash = 0;            // identity of the case (for counting distinct ones)
    std::map<std::string, uint64_t> labels;
    void label(const std::string& s, uint64_t n = 1) { labels[s] += n; }
    [[noreturn]] void fail(const std::string& kind, const std::string& msg) { throw Failure{kind, msg}; }
};

using PropFn = std::function<void(Src&, Rep&)>;
struct Prop {
    PropFn fn;
    std::string rule;
    uint64_t quick = 1000, thorough = 20000;
};

inline std::string jsonEsc(const std::string& s) {
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}
inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC_RAW, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline Shared* newShared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shared*>(p);
}

// Hooks a harness may override.
inline std::function<void()>& onFailureExit() {  // called in the worker after a failure was recorded
    static std::function<void()> f;
    return f;
}

inline Rep*& hangRep() { static Rep* r = nullptr; return r; }
inline int& hangFd() { static int fd = -1; return fd; }
inline void dumpDesc() {
    if (hangRep() && hangFd() >= 0) {
        std::string d = hangRep()->desc.str();
        if (d.size() > 60000 && !getenv("PBT_FULL")) d = d.substr(0, 20000) + "\n...\n" + d.substr(d.size() - 40000);
        ssize_t r = write(hangFd(), d.data(), d.size());
        (void)r;
    }
}
inline Shared*& current() { static Shared* s = nullptr; return s; }
// record a failure from any thread/context and end this process
[[noreturn]] inline void dieWithFailure(const std::string& kind, const std::string& msg) {
    Shared* sh = current();
    if (sh) {
        snprintf(sh->kind, sizeof sh->kind, "%s", kind.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        sh->outcome.store(2);
    }
    fprintf(stderr, "FAIL %s: %s\n", kind.c_str(), msg.c_str());
    dumpDesc();
    _exit(77);
}

// Runs one case in this process. Returns outcome 1/2/3.
inline int runCase(const Prop& p, Src& src, Rep& rep, Shared* sh) {
    current() = sh;
    sh->n.store(0);
    sh->outcome.store(0);
    int out = 1;
    try {
        p.fn(src, rep);
    } catch (const Discard&) {
        out = 3;
    } catch (const Failure& f) {
        snprintf(sh->kind, sizeof sh->kind, "%s", f.kind.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
        out = 2;
    } catch (const std::exception& e) {
        snprintf(sh->kind, sizeof sh->kind, "exception");
        snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", e.what());
        out = 2;
    }
    sh->outcome.store(out);
    return out;
}

struct Outcome {
    bool failed = false;
    bool discarded = false;
    std::string kind, msg;
    std::vector<uint32_t> choices;
    std::string desc;
};

inline void onHang(int) {  // a hung verbose case still tells what it was
    dumpDesc();
    _exit(78);
}

// Runs one case in a forked child; src either replay or seed.
inline Outcome runForked(const Prop& p, Shared* sh, const std::vector<uint32_t>* replay, uint64_t seed, int timeoutSec, bool verbose,
                         bool quiet = true) {
    sh->n.store(0);
    sh->outcome.store(0);
    sh->kind[0] = sh->msg[0] = 0;
    std::string descFile;
    int fds[2] = {-1, -1};
    if (verbose && pipe(fds) != 0) fds[0] = fds[1] = -1;
    FILE* errf = tmpfile();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (fds[0] >= 0) close(fds[0]);
        if (quiet && errf) { dup2(fileno(errf), 2); dup2(fileno(errf), 1); }
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        Rep rep;
        rep.verbose = verbose;
        if (fds[1] >= 0) { hangRep() = &rep; hangFd() = fds[1]; signal(SIGUSR1, onHang); }
        int out;
        if (replay) { Src s(*replay, sh); out = runCase(p, s, rep, sh); }
        else { Src s(seed, sh); out = runCase(p, s, rep, sh); }
        if (fds[1] >= 0) {
            std::string d = rep.desc.str();
            if (d.size() > 60000) d.resize(60000);
            ssize_t r = write(fds[1], d.data(), d.size());
            (void)r;
        }
        _exit(out == 2 ? 77 : 0);
    }
    if (fds[1] >= 0) close(fds[1]);
    double deadline = now() + timeoutSec;
    int st = 0;
    bool hung = false;
    std::string desc;
    if (fds[0] >= 0) fcntl(fds[0], F_SETFL, O_NONBLOCK);
    auto drain = [&]() {
        if (fds[0] < 0) return;
        char b[4096];
        ssize_t r;
        while ((r = read(fds[0], b, sizeof b)) > 0) desc.append(b, static_cast<size_t>(r));
    };
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        drain();
        if (r == pid) break;
        if (now() > deadline) {
            if (fds[0] >= 0) { kill(pid, SIGUSR1); usleep(200000); drain(); }
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(nap);
        if (nap < 5000) nap += 200;
    }
    drain();
    if (fds[0] >= 0) close(fds[0]);
    Outcome o;
    uint32_t n = std::min<uint32_t>(sh->n.load(), MAX_CHOICES);
    o.choices.assign(sh->choices, sh->choices + n);
    o.desc = desc;
    int oc = sh->outcome.load();
    std::string err;
    if (errf) {
        fflush(errf);
        fseek(errf, 0, SEEK_SET);
        char b[4096];
        size_t r;
        while ((r = fread(b, 1, sizeof b, errf)) > 0 && err.size() < 200000) err.append(b, r);
        fclose(errf);
    }
    if (hung) {
        o.failed = true;
        o.kind = "hang";
        o.msg = "case did not finish within " + std::to_string(timeoutSec) + " s";
    } else if (oc == 2) {
        o.failed = true;
        o.kind = sh->kind;
        o.msg = sh->msg;
    } else if (oc == 3) {
        o.discarded = true;
    } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        o.failed = true;
        o.kind = "crash";
        size_t q = err.find("ERROR: AddressSanitizer");
        if (q == std::string::npos) q = err.find("runtime error:");
        if (q == std::string::npos) q = err.find("ERROR: LeakSanitizer");
        if (q != std::string::npos) {
            std::string line = err.substr(q, 160);
            std::istringstream is(line.substr(0, line.find('\n')));
            std::string w1, w2, w3;
            is >> w1 >> w2 >> w3;
            o.kind = "crash:" + (w1 == "ERROR:" ? w3 : std::string("ubsan"));
        }
        o.msg = WIFSIGNALED(st) ? ("killed by signal " + std::to_string(WTERMSIG(st))) : ("exit status " + std::to_string(WEXITSTATUS(st)));
        if (!err.empty()) o.msg += "\n" + (q != std::string::npos ? err.substr(q, 3000) : err.substr(err.size() > 2000 ? err.size() - 2000 : 0));
    }
    return o;
}

inline std::vector<uint32_t> shrink(const Prop& p, Shared* sh, Outcome best, double budgetSec, int caseTimeout, int maxRuns, Outcome& outBest,
                                    int& runs) {
    double end = now() + budgetSec;
    std::string kind = best.kind;
    runs = 0;
    auto tryIt = [&](const std::vector<uint32_t>& c) {
        if (now() > end || runs >= maxRuns) return false;
        ++runs;
        Outcome o = runForked(p, sh, &c, 0, caseTimeout, false);
        if (o.failed && o.kind == kind) {
            if (o.choices.size() < best.choices.size() || (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
                best = o;
                return true;
            }
        }
        return false;
    };
    bool improved = true;
    while (improved && now() < end && runs < maxRuns) {
        improved = false;
        for (size_t len : {256u, 64u, 32u, 16u, 8u, 7u, 6u, 5u, 4u, 3u, 2u, 1u}) {
            if (len > best.choices.size()) continue;
            for (size_t i = best.choices.size(); i >= len && i > 0;) {
                size_t start = i - len;
                if (start + len > best.choices.size()) { i = best.choices.size(); if (i < len) break; start = i - len; }
                std::vector<uint32_t> c = best.choices;
                c.erase(c.begin() + start, c.begin() + start + len);
                if (tryIt(c)) { improved = true; i = std::min(i, best.choices.size()); if (i < len) break; }
                else { if (i <= 1) break; i -= std::max<size_t>(1, len / 2); if (i < len) break; }
                if (now() > end || runs >= maxRuns) break;
            }
        }
        for (size_t len : {8u, 4u, 2u, 1u}) {
            for (size_t i = 0; i + len <= best.choices.size(); i += len) {
                bool nz = false;
                for (size_t k = i; k < i + len; ++k) nz |= best.choices[k] != 0;
                if (!nz) continue;
                std::vector<uint32_t> c = best.choices;
                std::fill(c.begin() + i, c.begin() + i + len, 0u);
                if (tryIt(c)) improved = true;
                if (now() > end || runs >= maxRuns) break;
            }
        }
        for (size_t i = 0; i < best.choices.size(); ++i) {
            uint32_t lo = 0, hi = best.choices[i];
            while (lo < hi && now() < end && runs < maxRuns) {
                uint32_t mid = lo + (hi - lo) / 2;
                if (mid == hi) break;
                std::vector<uint32_t> c = best.choices;
                c[i] = mid;
                if (tryIt(c)) { improved = true; if (i >= best.choices.size()) break; hi = best.choices[i]; }
                else lo = mid + 1;
            }
        }
    }
    outBest = best;
    return best.choices;
}

inline std::vector<uint32_t> parseChoices(const std::string& text) {
    std::vector<uint32_t> r;
    size_t q = text.find("\"choices\"");
    if (q == std::string::npos) return r;
    q = text.find('[', q);
    size_t e = text.find(']', q);
    std::string body = text.substr(q + 1, e - q - 1);
    for (char& c : body)
        if (c == ',') c = ' ';
    std::istringstream is(body);
    uint32_t v;
    while (is >> v) r.push_back(v);
    return r;
}
inline std::string jsonField(const std::string& text, const std::string& key) {
    size_t q = text.find("\"" + key + "\"");
    if (q == std::string::npos) return "";
    q = text.find('"', text.find(':', q));
    std::string r;
    for (++q; q < text.size() && text[q] != '"'; ++q) r += text[q];
    return r;
}

inline int mainImpl(int argc, char** argv, const std::map<std::string, Prop>& props, const std::map<std::string, std::function<bool(std::string&)>>& known = {}) {
    std::string name, out, replayFile, replayOut, knownId, tier = "quick";
    uint64_t seed = 1, cases = 0;
    int jobs = 8, caseTimeout = 20;
    double maxSec = 600, mult = 1.0;
    int64_t single = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") name = nxt();
        else if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(nxt().c_str());
        else if (a == "--tier") tier = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--replay") replayFile = nxt();
        else if (a == "--replay-out") replayOut = nxt();
        else if (a == "--max-seconds") maxSec = atof(nxt().c_str());
        else if (a == "--case") single = atoll(nxt().c_str());
        else if (a == "--known") knownId = nxt();
        else if (a == "--mult") mult = atof(nxt().c_str());
        else if (a == "--case-timeout") caseTimeout = atoi(nxt().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (!knownId.empty()) {
        auto it = known.find(knownId);
        if (it == known.end()) { fprintf(stderr, "no such known finding %s\n", knownId.c_str()); return 3; }
        std::string what;
        bool still = it->second(what);
        printf("%s %s\n", still ? "STILL-FAILS" : "NOT-FAILING", what.c_str());
        return 0;
    }
    Shared* sh = newShared();
    if (!replayFile.empty()) {
        std::ifstream f(replayFile);
        std::stringstream ss;
        ss << f.rdbuf();
        if (name.empty()) name = jsonField(ss.str(), "prop");
        auto it = props.find(name);
        if (it == props.end()) { fprintf(stderr, "unknown property %s\n", name.c_str()); return 3; }
        auto ch = parseChoices(ss.str());
        Outcome o = runForked(it->second, sh, &ch, 0, caseTimeout, true, true);
        printf("%s\n", o.desc.c_str());
        if (o.failed) { printf("REPLAY FAILS kind=%s\n%s\n", o.kind.c_str(), o.msg.c_str()); return 1; }
        printf("REPLAY PASSES\n");
        return 0;
    }
    auto it = props.find(name);
    if (it == props.end()) {
        fprintf(stderr, "properties:\n");
        for (auto& kv : props) fprintf(stderr, "  %s\n", kv.first.c_str());
        return 3;
    }
    const Prop& p = it->second;
    if (cases == 0) cases = static_cast<uint64_t>((tier == "thorough" ? p.thorough : p.quick) * mult);
    auto caseSeed = [&](uint64_t i) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ULL + hashStr(name) + i * 0xd1342543de82ef95ULL;
        return splitmix(s);
    };
    if (single >= 0) {
        Outcome o = runForked(p, sh, nullptr, caseSeed(static_cast<uint64_t>(single)), caseTimeout, true, false);
        printf("%s\n%s %s %s\n", o.desc.c_str(), o.failed ? "FAILED" : o.discarded ? "DISCARDED" : "OK", o.kind.c_str(), o.msg.c_str());
        return o.failed ? 1 : 0;
    }
    double t0 = now();
    std::vector<Shared*> shs;
    std::vector<pid_t> pids(jobs, -1);
    std::vector<FILE*> stats;
    std::vector<uint64_t> nextCase(jobs);
    for (int j = 0; j < jobs; ++j) {
        shs.push_back(newShared());
        stats.push_back(tmpfile());
        nextCase[j] = static_cast<uint64_t>(j);
    }
    auto spawn = [&](int j) {
        shs[j]->beat.store(0);
        shs[j]->outcome.store(0);
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            dup2(dn, 2);
            uint64_t done = 0, nontriv = 0, disc = 0;
            std::unordered_set<uint64_t> seen;
            std::map<std::string, uint64_t> labels;
            int rc = 0;
            for (uint64_t i = nextCase[j]; i < cases; i += static_cast<uint64_t>(jobs)) {
                if (now() - t0 > maxSec) break;
                shs[j]->caseIndex.store(static_cast<int64_t>(i));
                shs[j]->beat.fetch_add(1);
                Rep rep;
                Src src(caseSeed(i), shs[j]);
                int o = runCase(p, src, rep, shs[j]);
                ++done;
                if (o == 2) { rc = 77; break; }
                if (o == 3) { ++disc; }
                else if (rep.nontrivial) { ++nontriv; seen.insert(rep.hash); }
                for (auto& kv : rep.labels) labels[kv.first] += kv.second;
            }
            FILE* f = stats[j];
            fprintf(f, "S %llu %llu %llu\n", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)disc);
            for (auto& kv : labels) fprintf(f, "L %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            for (uint64_t h : seen) fprintf(f, "H %llx\n", (unsigned long long)h);
            fflush(f);
            _exit(rc);
        }
        pids[j] = pid;
    };
    for (int j = 0; j < jobs; ++j) spawn(j);
    std::vector<uint64_t> lastBeat(jobs, 0);
    std::vector<double> lastT(jobs, now());
    int64_t failCase = -1;
    Outcome fail;
    int unconfirmed = 0;
    int live = jobs;
    while (live > 0) {
        live = 0;
        usleep(20000);
        for (int j = 0; j < jobs; ++j) {
            if (pids[j] < 0) continue;
            int st = 0;
            pid_t r = waitpid(pids[j], &st, WNOHANG);
            bool suspicious = false;
            if (r == pids[j]) {
                pids[j] = -1;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) suspicious = true;
            } else {
                ++live;
                uint64_t b = shs[j]->beat.load();
                if (b != lastBeat[j]) { lastBeat[j] = b; lastT[j] = now(); }
                else if (now() - lastT[j] > caseTimeout) {
                    kill(pids[j], SIGKILL);
                    waitpid(pids[j], &st, 0);
                    pids[j] = -1;
                    --live;
                    suspicious = true;
                }
            }
            if (suspicious) {
                int64_t ci = shs[j]->caseIndex.load();
                // kill the others while confirming
                Outcome o = runForked(p, sh, nullptr, caseSeed(static_cast<uint64_t>(ci)), caseTimeout, false);
                if (!o.failed) {
                    for (int k = 0; k < 5 && !o.failed; ++k)
                        o = runForked(p, sh, nullptr, caseSeed(static_cast<uint64_t>(ci)), caseTimeout, false);
                }
                if (o.failed) {
                    if (failCase < 0 || ci < failCase) { failCase = ci; fail = o; }
                    break;
                } else {
                    ++unconfirmed;
                    nextCase[j] = static_cast<uint64_t>(ci) + static_cast<uint64_t>(jobs);
                    spawn(j);
                    lastT[j] = now();
                    ++live;
                }
            }
        }
        if (failCase >= 0) {
            for (int j = 0; j < jobs; ++j)
                if (pids[j] > 0) { kill(pids[j], SIGKILL); waitpid(pids[j], nullptr, 0); pids[j] = -1; }
            break;
        }
    }
    double searchSec = now() - t0;
    uint64_t done = 0, nontriv = 0, disc = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> labels;
    for (int j = 0; j < jobs; ++j) {
        FILE* f = stats[j];
        fseek(f, 0, SEEK_SET);
        char line[1024];
        while (fgets(line, sizeof line, f)) {
            unsigned long long a, b, c;
            if (line[0] == 'S' && sscanf(line, "S %llu %llu %llu", &a, &b, &c) == 3) { done += a; nontriv += b; disc += c; }
            else if (line[0] == 'L') {
                char* sp = nullptr;
                a = strtoull(line + 2, &sp, 10);
                std::string nm = sp + 1;
                while (!nm.empty() && nm.back() == '\n') nm.pop_back();
                labels[nm] += a;
            } else if (line[0] == 'H' && sscanf(line, "H %llx", &a) == 1) seen.insert(a);
        }
        fclose(f);
    }
    // samples: the first non-discarded cases, described
    std::vector<std::string> samples;
    if (failCase < 0) {
        for (uint64_t i = 0; i < cases && i < 200 && samples.size() < 3; ++i) {
            Outcome o = runForked(p, sh, nullptr, caseSeed(i), caseTimeout, true);
            if (!o.failed && !o.discarded && !o.desc.empty()) {
                std::string d = o.desc;
                if (d.size() > 2500) d = d.substr(0, 2500) + " ...";
                samples.push_back(d);
            }
        }
    }
    int shrinkRuns = 0;
    bool confirmed = false;
    if (failCase >= 0) {
        Outcome best;
        shrink(p, sh, fail, 60, std::min(caseTimeout, fail.kind == "hang" ? 5 : 30), 4000, best, shrinkRuns);
        int ok = 0;
        Outcome last;
        for (int k = 0; k < 3; ++k) {
            last = runForked(p, sh, &best.choices, 0, caseTimeout, true);
            if (last.failed) ++ok;
        }
        if (ok == 3) {
            confirmed = true;
            fail = last;
        } else {
            // fall back to the unshrunk case
            int ok2 = 0;
            std::vector<uint32_t> c = fail.choices;
            for (int k = 0; k < 3; ++k) {
                last = runForked(p, sh, &c, 0, caseTimeout, true);
                if (last.failed) ++ok2;
            }
            if (ok2 >= 2) { confirmed = true; if (last.failed) fail = last; }
        }
        if (!replayOut.empty()) {
            std::ofstream f(replayOut);
            f << "{\"prop\": \"" << name << "\", \"harness\": \"" << jsonEsc(argv[0]) << "\", \"seed\": " << seed << ", \"case\": " << failCase
              << ",\n \"kind\": \"" << jsonEsc(fail.kind) << "\",\n \"message\": \"" << jsonEsc(fail.msg) << "\",\n \"description\": \""
              << jsonEsc(last.desc) << "\",\n \"choices\": [";
            for (size_t i = 0; i < fail.choices.size(); ++i) f << (i ? "," : "") << fail.choices[i];
            f << "]}\n";
        }
        printf("FAILURE prop=%s case=%lld kind=%s shrink_runs=%d choices=%zu confirmed=%d\n%s\n%s\n", name.c_str(), (long long)failCase,
               fail.kind.c_str(), shrinkRuns, fail.choices.size(), (int)confirmed, last.desc.c_str(), fail.msg.c_str());
    }
    std::ostringstream js;
    js << "{\"prop\": \"" << name << "\", \"evaluations\": " << done << ", \"requested\": " << cases << ", \"discarded\": " << disc
       << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << seen.size() << ", \"rule\": \"" << jsonEsc(p.rule)
       << "\", \"search_s\": " << searchSec << ", \"unconfirmed\": " << unconfirmed << ", \"failed\": " << (failCase >= 0 ? 1 : 0)
       << ", \"confirmed\": " << (confirmed ? 1 : 0) << ", \"kind\": \"" << jsonEsc(fail.kind) << "\", \"labels\": {";
    bool first = true;
    for (auto& kv : labels) { js << (first ? "" : ", ") << "\"" << jsonEsc(kv.first) << "\": " << kv.second; first = false; }
    js << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) js << (i ? ", " : "") << "\"" << jsonEsc(samples[i]) << "\"";
    js << "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << js.str(); }
    else printf("%s", js.str().c_str());
    return (failCase >= 0 && confirmed) ? 1 : 0;
}

}  // namespace pbt
