#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace pbt {
std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
}
using namespace pbt;

static Shm* gShm = nullptr;
static int gCpuLimit = 60;

static void onCpu(int) { if (gShm) gShm->state = 3; _exit(77); }
static void armCpu() {
    struct sigaction sa{}; sa.sa_handler = onCpu; sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{}; tv.it_value.tv_sec = gCpuLimit; setitimer(ITIMER_PROF, &tv, nullptr);
}
static Shm* newShm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shm*>(p); // zero pages: the zero state
}
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static void silence() { // the library warns on stderr/stdout; keep the check's output readable
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("PBT_STDERR")) dup2(fd, 2); close(fd);
}

// Runs one case; true if it passed
static bool runCase(const Entry& e, Src& src, Shm* shm) {
    shm->state = 1; shm->msg[0] = 0;
    armCpu();
    std::string msg;
    try { e.f(src); src.commit(); shm->state = 0; return true; }
    catch (const Fail& f) { msg = f.msg; }
    catch (const std::exception& x) {
        int st; char* n = abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &st);
        msg = std::string("unexpected exception ") + (n ? n : "?") + ": " + x.what(); free(n);
    } catch (...) { msg = "unexpected exception of unknown type"; }
    std::strncpy(shm->msg, msg.c_str(), sizeof(shm->msg) - 1);
    shm->state = 2;
    return false;
}

struct Failure { bool any = false; uint64_t caseIdx = 0; std::vector<uint64_t> choices; std::string msg, note; };

static std::string exitWhy(int st, Shm* s) {
    if (s->state == 3 || (WIFEXITED(st) && WEXITSTATUS(st) == 77)) return cat("did not terminate within ", gCpuLimit, " s of CPU time");
    if (WIFSIGNALED(st)) return cat("killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return "sanitizer report (memory error or undefined behaviour)";
    return cat("process ended with status ", st);
}

// Replays a sequence in a forked child. Returns true if it FAILS.
static bool replayFork(const Entry& e, const std::vector<uint64_t>& c, Failure& out) {
    Shm* shm = newShm();
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        silence(); gShm = shm;
        Src src(shm); src.verbose = true; src.startReplay(c);
        bool ok = runCase(e, src, shm);
        _exit(ok ? 0 : 1);
    }
    int st = 0; waitpid(p, &st, 0);
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (failed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) failed = false; // out of memory or killed from outside
    if (failed) {
        out.any = true;
        out.choices.assign(shm->choices, shm->choices + shm->n);
        out.msg = shm->state == 2 ? shm->msg : exitWhy(st, shm);
        out.note = shm->note;
    }
    munmap(shm, sizeof(Shm));
    return failed;
}

// Replays generated cases first, first+stride, ..., last in one process: failures that need the history of earlier cases.
static bool historyFork(const Entry& e, uint64_t seed, uint64_t first, uint64_t last, uint64_t stride, Failure& out) {
    uint64_t sub = 0; for (char ch : e.id + e.sub) sub = sub * 131 + static_cast<unsigned char>(ch);
    Shm* shm = newShm();
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        silence(); gShm = shm;
        Src src(shm);
        for (uint64_t i = first; i <= last; i += stride) {
            shm->caseIdx = i; src.verbose = i == last;
            src.startRandom(mix(mix(seed, sub), i));
            if (!runCase(e, src, shm)) _exit(1);
        }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (failed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) failed = false;
    if (failed) {
        out.any = true; out.caseIdx = shm->caseIdx;
        out.choices.assign(shm->choices, shm->choices + shm->n);
        out.msg = shm->state == 2 ? shm->msg : exitWhy(st, shm);
        out.note = shm->note;
    }
    munmap(shm, sizeof(Shm));
    return failed;
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

static void shrink(const Entry& e, Failure& f, double seconds, unsigned maxTries) {
    const auto t0 = std::chrono::steady_clock::now();
    unsigned tries = 0;
    auto spent = [&] { return tries >= maxTries || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds; };
    auto attempt = [&](std::vector<uint64_t> c) {
        if (spent()) return false;
        ++tries;
        Failure g;
        if (replayFork(e, c, g) && simpler(g.choices, f.choices)) { f.choices = g.choices; f.msg = g.msg; f.note = g.note; return true; }
        return false;
    };
    for (bool progress = true; progress && !spent();) {
        progress = false;
        for (size_t chunk = std::min<size_t>(64, f.choices.size()); chunk >= 1 && !spent(); chunk /= 2) { // delete
            for (size_t i = f.choices.size(); i-- > 0 && !spent();) {
                if (i + chunk > f.choices.size()) continue;
                auto c = f.choices; c.erase(c.begin() + i, c.begin() + i + chunk);
                if (attempt(c)) progress = true;
            }
        }
        for (size_t chunk = 16; chunk >= 1 && !spent(); chunk /= 4) { // zero
            for (size_t i = 0; i + chunk <= f.choices.size() && !spent(); i += chunk) {
                auto c = f.choices;
                if (std::all_of(c.begin() + i, c.begin() + i + chunk, [](uint64_t v) { return v == 0; })) continue;
                std::fill(c.begin() + i, c.begin() + i + chunk, 0);
                if (attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < f.choices.size() && !spent(); ++i) { // lower
            uint64_t hi = f.choices[i], lo = 0;
            unsigned k = 0;
            while (lo < hi && k++ < 24 && !spent()) {
                const uint64_t mid = lo + (hi - lo) / 2;
                auto c = f.choices; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= f.choices.size()) break; hi = f.choices[i]; } else lo = mid + 1;
            }
        }
    }
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    const std::string mode = opt.count("--mode") ? opt["--mode"] : "run";
    if (opt.count("--cpu")) gCpuLimit = std::stoi(opt["--cpu"]);

    if (mode == "list") {
        for (auto& e : registry()) std::cout << e.id << " " << e.sub << " " << e.quick << " " << e.thorough << "\n";
        return 0;
    }
    if (mode == "replay") { // --id --sub --choices "1 2 3"
        for (auto& e : registry()) {
            if (e.id != opt["--id"] || e.sub != opt["--sub"]) continue;
            std::vector<uint64_t> c; std::istringstream is(opt["--choices"]); uint64_t v; while (is >> v) c.push_back(v);
            Failure f;
            if (replayFork(e, c, f)) { std::cout << "FAIL " << f.msg << "\n" << f.note << std::endl; return 1; }
            std::cout << "PASS" << std::endl;
            return 0;
        }
        std::cerr << "no such property\n";
        return 2;
    }

    if (mode == "history") { // --id --sub --seed --first --last --stride
        for (auto& e : registry()) {
            if (e.id != opt["--id"] || e.sub != opt["--sub"]) continue;
            Failure f;
            if (historyFork(e, std::stoull(opt["--seed"]), std::stoull(opt["--first"]), std::stoull(opt["--last"]), std::stoull(opt["--stride"]), f)) {
                std::cout << "FAIL (after earlier cases in the same process) " << f.msg << "\n" << f.note << std::endl; return 1;
            }
            std::cout << "PASS" << std::endl;
            return 0;
        }
        return 2;
    }

    const std::string id = opt["--id"], only = opt.count("--sub") ? opt["--sub"] : "";
    const uint64_t seed = std::stoull(opt.count("--seed") ? opt["--seed"] : "1");
    const bool thorough = opt["--tier"] == "thorough";
    const double scale = opt.count("--scale") ? std::stod(opt["--scale"]) : 1.0;
    const double wall = opt.count("--wall") ? std::stod(opt["--wall"]) : 600.0;
    const unsigned W = opt.count("--workers") ? std::stoul(opt["--workers"]) : 8;
    std::ostringstream js;
    js << "{\"subs\":[";
    bool first = true, anyFail = false, matched = false;
    const auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    for (auto& e : registry()) {
        if (e.id != id || (!only.empty() && e.sub != only)) continue;
        matched = true;
        const double s0 = elapsed();
        const uint64_t N = std::max<uint64_t>(1, static_cast<uint64_t>((thorough ? e.thorough : e.quick) * scale));
        uint64_t sub = 0; for (char ch : e.id + e.sub) sub = sub * 131 + static_cast<unsigned char>(ch);
        const unsigned nW = static_cast<unsigned>(std::min<uint64_t>(W, N));
        std::vector<Shm*> shms; std::vector<pid_t> pids;
        for (unsigned w = 0; w < nW; ++w) shms.push_back(newShm());
        for (unsigned w = 0; w < nW; ++w) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                setpgid(0, 0);
                silence(); Shm* shm = shms[w]; gShm = shm;
                Src src(shm);
                auto one = [&](uint64_t i) {
                    shm->caseIdx = i;
                    src.verbose = (w < 2 && shm->nSamples < 2);
                    src.startRandom(mix(mix(seed, sub), i));
                    return runCase(e, src, shm);
                };
                if (e.batch == 0) {
                    for (uint64_t i = w; i < N; i += nW) { if (elapsed() > wall) break; if (!one(i)) _exit(1); }
                } else {
                    uint64_t i = w;
                    while (i < N && elapsed() <= wall) {
                        pid_t q = fork();
                        if (q == 0) {
                            prctl(PR_SET_PDEATHSIG, SIGKILL);
                            for (unsigned k = 0; k < e.batch && i < N; ++k, i += nW) if (!one(i)) _exit(1);
                            _exit(0);
                        }
                        int st; waitpid(q, &st, 0);
                        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) _exit(50);
                            if (shm->state != 2) std::strncpy(shm->msg, exitWhy(st, shm).c_str(), sizeof(shm->msg) - 1);
                            _exit(1);
                        }
                        i += static_cast<uint64_t>(nW) * e.batch;
                    }
                }
                _exit(0);
            }
            pids.push_back(p);
        }
        Failure f;
        bool infra = false;
        unsigned left = nW;
        while (left > 0) {
            int st; pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            auto it = std::find(pids.begin(), pids.end(), p);
            if (it == pids.end()) continue;
            --left;
            const unsigned w = static_cast<unsigned>(it - pids.begin());
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 50)) { if (!f.any) infra = true; continue; }
            if (f.any) continue;
            f.any = true; f.caseIdx = shms[w]->caseIdx;
            f.choices.assign(shms[w]->choices, shms[w]->choices + shms[w]->n);
            f.msg = (shms[w]->state == 2 || shms[w]->msg[0]) ? shms[w]->msg : exitWhy(st, shms[w]);
            for (pid_t o : pids) if (o != p) kill(-o, SIGKILL), kill(o, SIGKILL);
        }
        if (infra && !f.any) { std::cerr << "worker killed from outside\n"; return 3; }
        bool reproduced = false, history = false;
        uint64_t hFirst = 0;
        std::string firstMsg = f.msg;
        const std::vector<uint64_t> original = f.choices;
        if (f.any) {
            Failure g;
            if (replayFork(e, f.choices, g)) {
                reproduced = true; f.choices = g.choices; f.msg = g.msg; f.note = g.note;
                shrink(e, f, opt.count("--shrink") ? std::stod(opt["--shrink"]) : 40.0, 3000);
            }
            if (!reproduced) { // does it need the cases that ran before it in the same process?
                const uint64_t w = f.caseIdx % nW;
                uint64_t lo = w;
                if (e.batch) lo = w + (f.caseIdx - w) / nW / e.batch * e.batch * nW;
                Failure h;
                if (historyFork(e, seed, lo, f.caseIdx, nW, h)) {
                    history = true; f.msg = h.msg; f.note = h.note; f.caseIdx = h.caseIdx;
                    uint64_t a = 0, b = (f.caseIdx - lo) / nW; // latest start that still fails (assuming it is monotone)
                    while (a < b) {
                        const uint64_t m = (a + b + 1) / 2;
                        Failure k;
                        if (historyFork(e, seed, lo + m * nW, f.caseIdx, nW, k) && k.caseIdx == f.caseIdx) { a = m; f.msg = k.msg; f.note = k.note; } else b = m - 1;
                    }
                    hFirst = lo + a * nW;
                }
            }
            anyFail = true;
        }
        // merge statistics
        uint64_t evals = 0, nt = 0; std::map<std::string, uint64_t> labels; std::set<uint64_t> hs; std::vector<std::string> samples;
        for (auto* s : shms) {
            evals += s->evals; nt += s->nontrivial;
            for (uint32_t i = 0; i < s->nLabels; ++i) labels[s->labels[i].name] += s->labels[i].count;
            hs.insert(s->hashes, s->hashes + s->nHashes);
            for (uint32_t i = 0; i < s->nSamples && samples.size() < kSamples; ++i) samples.push_back(s->samples[i]);
            munmap(s, sizeof(Shm));
        }
        js << (first ? "" : ",") << "{\"sub\":" << jstr(e.sub) << ",\"rule\":" << jstr(e.rule) << ",\"planned\":" << N
           << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << hs.size()
           << ",\"wall_s\":" << elapsed() - s0 << ",\"labels\":{";
        bool l1 = true; for (auto& [k, v] : labels) { js << (l1 ? "" : ",") << jstr(k) << ":" << v; l1 = false; }
        js << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]);
        js << "]";
        if (f.any) {
            js << ",\"failure\":{\"case\":" << f.caseIdx << ",\"reproduced\":" << (reproduced ? "true" : "false")
               << ",\"history\":" << (history ? "true" : "false") << ",\"first\":" << hFirst << ",\"stride\":" << nW
               << ",\"message\":" << jstr(f.msg) << ",\"first_message\":" << jstr(firstMsg) << ",\"note\":" << jstr(f.note) << ",\"choices\":[";
            for (size_t i = 0; i < f.choices.size(); ++i) js << (i ? "," : "") << f.choices[i];
            js << "],\"original\":[";
            for (size_t i = 0; i < original.size(); ++i) js << (i ? "," : "") << original[i];
            js << "]}";
        }
        js << "}";
        first = false;
        if (f.any) break;
    }
    js << "],\"wall_s\":" << elapsed() << "}";
    if (!matched) { std::cerr << "no property " << id << "\n"; return 2; }
    std::ofstream(opt["--out"]) << js.str() << "\n";
    return anyFail ? 1 : 0;
}
