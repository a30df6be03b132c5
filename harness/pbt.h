// Choice-sequence property-based testing engine.
//
// A property is a function of a choice source `Src`. Every random decision is a bounded integer draw,
// and the sequence of draws is the test case: it is what gets hashed (distinctness), shrunk and saved.
// Value 0 of every draw is the simplest alternative, and draws past the end of a replayed sequence are 0,
// so deleting or lowering choices always gives a simpler valid case.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };

constexpr size_t kMaxChoices = 1u << 14;
constexpr size_t kMaxLabels = 96;
constexpr size_t kMaxHashes = 1u << 18;
constexpr size_t kSamples = 3;
constexpr size_t kSampleLen = 1500;

// Shared between a worker (and its forked children) and the parent.
struct Shm {
    uint64_t caseIdx = 0;
    uint32_t state = 0;   // 0 idle, 1 running, 2 failed, 3 hang
    uint32_t n = 0;       // recorded choices
    uint64_t choices[kMaxChoices];
    char msg[4096];
    char note[32768];
    uint64_t evals = 0, nontrivial = 0, checks = 0;
    struct L { char name[56]; uint64_t count; } labels[kMaxLabels];
    uint32_t nLabels = 0;
    uint32_t nHashes = 0;
    uint64_t hashes[kMaxHashes];
    uint32_t nSamples = 0;
    char samples[kSamples][kSampleLen];
};

class Src {
public:
    explicit Src(Shm* shm) : shm_(shm) {}

    void startRandom(uint64_t seed) { rng_.seed(seed); replay_ = false; reset(); }
    void startReplay(std::vector<uint64_t> c) { in_ = std::move(c); replay_ = true; reset(); }

    // Uniform in [0, n)
    uint64_t below(uint64_t n) {
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay_) v = pos_ < in_.size() ? in_[pos_] % n : 0;
        else v = n == 1 ? 0 : rng_() % n;
        ++pos_;
        if (shm_->n < kMaxChoices) shm_->choices[shm_->n++] = v;
        return v;
    }
    bool flag() { return below(2) == 1; }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    uint32_t seed32() { return static_cast<uint32_t>(below(1ull << 32)); }
    double unit() { return static_cast<double>(below(1ull << 53)) * 0x1p-53; }

    // Real in [lo, hi]: a coarse grid (including both ends) or anywhere in between
    double real(double lo, double hi) {
        switch (below(3)) {
            case 0: return lo + (hi - lo) * (static_cast<double>(below(17)) / 16.0);
            case 1: { // few significant digits
                const double step = std::pow(10.0, std::floor(std::log10((hi - lo) > 0 ? (hi - lo) : 1.0)) - 2.0);
                const double v = std::round((lo + (hi - lo) * unit()) / step) * step;
                return std::min(hi, std::max(lo, v));
            }
            default: return lo + (hi - lo) * unit();
        }
    }
    double logreal(double lo, double hi) {
        const double v = std::exp(real(std::log(lo), std::log(hi)));
        return std::min(hi, std::max(lo, v));
    }
    template <class T> T pick(std::initializer_list<T> xs) { return *(xs.begin() + below(xs.size())); }
    template <class T> const T& pick(const std::vector<T>& xs) { return xs[below(xs.size())]; }

    // Human readable trace, kept only when somebody will read it
    template <class... A> void note(const A&... a) {
        if (!verbose) return;
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        note_ += os.str();
        note_ += '\n';
        saveNote();
    }
    void label(const std::string& s) { if (count_) pend_.push_back(s); }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }

    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }

    const std::string& notes() const { return note_; }
    bool isNontrivial() const { return nontrivial_; }
    bool verbose = false;

    void reset() {
        pos_ = 0; shm_->n = 0; note_.clear(); shm_->note[0] = 0; pend_.clear(); nontrivial_ = false;
    }
    void commit() { // called after a passing case
        ++shm_->evals;
        for (auto& s : pend_) {
            uint32_t i = 0;
            for (; i < shm_->nLabels; ++i) if (s == shm_->labels[i].name) break;
            if (i == shm_->nLabels) {
                if (i == kMaxLabels) continue;
                std::strncpy(shm_->labels[i].name, s.c_str(), 55);
                shm_->labels[i].count = 0;
                ++shm_->nLabels;
            }
            ++shm_->labels[i].count;
        }
        if (nontrivial_) {
            ++shm_->nontrivial;
            uint64_t h = 1469598103934665603ull;
            for (uint32_t i = 0; i < shm_->n; ++i) { h ^= shm_->choices[i] + 0x9e3779b97f4a7c15ull; h *= 1099511628211ull; h ^= h >> 29; }
            if (shm_->nHashes < kMaxHashes) shm_->hashes[shm_->nHashes++] = h;
            if (verbose && shm_->nSamples < kSamples) {
                std::strncpy(shm_->samples[shm_->nSamples], note_.c_str(), kSampleLen - 1);
                ++shm_->nSamples;
            }
        }
    }
private:
    void saveNote() {
        const size_t m = std::min(note_.size(), sizeof(shm_->note) - 1);
        std::memcpy(shm_->note, note_.data(), m); shm_->note[m] = 0;
    }
    Shm* shm_;
    std::mt19937_64 rng_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    bool replay_ = false, nontrivial_ = false, count_ = true;
    std::string note_;
    std::vector<std::string> pend_;
};

struct Entry {
    std::string id, sub;
    unsigned quick, thorough;  // case counts
    unsigned batch;            // cases per forked process (0: whole worker)
    std::string rule;
    std::function<void(Src&)> f;
};
std::vector<Entry>& registry();
struct Reg { Reg(Entry e) { registry().push_back(std::move(e)); } };

// PROP(C01, name, quick cases, thorough cases, cases per process or 0, "what is non-trivial")
#define PROP(ID, SUB, Q, T, BATCH, RULE) \
    static void prop_##ID##_##SUB(pbt::Src&); \
    static pbt::Reg reg_##ID##_##SUB({#ID, #SUB, Q, T, BATCH, RULE, prop_##ID##_##SUB}); \
    static void prop_##ID##_##SUB(pbt::Src& src)

template <class... A> std::string cat(const A&... a) {
    std::ostringstream os; os.precision(17); (os << ... << a); return os.str();
}
#define REQUIRE(cond, ...) do { if (!(cond)) throw pbt::Fail{pbt::cat(#cond, ": ", __VA_ARGS__)}; } while (0)

// |a-b| <= rel*scale with scale at least |a|,|b|; NaN never close
inline bool close(double a, double b, double rel, double absTol = 0.0) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= absTol + rel * std::max(std::fabs(a), std::fabs(b));
}

// Expect an exception of exactly the family E (or derived); returns true if thrown
template <class E, class F> bool throwsA(F&& f) {
    try { f(); } catch (const E&) { return true; }
    return false;
}

}  // namespace pbt
