// C08 inverse normal, C09 number generators, C10 distributions
#include "pbt.h"
#include "ref.h"
#include <algorithm>
#include <memory>
#include <set>
#include <unordered_set>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/sobol.hpp>
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"

using namespace OptionPricer;
using namespace pbt;

// ---------------------------------------------------------------- C08
static double level(Src& s) {
    switch (s.below(8)) {
        case 0: return static_cast<double>(s.range(1, 999)) / 1000.0;
        case 1: return s.unit();
        case 2: return std::pow(10.0, -s.real(0.0, 14.0));
        case 3: return 1.0 - std::pow(10.0, -s.real(0.0, 14.0));
        case 4: { // around the places where approximations are usually glued together
            const double c = s.pick({0.5, 0.08, 0.92, 0.02425, 0.97575, 0.075, 0.925, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.05, 0.95, 0.001, 0.999});
            const int64_t k = s.range(-40, 40);
            return c + static_cast<double>(k) * std::ldexp(1.0, -static_cast<int>(s.range(10, 53)));
        }
        case 5: return static_cast<double>(s.range(1, 4095)) / 4096.0; // what a low discrepancy sequence delivers
        case 6: return 0.5 + s.real(-1e-3, 1e-3);
        default: return std::ldexp(1.0 + s.unit(), -static_cast<int>(s.range(1, 45)));
    }
}
// Worst error of a nine digit approximation over the level's tail
static double tolAt(double u) {
    const double p = std::min(u, 1.0 - u);
    if (p >= 1e-12) return 4e-9;
    if (p >= 1e-14) return 1e-8;
    if (p >= 1e-17) return 1e-7;
    if (p >= 1e-40) return 3e-5;
    return 2e-2;
}
PROP(C08, accuracy, 2000000, 20000000, 0, "the level is strictly inside (0,1)") {
    StandardNormalDistribution d;
    const double u = level(src);
    if (!(u > 0 && u < 1)) return;
    src.note("u=", u);
    const double z = d.inv_cdf(u), want = ref::ninv(u);
    src.nontrivial();
    src.label(std::min(u, 1 - u) < 0.08 ? "tail" : "central");
    REQUIRE(std::fabs(z - want) <= tolAt(u), "inv_cdf(", u, ")=", z, " true quantile ", want);
    REQUIRE(std::fabs(ref::ncdf(z) - u) <= 2e-9, "ncdf(inv_cdf(", u, "))=", ref::ncdf(z));
}
PROP(C08, symmetry, 1000000, 8000000, 0, "1-u is exact and u is not 1/2") {
    StandardNormalDistribution d;
    double u = level(src);
    if (!(u > 0 && u < 1)) return;
    const double v = 1.0 - u;
    if (!(v > 0 && v < 1) || 1.0 - v != u) return;
    src.note("u=", u, " 1-u=", v);
    src.nontrivial(u != v);
    const double a = d.inv_cdf(u), b = d.inv_cdf(v);
    REQUIRE(close(a, -b, 0, u == 0.5 ? 1e-15 : 1e-8), "inv_cdf(", u, ")=", a, " inv_cdf(", v, ")=", b);
    if (u < 0.5 - 1e-8) REQUIRE(a < 0, "sign below the median: ", a);
    if (u == 0.5) REQUIRE(std::fabs(a) < 1e-8, "median ", a);
}
PROP(C08, monotone, 1000000, 8000000, 0, "two different levels") {
    StandardNormalDistribution d;
    double u = level(src), v = src.flag() ? level(src) : u * (1 + src.logreal(1e-10, 1.0));
    if (!(u > 0 && u < 1 && v > 0 && v < 1)) return;
    if (u > v) std::swap(u, v);
    if (v - u < 1e-13) return; // below the rounding of the formula
    src.note("u=", u, " v=", v);
    src.nontrivial(u != v);
    const double a = d.inv_cdf(u), b = d.inv_cdf(v);
    REQUIRE(a <= b + 1e-12 * std::max(1.0, std::fabs(a)), "inv_cdf(", u, ")=", a, " > inv_cdf(", v, ")=", b);
}
PROP(C08, deep_tail, 20000, 500000, 0, "level below 1e-14") {
    StandardNormalDistribution d;
    const double u = std::pow(10.0, -src.real(14.0, 300.0));
    src.note("u=", u);
    src.nontrivial();
    const double z = d.inv_cdf(u), want = ref::ninv(u);
    REQUIRE(std::fabs(z - want) <= tolAt(u), "inv_cdf(", u, ")=", z, " true quantile ", want);
}
PROP(C08, domain, 20000, 400000, 0, "a level outside the open unit interval") {
    StandardNormalDistribution d;
    double u;
    switch (src.below(6)) {
        case 0: u = 0.0; break;
        case 1: u = 1.0; break;
        case 2: u = -0.0; break;
        case 3: u = -src.logreal(1e-300, 1e300); break;
        case 4: u = 1.0 + src.logreal(1e-15, 1e300); break;
        default: u = src.pick<double>({-INFINITY, INFINITY, std::nextafter(1.0, 2.0), -5e-324, NAN, -NAN}); break;
    }
    if (u > 0 && u < 1) return;
    src.note("u=", u);
    src.nontrivial();
    REQUIRE(throwsA<std::invalid_argument>([&] { d.inv_cdf(u); }), "level ", u, " accepted");
    // a rejected level leaves the object usable
    REQUIRE(close(d.inv_cdf(0.25), ref::ninv(0.25), 0, 4e-9), "after a rejected level");
}

// ---------------------------------------------------------------- C09
namespace {
struct Uniform : Distribution { // hands back what the generator delivers
    double inv_cdf(const double& q) const override { return q; }
    double operator()(std::mt19937& g) const override { return std::generate_canonical<double, 53>(g); }
};
enum { PRNG, SOBOL, FAURE };
const char* gname(int k) { return k == PRNG ? "pseudo" : k == SOBOL ? "sobol" : "faure"; }
std::unique_ptr<NumberGenerator> mkgen(int k, unsigned dim, unsigned seed) {
    if (k == PRNG) return std::make_unique<PseudoRandomNumberGenerator>(dim, seed);
    if (k == SOBOL) return std::make_unique<SobolGenerator>(dim, seed);
    return std::make_unique<FaureGenerator>(dim, seed);
}
std::unique_ptr<NumberGenerator> mkgen(int k, unsigned dim) {
    if (k == PRNG) return std::make_unique<PseudoRandomNumberGenerator>(dim);
    if (k == SOBOL) return std::make_unique<SobolGenerator>(dim);
    return std::make_unique<FaureGenerator>(dim);
}
unsigned dimension(Src& s, int k) {
    switch (s.below(4)) {
        case 0: return static_cast<unsigned>(s.range(1, 4));
        case 1: return static_cast<unsigned>(s.range(1, 40));
        case 2: return s.pick({1u, 2u, 8u, 16u, 50u, 100u, 252u});
        default: return static_cast<unsigned>(s.range(1, k == FAURE ? 120 : 400));
    }
}
unsigned seedFor(Src& s) {
    switch (s.below(4)) {
        case 0: return static_cast<unsigned>(s.range(0, 10));
        case 1: return static_cast<unsigned>(s.range(0, 100000));
        case 2: return 1u << s.range(0, 31);
        default: return s.seed32();
    }
}
std::shared_ptr<Distribution> anyDist(int which, double a, double b) {
    switch (which) {
        case 0: return std::make_shared<StandardNormalDistribution>();
        case 1: return std::make_shared<NormalDistribution>(a, b);
        case 2: return std::make_shared<ContinuousUniformDistribution>(a, a + b);
        case 3: return std::make_shared<ExponentialDistribution>(b);
        case 4: return std::make_shared<GammaDistribution>(b, 1.0 + std::fabs(a));
        default: return std::make_shared<PoissonDistribution>(b);
    }
}
}  // namespace

// The stream of draws is a function of dimension, seed and the distributions asked for
PROP(C09, reproducible, 60000, 600000, 0, "at least 20 draws compared") {
    const int k = static_cast<int>(src.below(3));
    const unsigned dim = dimension(src, k), seed = seedFor(src);
    auto g1 = mkgen(k, dim, seed), g2 = mkgen(k, dim, seed);
    auto noise = mkgen(k, dimension(src, k), seedFor(src)); // unrelated generator used in between
    REQUIRE(g1->getDim() == dim && g2->getDim() == dim, "dimension reported ", g1->getDim(), " for ", dim);
    std::vector<std::shared_ptr<Distribution>> d1, d2, d3;
    const int nd = k == PRNG ? static_cast<int>(src.range(1, 3)) : 1;
    for (int i = 0; i < nd; ++i) {
        const int w = k == PRNG ? static_cast<int>(src.below(6)) : 0;
        const double a = src.real(-2, 2), b = src.real(0.1, 5);
        d1.push_back(anyDist(w, a, b)); d2.push_back(anyDist(w, a, b)); d3.push_back(anyDist(w, a, b));
    }
    const int n = static_cast<int>(src.pick({5, 20, 100, 400, 2000}));
    const bool interleave = src.flag();
    src.note(gname(k), " dim=", dim, " seed=", seed, " draws=", n, " distributions=", nd, interleave ? " interleaved" : " one after the other");
    src.nontrivial(n >= 20);
    src.label(gname(k));
    std::vector<double> x(n), y(n);
    std::vector<int> which(n);
    for (int i = 0; i < n; ++i) which[i] = nd == 1 ? 0 : i < 64 ? static_cast<int>(src.below(nd)) : (i * 7 + i / 5) % nd;
    if (interleave) for (int i = 0; i < n; ++i) {
        x[i] = (*g1)(*d1[which[i]]);
        if (i % 3 == 0) (*noise)(*d3[which[i]]);
        y[i] = (*g2)(*d2[which[i]]);
    } else {
        for (int i = 0; i < n; ++i) x[i] = (*g1)(*d1[which[i]]);
        for (int i = 0; i < n; ++i) y[i] = (*g2)(*d2[which[i]]);
    }
    for (int i = 0; i < n; ++i) REQUIRE(std::memcmp(&x[i], &y[i], 8) == 0, "draw ", i, " of two generators with the same seed: ", x[i], " and ", y[i]);
}

// Different seeds of the pseudo random generator give different streams
PROP(C09, seeds_matter, 40000, 100000, 0, "two different seeds") {
    const unsigned dim = dimension(src, PRNG), s1 = seedFor(src);
    unsigned s2;
    switch (src.below(4)) {
        case 0: s2 = s1 ^ (1u << src.range(0, 31)); break;
        case 1: s2 = s1 + static_cast<unsigned>(src.range(1, 5)); break;
        case 2: s2 = s1 ^ (static_cast<unsigned>(src.range(1, 255)) << (8 * src.range(0, 3))); break;
        default: s2 = seedFor(src);
    }
    if (s1 == s2) return;
    src.note("dim=", dim, " seeds ", s1, " ", s2);
    src.nontrivial();
    PseudoRandomNumberGenerator a(dim, s1), b(src.flag() ? dim : dimension(src, PRNG), s2);
    Uniform u;
    int same = 0, n = 32;
    for (int i = 0; i < n; ++i) same += a(u) == b(u);
    REQUIRE(same <= 2, same, " of ", n, " draws coincide for seeds ", s1, " and ", s2);
}
// Among a crowd of seeds, the ones people use included, no two give the same stream
PROP(C09, seeds_crowd, 60, 1500, 0, "hundreds of different seeds compared") {
    std::vector<unsigned> seeds{0, 1, 2, 3, 7, 10, 12, 13, 17, 21, 23, 27, 37, 41, 42, 43, 99, 100, 101, 111, 123, 128, 255, 256, 314, 404, 420, 500, 512, 624, 666, 777, 888, 999, 1000, 1001, 1024, 1111, 1234, 1337, 1812433253u,
        1729, 1984, 1999, 2000, 2001, 2020, 2021, 2022, 2023, 2024, 2025, 2026, 2147483647u, 2147483648u, 4294967295u, 4294967294u, 31337, 3141, 31415, 314159, 3141592, 27182, 4321, 4357, 5489, 6174, 8675309, 9999, 10000, 12345, 16807, 19650218, 54321, 65535, 65536, 65537,
        99999, 100000, 123456, 1234567, 12345678, 123456789, 987654321, 1000000, 1000000007, 16777215, 16777216, 20240101, 0xDEADBEEFu, 0xCAFEBABEu, 0x12345678u, 0xFFFF0000u};
    for (int i = 0; i < 300; ++i) seeds.push_back(seedFor(src));
    const unsigned at = src.seed32(); for (unsigned i = 0; i < 200; ++i) seeds.push_back(at + i);
    std::sort(seeds.begin(), seeds.end()); seeds.erase(std::unique(seeds.begin(), seeds.end()), seeds.end());
    const unsigned dim = dimension(src, PRNG);
    src.note("dim=", dim, " ", seeds.size(), " seeds, 200 of them from ", at);
    src.nontrivial();
    Uniform u;
    std::vector<std::pair<std::array<double, 3>, unsigned>> first;
    for (unsigned s : seeds) { PseudoRandomNumberGenerator g(dim, s); const double x = g(u), y = g(u); first.push_back({{x, y, g(u)}, s}); }
    std::sort(first.begin(), first.end());
    for (size_t i = 1; i < first.size(); ++i) REQUIRE(first[i].first != first[i - 1].first, "seeds ", first[i - 1].second, " and ", first[i].second, " give the same stream");
}
PROP(C09, unseeded_differ, 2000, 2000, 0, "two generators built without a seed") {
    const int k = static_cast<int>(src.below(3));
    const unsigned dim = dimension(src, k);
    src.note(gname(k), " dim=", dim);
    src.nontrivial();
    auto a = mkgen(k, dim), b = mkgen(k, dim);
    REQUIRE(a->getDim() == dim, "dimension ", a->getDim());
    Uniform u;
    int same = 0, n = 64;
    double x0 = 0; bool constant = true;
    for (int i = 0; i < n; ++i) { const double x = (*a)(u); same += x == (*b)(u); if (i == 0) x0 = x; constant = constant && x == x0; REQUIRE(x >= 0 && x <= 1, "uniform ", x); }
    if (k == PRNG) REQUIRE(same <= 2, same, " of ", n, " draws coincide between two unseeded generators");
    if (k == PRNG) REQUIRE(!constant, "constant stream");
    if (k != PRNG) REQUIRE(same < n, "two unseeded generators deliver the same stream");
}
// Unseeded generators hardly ever coincide: among 2000 seeds of 32 random bits one expects 0.0005 coincidences, so two
// or more happen by chance once in ten million runs, and a third one in 5e10
PROP(C09, unseeded_crowd, 1, 4, 0, "2000 unseeded generators of a kind") {
    const int k = PRNG;
    src.note(gname(k));
    src.nontrivial();
    std::vector<std::pair<double, double>> first;
    Uniform u;
    for (int i = 0; i < 2000; ++i) { const auto g = mkgen(k, 1); const double x = (*g)(u); first.emplace_back(x, (*g)(u)); }
    std::sort(first.begin(), first.end());
    int same = 0;
    for (size_t i = 1; i < first.size(); ++i) same += first[i] == first[i - 1];
    REQUIRE(same <= 2, same, " of 2000 generators without a seed deliver the stream of another one");
}
// A quasi random generator without a seed still delivers consecutive points of its sequence: the first coordinate of
// its first point tells where it starts
PROP(C09, unseeded_sequence, 6000, 100000, 0, "more than one point in two or more dimensions") {
    const int k = src.flag() ? SOBOL : FAURE;
    const unsigned dim = dimension(src, k);
    const int pts = static_cast<int>(std::max<int64_t>(2, std::min<int64_t>(40, 2000 / dim)));
    src.note(gname(k), " dim=", dim, " points=", pts);
    src.nontrivial(dim > 1);
    src.label(gname(k));
    auto g = mkgen(k, dim);
    Uniform u;
    std::vector<double> x(static_cast<size_t>(pts) * dim), p(dim);
    for (auto& v : x) { v = (*g)(u); REQUIRE(v > 0 && v < 1, "uniform ", v, " not inside (0,1)"); }
    uint64_t start = 0;
    if (k == SOBOL) { // reversed bits of a Gray code
        uint64_t bits = static_cast<uint64_t>(std::ldexp(x[0], 40)), gray = 0;
        for (int i = 0; i < 40; ++i) if (bits >> (39 - i) & 1) gray |= uint64_t{1} << i;
        for (; gray; gray >>= 1) start ^= gray;
    } else { // radical inverse in the smallest prime base >= dim
        uint64_t b = std::max(2u, dim); for (;; ++b) { bool pr = true; for (uint64_t q = 2; q * q <= b; ++q) pr = pr && b % q; if (pr) break; }
        uint64_t pw = 1; int m = 0; while (pw < (uint64_t{1} << 33)) pw *= b, ++m;
        uint64_t v = static_cast<uint64_t>(std::llround(x[0] * static_cast<double>(pw)));
        for (int i = 0; i < m; ++i) { start = start * b + v % b; v /= b; }
    }
    std::string why;
    for (uint64_t c = start > 2 ? start - 2 : 0; c <= start + 2; ++c) {
        if (c > 0xffffffffULL) continue;
        boost::random::sobol sob(k == SOBOL ? dim : 1); boost::random::faure fau(k == FAURE ? dim : 1);
        if (k == SOBOL) sob.seed(static_cast<unsigned>(c)); else fau.seed(static_cast<unsigned>(c));
        size_t i = 0; bool ok = true;
        for (int q = 0; ok && q < pts; ++q) {
            if (k == SOBOL) for (auto& v : p) v = static_cast<double>(sob()) * 0x1p-64; else fau.generate(p.begin(), p.end());
            for (double v : p) { if (!close(v, x[i], 1e-14)) { if (i >= dim) why = cat("point ", i / dim, " coordinate ", i % dim, " is ", x[i], " instead of ", v); ok = false; break; } ++i; }
        }
        if (ok) return;
    }
    REQUIRE(false, "not consecutive points of the sequence, started at ", start, ": ", why);
}

// Quasi random streams are the coordinates of consecutive Sobol / Faure points, in order, strictly inside the unit cube
PROP(C09, quasi_points, 9000, 150000, 0, "more than one point in two or more dimensions") {
    const int k = src.flag() ? SOBOL : FAURE;
    const unsigned dim = src.chance(1, 20) ? static_cast<unsigned>(k == SOBOL ? src.range(400, 3667) : src.range(120, 1117)) : dimension(src, k);
    const unsigned seed = seedFor(src);
    const int pts = static_cast<int>(std::max<int64_t>(2, src.chance(1, 40) ? std::min<int64_t>(70000, 150000 / dim) : std::min<int64_t>(src.pick({2, 5, 17, 70, 300, 1500}), 20000 / dim)));
    const bool normals = src.flag();
    src.note(gname(k), " dim=", dim, " seed=", seed, " points=", pts, normals ? " as normals" : " as uniforms");
    src.nontrivial(dim > 1);
    src.label(gname(k));
    auto g = mkgen(k, dim, seed);
    Uniform u; StandardNormalDistribution z;
    boost::random::sobol sob(k == SOBOL ? dim : 1); boost::random::faure fau(k == FAURE ? dim : 1);
    if (k == SOBOL) sob.seed(seed); else fau.seed(seed == 0 ? 1u : seed);
    std::vector<double> p(dim);
    for (int i = 0; i < pts; ++i) {
        if (k == SOBOL) for (auto& c : p) c = static_cast<double>(sob()) * 0x1p-64;
        else fau.generate(p.begin(), p.end());
        for (unsigned j = 0; j < dim; ++j) {
            if (normals) {
                const double got = (*g)(z), want = ref::ninv(p[j]);
                REQUIRE(std::fabs(got - want) <= 1e-7, "point ", i, " coordinate ", j, ": ", got, " instead of ", want);
            } else {
                const double got = (*g)(u);
                REQUIRE(got > 0 && got < 1, "uniform ", got, " not inside (0,1)");
                REQUIRE(close(got, p[j], 1e-14), "point ", i, " coordinate ", j, ": ", got, " instead of ", p[j]);
            }
        }
    }
}
// Independent of any library: 2^m consecutive aligned Sobol points put one point in each dyadic interval, per coordinate;
// for Faure, b^m aligned points put one point in each b-adic interval, b the smallest prime >= dim
PROP(C09, stratified, 3000, 50000, 0, "at least 8 points") {
    const int k = src.flag() ? SOBOL : FAURE;
    const unsigned dim = static_cast<unsigned>(src.range(1, k == SOBOL ? 60 : 13));
    unsigned b = 2;
    if (k == FAURE) { b = std::max(2u, dim); for (;; ++b) { bool pr = true; for (unsigned q = 2; q * q <= b; ++q) pr = pr && b % q; if (pr) break; } }
    unsigned n = b, m = 1;
    const unsigned want = static_cast<unsigned>(src.pick({8, 32, 200, 600}));
    while (n * b <= want) n *= b, ++m;
    const unsigned seed = n * static_cast<unsigned>(src.range(1, 40));
    src.note(gname(k), " dim=", dim, " base=", b, " points=", n, " seed=", seed);
    src.nontrivial(n >= 8);
    auto g = mkgen(k, dim, seed);
    Uniform u;
    std::vector<std::vector<int>> hit(dim, std::vector<int>(n, 0));
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < dim; ++j) {
        const double x = (*g)(u);
        const unsigned cell = std::min(n - 1, static_cast<unsigned>(std::floor(x * n + 1e-9)));
        ++hit[j][cell];
    }
    // boost's Sobol seed(s) starts at the point with index s or s+1 in Gray code order; allow one point to leave its block
    for (unsigned j = 0; j < dim; ++j) {
        int empty = 0, dbl = 0;
        for (int h : hit[j]) { empty += h == 0; dbl += h > 1; }
        REQUIRE(empty <= 1 && dbl <= 1, "coordinate ", j, ": ", empty, " empty and ", dbl, " doubly hit of ", n, " cells");
    }
}
// Long pseudo random streams: uniform, pairwise uncorrelated, no short period
PROP(C09, prng_quality, 64, 1500, 0, "at least 20000 draws") {
    const unsigned dim = dimension(src, PRNG), seed = seedFor(src);
    const int n = static_cast<int>(src.pick({20000, 100000, 200000}));
    src.note("dim=", dim, " seed=", seed, " draws=", n);
    src.nontrivial();
    PseudoRandomNumberGenerator g(dim, seed);
    Uniform u;
    std::vector<double> x(n);
    for (auto& v : x) { v = g(u); REQUIRE(v >= 0 && v < 1, "uniform ", v); }
    std::unordered_set<uint64_t> seen;
    int rep = 0;
    for (int i = 0; i < n; ++i) { uint64_t b; std::memcpy(&b, &x[i], 8); rep += !seen.insert(b).second; }
    REQUIRE(rep <= 2, rep, " repeated 53 bit values in ", n, " draws: the stream cycles");
    for (int lag : {1, 2, static_cast<int>(dim)}) {
        double c = 0; for (int i = lag; i < n; ++i) c += (x[i] - 0.5) * (x[i - lag] - 0.5);
        const double zc = c / std::sqrt(static_cast<double>(n - lag)) * 12.0;
        REQUIRE(std::fabs(zc) < 7, "lag ", lag, " correlation z=", zc);
    }
    std::sort(x.begin(), x.end());
    double D = 0; for (int i = 0; i < n; ++i) D = std::max({D, (i + 1.0) / n - x[i], x[i] - static_cast<double>(i) / n});
    REQUIRE(D * std::sqrt(static_cast<double>(n)) < 3.7, "Kolmogorov-Smirnov ", D * std::sqrt(static_cast<double>(n)));
}
PROP(C09, dim_zero, 300, 3000, 0, "a generator of dimension zero") {
    const int k = static_cast<int>(src.below(3));
    const bool seeded = src.flag(); const unsigned seed = seedFor(src);
    src.note(gname(k), seeded ? " seeded" : " unseeded", " seed=", seed);
    src.nontrivial();
    REQUIRE(throwsA<std::exception>([&] { if (seeded) mkgen(k, 0, seed); else mkgen(k, 0); }), "dimension 0 accepted");
}

// ---------------------------------------------------------------- C10
namespace {
// One-sample Kolmogorov-Smirnov distance of sorted x against a CDF (right continuous), with its left limit
template <class F, class G> double ks(std::vector<double>& x, F cdf, G left) {
    std::sort(x.begin(), x.end());
    const double n = static_cast<double>(x.size());
    double D = 0;
    for (size_t i = 0; i < x.size();) {
        size_t j = i; while (j < x.size() && x[j] == x[i]) ++j;
        D = std::max({D, std::fabs(static_cast<double>(j) / n - cdf(x[i])), std::fabs(static_cast<double>(i) / n - left(x[i]))});
        i = j;
    }
    return D * std::sqrt(n);
}
}  // namespace
PROP(C10, law, 3600, 12000, 0, "parameters other than the textbook ones") {
    const int which = static_cast<int>(src.below(6));
    const unsigned seed = src.seed32();
    const int n = static_cast<int>(src.pick({20000, 50000, 100000, src.chance(1, 12) ? 1000000 : 30000}));
    const bool far = src.chance(1, 3); // parameters over many decades
    std::shared_ptr<Distribution> d;
    std::function<double(double)> cdf, upper; // and its complement, accurate in the tail
    double mean = 0, var = 1, kurt = 3, lo = -INFINITY, hi = INFINITY;
    bool integer = false;
    const char* name = "";
    double a = 0, b = 1;
    switch (which) {
        case 0: name = "standard normal"; d = std::make_shared<StandardNormalDistribution>(); cdf = ref::ncdf; upper = [](double x) { return ref::ncdf(-x); }; break;
        case 1: a = far ? src.real(-1, 1) * src.logreal(1e-12, 1e12) : src.real(-100, 100); b = far ? std::max(std::fabs(a) * 1e-8, src.logreal(1e-12, 1e12)) : src.logreal(1e-3, 1e3); name = "normal"; upper = [=](double x) { return ref::ncdf((a - x) / b); };
            d = std::make_shared<NormalDistribution>(a, b); cdf = [=](double x) { return ref::ncdf((x - a) / b); }; mean = a; var = b * b; break;
        case 2: a = far ? src.real(-1, 1) * src.logreal(1e-12, 1e12) : src.real(-100, 100); b = a + (far ? std::max(std::fabs(a) * 1e-8, src.logreal(1e-12, 1e12)) : src.logreal(1e-3, 1e3)); name = "uniform"; upper = [=](double x) { return (b - x) / (b - a); };
            d = std::make_shared<ContinuousUniformDistribution>(a, b); cdf = [=](double x) { return std::min(1.0, std::max(0.0, (x - a) / (b - a))); };
            mean = (a + b) / 2; var = (b - a) * (b - a) / 12; kurt = 1.8; lo = a; hi = b; break;
        case 3: a = far ? src.logreal(1e-12, 1e12) : src.logreal(1e-3, 1e3); name = "exponential"; upper = [=](double x) { return std::exp(-a * x); };
            d = std::make_shared<ExponentialDistribution>(a); cdf = [=](double x) { return x <= 0 ? 0.0 : -std::expm1(-a * x); };
            mean = 1 / a; var = 1 / (a * a); kurt = 9; lo = 0; break;
        case 4: a = far ? src.chance(1, 3) ? src.logreal(1e-6, 0.02) : src.logreal(0.02, 1e5) : src.logreal(0.05, 50); b = far ? src.logreal(1e-10, 1e10) : src.logreal(1e-2, 1e2); name = "gamma"; upper = [=](double x) { return x <= 0 ? 1.0 : boost::math::gamma_q(a, b * x); };
            d = std::make_shared<GammaDistribution>(a, b); cdf = [=](double x) { return x <= 0 ? 0.0 : boost::math::gamma_p(a, b * x); };
            mean = a / b; var = a / (b * b); kurt = 3 + 6 / a; lo = 0; break;
        default: a = far ? src.logreal(1e-6, 1e6) : src.pick({src.logreal(1e-3, 1e3), static_cast<double>(src.range(1, 40)), src.real(9, 15)}); name = "Poisson"; integer = true;
            d = std::make_shared<PoissonDistribution>(a); cdf = [=](double x) { return x < 0 ? 0.0 : boost::math::gamma_q(std::floor(x) + 1.0, a); };
            mean = a; var = a; kurt = 3 + 1 / a; lo = 0; break;
    }
    src.note(name, "(", a, ", ", b, ") n=", n, " seed=", seed);
    src.nontrivial(which != 0);
    src.label(name);
    const double atom = which == 4 && a < 0.02 ? 1e-280 : 0.0; // most draws of such a law are smaller than any double: count them as one
    PseudoRandomNumberGenerator g(1, seed);
    std::vector<double> x(n);
    double s = 0, s2 = 0, lagc = 0, prev = 0;
    for (int i = 0; i < n; ++i) {
        const double v = x[i] = g(*d);
        REQUIRE(std::isfinite(v) && v >= lo && v <= hi, "draw ", v, " outside the support");
        if (integer) REQUIRE(v == std::floor(v), "draw ", v, " is not a count");
        if (atom > 0) x[i] = std::max(v, atom);
        const double c = v - mean;
        s += c; s2 += c * c; if (i) lagc += c * prev; prev = c;
    }
    const double N = n;
    const double zm = s / N / std::sqrt(var / N);
    // heavy kurtosis makes the variance estimate skewed: judge it only where it is nearly normal
    const double zv = (s2 / N - var) / (var * std::sqrt((kurt - 1) / N));
    const double zl = lagc / std::sqrt(N) / var;
    const bool calm = kurt < 60 && N / kurt > 1000;
    if (calm) {
        REQUIRE(std::fabs(zm) < 7.5, "mean ", mean + s / N, " instead of ", mean, " z=", zm);
        REQUIRE(std::fabs(zv) < 10, "variance ", s2 / N, " instead of ", var, " z=", zv);
        REQUIRE(std::fabs(zl) < 8, "successive draws correlated, z=", zl);
    }
    // a continuous law hardly ever repeats a value (32 random bits would repeat n^2 / 2^33 times)
    std::sort(x.begin(), x.end());
    if (!integer && !far && (which != 4 || a > 0.5)) { int ties = 0; for (int i = 1; i < n; ++i) ties += x[i] == x[i - 1]; REQUIRE(ties <= 20 + N * N / 5e8 , ties, " repeated values among ", n, " draws"); }
    const double D = ks(x, [&](double t) { return cdf(t); }, [&](double t) { return integer ? cdf(t - 1) : atom > 0 && t <= atom ? 0.0 : cdf(t); });
    REQUIRE(D < 3.9, "Kolmogorov-Smirnov statistic ", D);
    // Tails, which the statistics above hardly see: exact counts beyond far levels (x is sorted now; Poisson tails bound binomial ones)
    auto count = [&](double c, double m, const std::string& what) {
        const double pv = c > m ? boost::math::gamma_p(c, m) : m > 0 ? boost::math::gamma_q(c + 1, m) : 1.0;
        REQUIRE(pv > 1e-12, c, " of ", n, " draws ", what, ", expected ", m);
    };
    if (integer) for (int k = -6; k <= 7; ++k) {
        const double t = k == 7 ? 0.0 : std::floor(a + k * std::sqrt(a)); if (t < 0) continue;
        const double above = static_cast<double>(x.end() - std::upper_bound(x.begin(), x.end(), t)), P = boost::math::gamma_p(t + 1, a);
        if (P < 0.5) count(above, N * P, cat("above ", t)); else count(N - above, N * boost::math::gamma_q(t + 1, a), cat("at most ", t));
    } else for (double m : {30.0, 300.0, 3000.0}) {
        const double p = m / N;
        if (!(atom > 0 && upper(atom) < p)) count(static_cast<double>(x.end() - std::partition_point(x.begin(), x.end(), [&](double v) { return upper(v) >= p; })), m, cat("in the upper tail of probability ", p));
        if (!(atom > 0 && cdf(atom) > p)) count(static_cast<double>(std::partition_point(x.begin(), x.end(), [&](double v) { return cdf(v) <= p; }) - x.begin()), m, cat("in the lower tail of probability ", p));
    }
}
PROP(C10, rejects, 20000, 400000, 0, "an invalid parameter") {
    const int which = static_cast<int>(src.below(5));
    const double bad = src.pick<double>({0.0, -0.0, -1.0, -1e-3, -0.5, -1e9, -1e-300, NAN}), good = src.logreal(1e-9, 1e9);
    const bool first = src.flag();
    const double a = src.real(-5, 5);
    src.note("distribution ", which, " bad=", bad, " good=", good, " a=", a, " first=", first);
    src.nontrivial();
    bool t = false;
    switch (which) {
        case 0: t = throwsA<std::invalid_argument>([&] { NormalDistribution d(a, bad); }); break;
        case 1: t = throwsA<std::invalid_argument>([&] { ContinuousUniformDistribution d(a, a + bad); }); break;
        case 2: t = throwsA<std::invalid_argument>([&] { ExponentialDistribution d(bad); }); break;
        case 3: t = throwsA<std::invalid_argument>([&] { GammaDistribution d(first ? bad : good, first ? good : bad); }); break;
        default: t = throwsA<std::invalid_argument>([&] { PoissonDistribution d(bad); }); break;
    }
    REQUIRE(t, "invalid parameter accepted");
    // and the valid counterparts are accepted
    NormalDistribution n(a, good); ContinuousUniformDistribution c(a, a + good); ExponentialDistribution e(good); GammaDistribution gm(good, good); PoissonDistribution p(good);
}
// Every law guards its inverse, and a normal inverse, where offered, is the affine image of the standard one
PROP(C08, general, 40000, 1000000, 0, "a normal law or a level outside (0,1)") {
    const int w = static_cast<int>(src.range(0, 5));
    const double a = src.real(-3, 3), b = src.logreal(0.01, 50), q = src.pick<double>({src.unit(), 0.0, 1.0, -0.0, -src.logreal(1e-300, 1e3), 1.0 + src.logreal(1e-15, 1e3), -INFINITY, INFINITY, src.logreal(1e-12, 0.5), NAN});
    const bool inside = q > 0 && q < 1;
    src.note("law ", w, " a=", a, " b=", b, " level ", q);
    src.nontrivial(!inside || w <= 1);
    auto d = anyDist(w, a, b);
    bool threw = false; double v = 0;
    try { v = d->inv_cdf(q); } catch (const std::logic_error&) { threw = true; }
    if (!inside) { REQUIRE(threw, "level ", q, " accepted"); return; }
    if (w == 0) REQUIRE(!threw && close(v, ref::ninv(q), 0, tolAt(q)), "standard normal inverse of ", q);
    if (w == 1 && !threw) REQUIRE(close(v, a + b * ref::ninv(q), 1e-12, b * tolAt(q)), "inverse of ", q, " is ", v, " instead of ", a + b * ref::ninv(q));
}
// An inverse that is offered inverts the law, into the tails
PROP(C10, inverse, 400000, 6000000, 0, "the level is strictly inside (0,1)") {
    const double u = level(src), a = src.real(-2, 2), b = src.logreal(0.1, 10);
    const bool general = src.chance(1, 4);
    if (!(u > 0 && u < 1)) return;
    src.note(general ? cat("normal(", a, ",", b, ")") : "standard normal", " level ", u);
    src.nontrivial();
    auto d = general ? std::shared_ptr<Distribution>(std::make_shared<NormalDistribution>(a, b)) : std::make_shared<StandardNormalDistribution>();
    double x;
    try { x = d->inv_cdf(u); } catch (const std::logic_error&) { REQUIRE(general, "the standard normal law refused the level ", u); return; }
    if (general) x = (x - a) / b;
    REQUIRE(close(x, ref::ninv(u), general ? 1e-12 : 0, tolAt(u)), "inverse of ", u, " is ", x, " standard deviations, expected ", ref::ninv(u));
}
// Laws without an inverse say so instead of returning something
PROP(C10, no_inverse, 4000, 50000, 0, "a law with no inverse CDF") {
    const double q = src.unit(), a = src.real(-2, 2), b = src.real(0.1, 5);
    const int w = static_cast<int>(src.range(1, 5));
    src.note("law ", w, " level ", q);
    src.nontrivial();
    auto d = anyDist(w, a, b);
    bool threw = false; double v = 0;
    try { v = d->inv_cdf(q); } catch (const std::logic_error&) { threw = true; }
    if (!threw) { // an implementation is welcome if it is right
        if (!(q > 1e-6 && q < 1 - 1e-6)) return;
        double F = q;
        if (w == 1) F = ref::ncdf((v - a) / b);
        else if (w == 2) F = (v - a) / b;
        else if (w == 3) F = -std::expm1(-b * v);
        else if (w == 4) F = boost::math::gamma_p(b, (1.0 + std::fabs(a)) * v);
        else { const double up = boost::math::gamma_q(v + 1, b), dn = v > 0 ? boost::math::gamma_q(v, b) : 0.0; F = q <= up + 1e-9 && q >= dn - 1e-9 ? q : -1; }
        REQUIRE(std::fabs(F - q) < 1e-6, "inverse CDF of ", q, " is ", v);
    }
}
