// Reference values: closed forms and helpers shared by the harnesses. Nothing here calls the library.
#pragma once
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <random>

namespace ref {

inline double ncdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
inline double npdf(double x) { return std::exp(-0.5 * x * x) / std::sqrt(2.0 * M_PI); }

// Inverse normal: bisection-free, Newton on the smaller tail; accurate to ~1e-15 relative for u in (1e-300, 1-1e-16)
inline double ninv(double u) {
    if (u == 0.5) return 0.0;
    const bool hi = u > 0.5;
    const double p = hi ? 1.0 - u : u; // exact for u > 0.5 (Sterbenz)
    // lower tail quantile x <= 0 with ncdf(x) = p
    double lo = -40.0, up = 0.0;
    double x = p > 0.02 ? (p - 0.5) * std::sqrt(2 * M_PI) : -std::sqrt(-2.0 * std::log(p));
    for (int i = 0; i < 200; ++i) {
        const double c = ncdf(x);
        if (c > p) up = x; else lo = x;
        const double step = (std::log(c) - std::log(p)) * c / npdf(x);
        double nx = x - step;
        if (!(nx > lo && nx < up)) nx = 0.5 * (lo + up);
        if (std::fabs(nx - x) <= 1e-16 * std::fabs(nx)) { x = nx; break; }
        x = nx;
    }
    return hi ? -x : x;
}

struct BS { double d1, d2, df, dq; };
inline BS bs(double S, double K, double T, double r, double q, double v) {
    BS b; const double sd = v * std::sqrt(T);
    b.df = std::exp(-r * T); b.dq = std::exp(-q * T);
    const double m = std::log(S / K) + (r - q) * T;
    if (sd > 0) { b.d1 = m / sd + 0.5 * sd; b.d2 = b.d1 - sd; }
    else b.d1 = b.d2 = m > 0 ? 1e300 : m < 0 ? -1e300 : 0.0;
    return b;
}
inline double bsVanilla(bool call, double S, double K, double T, double r, double q, double v) {
    if (K <= 0) return call ? S * std::exp(-q * T) : 0.0;
    if (v * std::sqrt(T) == 0) {
        const double f = S * std::exp(-q * T) - K * std::exp(-r * T);
        return call ? std::max(f, 0.0) : std::max(-f, 0.0);
    }
    const BS b = bs(S, K, T, r, q, v);
    return call ? S * b.dq * ncdf(b.d1) - K * b.df * ncdf(b.d2) : K * b.df * ncdf(-b.d2) - S * b.dq * ncdf(-b.d1);
}
inline double bsDigital(bool call, double S, double K, double T, double r, double q, double v) {
    const BS b = bs(S, K, T, r, q, v);
    return b.df * ncdf(call ? b.d2 : -b.d2);
}

inline double payoffVanilla(bool call, double S, double K) { const double d = call ? S - K : K - S; return d > 0 ? d : 0.0; }

}  // namespace ref
