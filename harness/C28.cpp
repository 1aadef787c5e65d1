// flavor: san
// C28: random number streams can be jumped, numbers lie in their intervals and have the right frequencies
#include "pbt.hpp"
#include "util/rng_lcg.hpp"
using pbt::Case;
using pbt::Draw;
using pbt::fmt;
using mocc::RNG_LCG;

static uint64_t any64(Draw &d) {
    switch (d.range(0, 3)) {
    case 0: return d.range(0, 20);
    case 1: return (uint64_t)1 << d.range(0, 63);
    case 2: return ~(uint64_t)0 >> d.range(0, 63);
    default: return ((uint64_t)d.raw(0xffffffffu) << 32) ^ d.raw(0xffffffffu);
    }
}

// seed whose next state is v: the map of one step is linear, x -> a x + b modulo 2^63
static uint64_t seed_before(uint64_t v) {
    const uint64_t mask = ~((uint64_t)1 << 63);
    RNG_LCG r0(0), r1(1);
    uint64_t b = r0(), a = (r1() - b) & mask, inv = 1;
    for (int i = 0; i < 7; i++) inv *= 2 - a * inv; // inverse of an odd number modulo 2^64
    return ((v - b) * inv) & mask;
}

static void jumps(Draw &d, Case &c) {
    uint64_t seed = any64(d);
    c.desc << "seed " << seed << "\n";
    int n = d.chance(0.2) ? d.range(0, 60000) : d.range(0, 300);
    RNG_LCG a(seed), b(seed);
    for (int i = 0; i < n; i++) a();
    b.jump_ahead(n);
    c.desc << "draw " << n << "\n";
    c.check(a() == b(), "jump", fmt("after %d numbers", n));
    // jumps of any length compose, with draws in between
    int parts = d.range(2, 5);
    RNG_LCG e(seed), f(seed);
    uint64_t total = 0;
    for (int i = 0; i < parts; i++) {
        uint64_t s = any64(d) >> d.range(0, 3);
        int m = d.range(0, 40);
        c.desc << "jump " << s << " draw " << m << "\n";
        f.jump_ahead(s);
        for (int j = 0; j < m; j++) f();
        total += s + m;
    }
    e.jump_ahead(total); // the period divides 2^64
    for (int i = 0; i < 3; i++) c.check(e() == f(), "compose", fmt("jump of %llu", (unsigned long long)total));
    // assignment and seeding take over the state
    RNG_LCG g(any64(d)), h;
    g = e;
    c.check(g() == e(), "assign", "");
    h.set_seed(seed);
    RNG_LCG k(seed);
    c.check(h() == k() && h.random() == k.random(), "seed", "");
    c.nontrivial(n > 1 && total > 1);
    c.label("jumps");
}

static void intervals(Draw &d, Case &c) {
    // states at which rounding matters are put next
    uint64_t v;
    switch (d.range(0, 4)) {
    case 0: v = (((uint64_t)1 << 63) - 1) - (d.chance(0.5) ? d.range(0, 5) : d.range(0, 3000)); break;
    case 1: v = d.range(0, 5); break;
    case 2: v = (uint64_t)d.range(0, 16) << 59 >> 1; break;
    default: v = any64(d) >> 1;
    }
    v &= ~((uint64_t)1 << 63);
    uint64_t s = seed_before(v);
    c.desc << "state " << v << " seed " << s << "\n";
    {
        RNG_LCG r(s);
        c.check(r() == v, "state", "step is not invertible");
    }
    double want = (double)v / 9223372036854775808.0;
    {
        RNG_LCG r(s);
        double x = r.random();
        c.check(x >= 0 && x < 1, "unit-interval", fmt("%.17g", x));
        c.close(x, want, 0, 3e-16, "value", "");
    }
    double u = d.logreal(1e-6, 1e6), l = d.real(-100.0, 100.0);
    {
        RNG_LCG r(s);
        double x = r.random(u);
        c.check(x >= 0 && x < u, "upper-bound", fmt("%.17g of %.17g", x, u));
        c.close(x, want * u, 1e-14, 1e-300, "scaled", "");
    }
    {
        RNG_LCG r(s);
        double x = r.random(l, l + u);
        c.check(x >= l && x <= l + u, "interval", fmt("%.17g in %.17g %.17g", x, l, l + u));
        c.close(x, l + u * want, 1e-13, 1e-13 * (std::fabs(l) + u), "shifted", "");
    }
    int n = d.chance(0.5) ? d.range(1, 20) : d.range(1, 2000000000);
    {
        RNG_LCG r(s);
        int i = r.random_int(n);
        c.check(i >= 0 && i < n, "integer-range", fmt("%d of %d", i, n));
        c.close(i, std::floor(want * n), 0, 1.01, "integer", fmt("of %d", n));
    }
    // a table with empty bins, also first and last
    int nb = d.range(1, 8);
    std::vector<double> pdf(nb), cdf;
    double sum = 0;
    for (auto &x : pdf) sum += x = d.chance(0.35) ? 0.0 : d.chance(0.3) ? 0.25 : d.real(0.01, 1.0);
    if (!(sum > 0)) sum = pdf[d.range(0, nb - 1)] = 1.0;
    double run = 0;
    for (auto &x : pdf) cdf.push_back(run += x / sum);
    if (std::fabs(run - 1) > 2e-16) for (auto &x : cdf) x /= run;
    if (d.chance(0.5)) for (auto &x : cdf) if (x == cdf.back()) x = 1.0;
    if (std::fabs(cdf.back() - 1) > 2.3e-16) c.discard("table not normalised");
    RNG_LCG r(s);
    int i = r.sample_cdf(cdf);
    c.check(i >= 0 && i < nb, "bin-range", fmt("bin %d of %d", i, nb));
    c.check(pdf[i] > 0, "empty-bin", fmt("bin %d has no probability", i));
    c.check(want >= (i ? cdf[i - 1] : 0.0) - 1e-12 && want <= cdf[i] + 1e-12, "bin", fmt("bin %d for %.17g", i, want));
    c.nontrivial(nb > 1);
    c.label(v < 6 || v > ((uint64_t)1 << 63) - 4000 ? "extreme state" : "state");
}

static void frequencies(Draw &d, Case &c) {
    uint64_t seed = any64(d) | 1;
    RNG_LCG r(seed);
    r.jump_ahead(any64(d));
    int n = 20000, nb = d.range(2, 30), mode = d.range(0, 3);
    std::vector<double> p(nb, 1.0 / nb), cdf;
    double l = d.real(-10.0, 10.0), u = d.logreal(0.01, 100.0);
    if (mode == 3) {
        double s = 0;
        for (auto &x : p) s += x = d.real(0.05, 1.0);
        for (auto &x : p) x /= s;
        s = 0;
        for (auto &x : p) cdf.push_back(s += x);
        cdf.back() = 1.0;
    }
    c.desc << "seed " << seed << " mode " << mode << " bins " << nb << "\n";
    std::vector<int> h(nb, 0);
    double mean = 0, pairs = 0, prev = 0.5;
    for (int i = 0; i < n; i++) {
        int b = 0;
        double x = 0;
        if (mode == 0) x = r.random(), b = x * nb;
        if (mode == 1) x = (r.random(l, l + u) - l) / u, b = x * nb;
        if (mode == 2) b = r.random_int(nb), x = (b + 0.5) / nb;
        if (mode == 3) b = r.sample_cdf(cdf), x = 0.5;
        c.check(b >= 0 && b < nb, "range", fmt("bin %d of %d", b, nb));
        h[b]++;
        mean += x;
        pairs += (x - 0.5) * (prev - 0.5);
        prev = x;
    }
    for (int i = 0; i < nb; i++) {
        double s = std::sqrt(n * p[i] * (1 - p[i]));
        c.close(h[i], n * p[i], 0, 7 * s + 1, "frequency", fmt("bin %d mode %d", i, mode));
    }
    if (mode < 3) {
        c.close(mean / n, 0.5, 0, 7 * std::sqrt(1.0 / 12 / n), "mean", "");
        c.close(pairs / n, 0.0, 0, 7.0 / 12 / std::sqrt(n), "correlation", "");
    }
    c.nontrivial(true);
    c.label(fmt("frequencies %d", mode));
}

static void go(Draw &d, Case &c) {
    switch (d.weighted({4, 6, 1})) {
    case 0: jumps(d, c); break;
    case 1: intervals(d, c); break;
    default: frequencies(d, c);
    }
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C28";
    s.fn = go;
    s.rule = "a jump of more than one number, a table of several bins, or a histogram";
    s.oracle = "stepping one number at a time, states put in place by inverting the step, binomial frequencies";
    s.quick_cases = 60000;
    s.thorough_cases = 1000000;
    s.batch = 500;
    s.assumptions = {"frequencies within 7 standard deviations"};
    return pbt::pbt_main(argc, argv, s);
}
