// flavor: san
// C10: fast exponentials stay within their documented error
#include "pbt.hpp"
#include <iostream>
#include <memory>
#include "util/global_config.hpp"
#include "core/exponential.hpp"
using pbt::Case;
using pbt::Draw;
using pbt::fmt;

template <int N> static void check(Draw &d, Case &c, double lo, double hi, bool dflt) {
    c.desc << fmt("table of %d intervals over [%.17g, %.17g]\n", N, lo, hi);
    std::unique_ptr<mocc::Exponential_Linear<N>> t(dflt ? new mocc::Exponential_Linear<N>() : new mocc::Exponential_Linear<N>(lo, hi));
    double h = (hi - lo) / N;
    c.close(t->dx(), h, 1e-14, 0, "dx", "");
    double prevx = 0, prevy = 0;
    bool have = false, in = false, out = false, ends = false;
    double worst = t->max_error();
    int n = d.range(1, 40);
    for (int k = 0; k < n; k++) {
        double x;
        switch (d.weighted({6, 3, 3, 2, 2, 2})) {
        case 0: x = lo + d.real(0, 1) * (hi - lo); break;
        case 1: { // at or within rounding of a table point
            int i = d.range(0, N);
            x = lo + i * h;
            int u = d.range(-3, 3);
            for (int s = 0; s < std::abs(u); s++) x = std::nextafter(x, u < 0 ? -INFINITY : INFINITY);
            break;
        }
        case 2: { // the ends of the table
            x = d.chance(0.5) ? hi : lo;
            int u = d.range(-2, 2);
            for (int s = 0; s < std::abs(u); s++) x = std::nextafter(x, u < 0 ? -INFINITY : INFINITY);
            ends = true;
            break;
        }
        case 3: x = lo - d.logreal(1e-12, 500); break;
        case 4: x = hi + d.logreal(1e-12, 50); break;
        default: // close to zero, as thin regions give; 0 and -0 as void gives
            x = d.chance(0.3) ? (d.chance(0.5) ? 0.0 : -0.0) : -d.logreal(1e-300, 1e-3);
        }
        double e = std::exp(x), y = t->exp(x);
        auto w = fmt("exp(%.17g) = %.17g, true value %.17g", x, y, e);
        c.check(std::isfinite(y), "not-finite", w);
        bool inside = x >= lo && x <= hi;
        double top = inside ? std::exp(std::min(hi, x + h * 1.000001)) : e;
        double rnd = 4e-16 * (4 + std::abs(lo) + std::abs(hi)) * top + 4e-16 * e;
        if (!inside) {
            out = true;
            c.check(std::abs(y - e) <= 4e-16 * e || (e == 0 && y == 0), "outside-table", w);
        } else {
            in = true;
            c.check(y - e <= h * h / 8 * top + rnd, "error-above", w);
            c.check(e - y <= rnd, "error-below", w); // linear interpolation of a convex function lies above it
            if (h <= 0.1) c.check((y - e) / e <= worst * 1.1 + 1e-13 * (1 + std::abs(lo)), "max-error", w + fmt(", reported worst %.6g", worst));
        }
        if (std::abs(x - lo) <= 1e-15 * std::abs(lo) || std::abs(x - hi) <= 1e-15 * std::abs(hi))
            c.check(std::abs(y - e) <= 1e-13 * (1 + std::abs(lo) + std::abs(hi)) * top, "ends", w);
        c.check(y >= 0, "negative", w);
        if (x <= 0) c.check(y <= 1 + rnd + (inside && hi > 0 ? h * h / 8 * top : 0), "growth", w); // a table across zero interpolates there
        if (have) {
            bool up = x >= prevx;
            c.check(up ? y >= prevy - rnd - h * h / 8 * top * (inside ? 0 : 1) : y <= prevy + rnd + 4e-16 * (4 + std::abs(lo) + std::abs(hi)) * prevy + h * h / 8 * top,
                    "not-monotone", w);
        }
        if (inside) { have = true; prevx = x; prevy = y; } else have = false;
    }
    c.check(worst >= 0 && worst <= h * h / 8 * std::exp(h) + 1e-13 * (1 + std::abs(lo) + std::abs(hi)), "max-error", fmt("%.6g for spacing %.6g", worst, h));
    // table points reproduce the true value
    for (int k = 0; k < 4; k++) {
        int i = d.range(0, N);
        double e = std::exp(lo + i * h);
        c.close((*t)[i], e, 1e-14 * (1 + std::abs(lo) + std::abs(hi)), 0, "table-point", fmt("%d", i));
    }
    mocc::Exponential plain;
    double x = d.real(-700, 50);
    c.check(plain.exp(x) == std::exp(x) && plain.max_error() == 0.0, "plain", "");
    if (ends) c.label("arguments at the ends of the table");
    c.nontrivial(in && out && ends);
}

static void run(Draw &d, Case &c) {
    std::cout.setstate(std::ios::failbit); // arguments outside the table are reported there
    bool dflt = d.chance(0.3);
    double lo = -10, hi = 0;
    if (!dflt) {
        int k = d.weighted({4, 2, 2});
        if (k == 0) { lo = -d.logreal(0.01, 60); hi = 0; }
        else if (k == 1) { lo = d.real(-20, 5); hi = lo + d.logreal(0.01, 30); }
        else { lo = 0; hi = d.logreal(0.01, 20); }
    }
    switch (d.range(0, 8)) {
    case 0: check<1>(d, c, lo, hi, dflt); break;
    case 1: check<2>(d, c, lo, hi, dflt); break;
    case 2: check<5>(d, c, lo, hi, dflt); break;
    case 3: check<7>(d, c, lo, hi, dflt); break;
    case 4: check<64>(d, c, lo, hi, dflt); break;
    case 5: check<100>(d, c, lo, hi, dflt); break;
    case 6: check<1000>(d, c, lo, hi, dflt); break;
    case 7: check<3001>(d, c, lo, hi, dflt); break;
    default: check<10000>(d, c, lo, hi, dflt);
    }
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C10";
    s.fn = run;
    s.rule = "arguments inside, outside and at the ends of the table";
    s.oracle = "the library exponential, the error bound of linear interpolation, monotonicity; address and undefined-behaviour sanitizers";
    s.quick_cases = 200000;
    s.thorough_cases = 1000000;
    s.batch = 500;
    s.assumptions = {"arguments are finite"};
    return pbt::pbt_main(argc, argv, s);
}
