// flavor: opt
// C08: angular quadratures integrate over the sphere and reflect onto themselves
#include "quads.hpp"
#include "util/h5file.hpp"
#include <algorithm>
using namespace model;
using mocc::Surface;
using mocc::Normal;

static const int SGN[8][3] = {{1, 1, 1}, {-1, 1, 1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, -1}, {1, -1, -1}};

static double dfact(int n) { double r = 1; for (; n > 1; n -= 2) r *= n; return r; }
// mean of x^2a y^2b z^2c over the sphere
static double mean_moment(int a, int b, int c) { return dfact(2 * a - 1) * dfact(2 * b - 1) * dfact(2 * c - 1) / dfact(2 * (a + b + c) + 1); }

struct Ang { double o[3], w; };

// everything that has to hold whatever the family
static void structure(Case &c, const mocc::AngularQuadrature &q, const std::vector<Ang> *want, const char *when, double tol) {
    int n = q.ndir_oct();
    c.check(n > 0 && q.ndir() == 8 * n, "size", fmt("%s: %d angles, %d per octant", when, q.ndir(), n));
    if (want) c.check((int)want->size() == n, "size", fmt("%s: %d per octant, expected %d", when, n, (int)want->size()));
    double sum = 0;
    int cnt = 0;
    for (auto it = q.begin(); it != q.end(); ++it) cnt++;
    c.check(cnt == q.ndir(), "iteration", when);
    for (int oc = 0; oc < 8; oc++) {
        double ws = 0;
        c.check(q.octant(oc + 1) - q.begin() == oc * n, "octant-iterator", when);
        for (int i = 0; i < n; i++) {
            const auto &a = q[oc * n + i];
            const auto &b = q[i];
            auto w = fmt("%s octant %d angle %d (%.15g %.15g %.15g w=%.15g)", when, oc + 1, i, a.ox, a.oy, a.oz, a.weight);
            double v[3] = {a.ox, a.oy, a.oz}, u[3] = {b.ox, b.oy, b.oz};
            double rho2 = v[0] * v[0] + v[1] * v[1];
            c.check(std::abs(rho2 + v[2] * v[2] - 1) < tol, "unit", w);
            c.check(a.weight > 0, "weight-positive", w);
            c.check(std::abs(a.weight - b.weight) <= 1e-15, "weight-repeat", w);
            for (int k = 0; k < 3; k++) {
                c.check(v[k] * SGN[oc][k] > 0, "octant-sign", w);
                c.check(std::abs(std::abs(v[k]) - std::abs(u[k])) < 1e-12, "octant-mirror", w);
            }
            // the stored angles describe the same direction
            double s = std::sqrt(rho2);
            double sa = std::min(std::abs(v[0]), std::abs(v[1])) / s;
            double t = 1e-13 * (1 + 1 / sa + 1 / (s * s)) + tol;
            c.check(std::abs(std::sin(a.theta) * std::cos(a.alpha) - v[0]) < t && std::abs(std::sin(a.theta) * std::sin(a.alpha) - v[1]) < t &&
                        std::abs(std::cos(a.theta) - v[2]) < t,
                    "alpha-theta", w + fmt(" alpha=%.15g theta=%.15g", a.alpha, a.theta));
            c.check(std::abs(a.rsintheta * s - 1) < t, "rsintheta", w);
            c.check(a.alpha > 0 && a.alpha < 2 * PI_, "alpha-range", w);
            ws += a.weight;
        }
        c.check(std::abs(ws - 1) < 1e-12, "weight-sum", fmt("%s octant %d: %.17g", when, oc + 1, ws));
        sum += ws;
    }
    if (want) {
        // same set of weighted directions, in any order
        std::vector<char> used(n, 0);
        for (int i = 0; i < n; i++) {
            int hit = -1;
            const auto &a = q[i];
            for (int j = 0; j < n && hit < 0; j++) {
                const Ang &b = (*want)[j];
                if (!used[j] && std::abs(a.ox - b.o[0]) < 1e-10 && std::abs(a.oy - b.o[1]) < 1e-10 && std::abs(a.oz - b.o[2]) < 1e-10 &&
                    std::abs(a.weight - b.w) < 1e-10)
                    hit = j;
            }
            c.check(hit >= 0, "not-expected", fmt("%s angle %d (%.15g %.15g %.15g w=%.15g) is not one of the rule", when, i, a.ox, a.oy, a.oz, a.weight));
            used[hit] = 1;
        }
    }
    // reflections and reversals
    for (int i = 0; i < q.ndir(); i++) {
        const auto &a = q[i];
        double v[3] = {a.ox, a.oy, a.oz};
        for (int k = 0; k < 3; k++) {
            static const Normal N[3] = {Normal::X_NORM, Normal::Y_NORM, Normal::Z_NORM};
            static const Surface S[3][2] = {{Surface::EAST, Surface::WEST}, {Surface::NORTH, Surface::SOUTH}, {Surface::TOP, Surface::BOTTOM}};
            unsigned r = q.reflect(i, N[k]);
            c.check((int)r < q.ndir(), "reflect-range", when);
            double u[3] = {q[r].ox, q[r].oy, q[r].oz};
            for (int m = 0; m < 3; m++)
                c.check(std::abs(u[m] - (m == k ? -v[m] : v[m])) < 1e-12, "reflect", fmt("%s angle %d across axis %d gives %d", when, i, k, (int)r));
            c.check(q[r].weight == a.weight || std::abs(q[r].weight - a.weight) < 1e-15, "reflect-weight", when);
            for (int e = 0; e < 2; e++) c.check(q.reflect(i, S[k][e]) == r, "reflect-surface", fmt("%s angle %d axis %d", when, i, k));
            c.check((int)q.reflect(r, N[k]) == i, "reflect-twice", when);
        }
        unsigned r3 = q.reverse(i, 3), r2 = q.reverse(i);
        c.check((int)r3 < q.ndir() && (int)r2 < q.ndir() && q.reverse(i, 2) == r2, "reverse-range", when);
        c.check(std::abs(q[r3].ox + v[0]) < 1e-12 && std::abs(q[r3].oy + v[1]) < 1e-12 && std::abs(q[r3].oz + v[2]) < 1e-12, "reverse-3d",
                fmt("%s angle %d gives %d", when, i, (int)r3));
        c.check(std::abs(q[r2].ox + v[0]) < 1e-12 && std::abs(q[r2].oy + v[1]) < 1e-12 && std::abs(q[r2].oz - std::abs(v[2])) < 1e-12, "reverse-2d",
                fmt("%s angle %d gives %d", when, i, (int)r2));
    }
}

static double moment(const mocc::AngularQuadrature &q, int a, int b, int cc) {
    double s = 0, w = 0;
    for (const auto &x : q) {
        s += x.weight * std::pow(x.ox, 2 * a) * std::pow(x.oy, 2 * b) * std::pow(x.oz, 2 * cc);
        w += x.weight;
    }
    return s / w;
}

// nodes in (0,1) of the 2n-point Gauss-Legendre rule, by bisection on the sign of P_2n
static std::vector<std::pair<double, double>> gauss(int n) {
    int N = 2 * n;
    auto P = [&](long double x, long double &pm1) {
        long double p0 = 1, p1 = x;
        for (int k = 1; k < N; k++) { long double p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
        pm1 = p0;
        return p1;
    };
    std::vector<std::pair<double, double>> r;
    const int M = 4000 + 40 * N * N;
    long double pm;
    long double prev = P(1e-9L, pm);
    for (int i = 1; i <= M && (int)r.size() < n; i++) {
        long double lo = 1e-9L + (1.0L - 1e-9L) * (i - 1) / M, hi = 1e-9L + (1.0L - 1e-9L) * i / M;
        long double cur = P(hi, pm);
        if ((prev < 0) != (cur < 0)) {
            long double a = lo, b = hi, fa = prev;
            for (int t = 0; t < 70; t++) {
                long double m = (a + b) / 2, fm = P(m, pm);
                if ((fm < 0) == (fa < 0)) a = m; else b = m;
            }
            long double x = (a + b) / 2;
            P(x, pm);
            long double dp = N * pm / (1 - x * x); // derivative at a root
            r.emplace_back((double)x, (double)(2 / ((1 - x * x) * dp * dp)));
        }
        prev = cur;
    }
    return r;
}

static void run(Draw &d, Case &c) {
    std::string fam = d.pick(std::vector<std::string>{"ls", "cg", "cy", "user"});
    std::string xml;
    std::vector<Ang> want;
    bool have_want = false;
    int order = 0, nazi = 0, npol = 0;
    std::vector<double> pth, pw; // polar angle and weight of product rules
    const bool longname = d.chance(0.3);
    if (fam == "ls") {
        order = 2 * (int)d.range(1, 8);
        xml = fmt("<ang_quad type=\"%s\" order=\"%d\" />", longname ? "level-symmetric" : "ls", order);
    } else if (fam == "cg" || fam == "cy") {
        nazi = d.range(1, d.chance(0.2) ? 64 : 12);
        npol = fam == "cy" ? 3 : (int)d.range(1, d.chance(0.2) ? 24 : 8);
        xml = fmt("<ang_quad type=\"%s\" n_azimuthal=\"%d\" n_polar=\"%d\" />",
                  fam == "cg" ? (longname ? "chebyshev-gauss" : "cg") : (longname ? "Chebyshev-Yamamoto" : "CY"), nazi, npol);
        if (fam == "cg") {
            auto g = gauss(npol);
            c.check((int)g.size() == npol, "model", "Gauss nodes");
            for (auto &e : g) { pth.push_back(std::acos(e.first)); pw.push_back(e.second); }
        } else {
            // Tabuchi-Yamamoto three-point rule (sine of polar angle, weight)
            const double s[3] = {0.166648, 0.537707, 0.932954}, w[3] = {0.046233, 0.283619, 0.670148};
            for (int i = 0; i < 3; i++) { pth.push_back(std::asin(s[i])); pw.push_back(w[i]); }
        }
        if (fam == "cg") {
            have_want = true;
            for (int i = 0; i < nazi; i++)
                for (int j = 0; j < npol; j++) {
                    double al = PI_ / 2 * (i + 0.5) / nazi;
                    want.push_back({{std::sin(pth[j]) * std::cos(al), std::sin(pth[j]) * std::sin(al), std::cos(pth[j])}, pw[j] / nazi});
                }
        }
    } else {
        int n = d.range(1, 12);
        std::vector<double> w;
        double tot = 0;
        for (int i = 0; i < n; i++) { w.push_back(d.logreal(0.001, 1.0)); tot += w.back(); }
        double left = 1;
        xml = "<ang_quad type=\"user\">";
        have_want = true;
        for (int i = 0; i < n; i++) {
            double wi = i + 1 < n ? w[i] / tot : left;
            left -= wi;
            if (wi <= 0) c.discard("weights");
            auto edge = [&](double hi) { return d.chance(0.15) ? d.logreal(1e-5, 0.01) : d.chance(0.15) ? hi - d.logreal(1e-5, 0.01) : d.real(0.01, hi - 0.01); };
            double al = edge(PI_ / 2), th = edge(PI_ / 2);
            bool cosines = d.chance(0.4);
            double o[3] = {std::sin(th) * std::cos(al), std::sin(th) * std::sin(al), std::cos(th)};
            if (cosines)
                xml += "<angle ox=\"" + num(o[0]) + "\" oy=\"" + num(o[1]) + "\" oz=\"" + num(o[2]) + "\" weight=\"" + num(wi) + "\" />";
            else
                xml += "<angle alpha=\"" + num(al) + "\" theta=\"" + num(th) + "\" weight=\"" + num(wi) + "\" />";
            want.push_back({{o[0], o[1], o[2]}, wi});
        }
        xml += "</ang_quad>";
    }
    c.desc << xml << "\n";
    Doc doc(xml);
    mocc::AngularQuadrature q(doc.doc.child("ang_quad"));
    double tol = 1e-13;
    if (fam == "ls") tol = 3e-7; // tabulated cosines of S4, S6 and S14 carry six digits, but the set is unit by construction
    structure(c, q, have_want ? &want : nullptr, "as built", fam == "ls" ? 1e-12 : tol);
    c.label(fam);
    c.nontrivial(q.ndir_oct() > 1);

    if (fam == "ls") {
        int n = order / 2;
        c.check(q.ndir_oct() == n * (n + 1) / 2, "ls-count", "");
        // levels: every cosine is one of n values, the same along each axis
        std::vector<double> lev;
        for (int i = 0; i < q.ndir_oct(); i++)
            for (double v : {q[i].ox, q[i].oy, q[i].oz}) {
                bool f = false;
                for (double l : lev) f = f || std::abs(l - v) < 1e-10;
                if (!f) lev.push_back(v);
            }
        c.check((int)lev.size() == n, "ls-levels", fmt("%d", (int)lev.size()));
        // any exchange of axes maps the weighted set to itself
        for (int i = 0; i < q.ndir_oct(); i++) {
            double v[3] = {q[i].ox, q[i].oy, q[i].oz};
            int pm[3] = {0, 1, 2};
            do {
                bool f = false;
                for (int j = 0; j < q.ndir_oct() && !f; j++)
                    f = std::abs(q[j].ox - v[pm[0]]) < 1e-10 && std::abs(q[j].oy - v[pm[1]]) < 1e-10 && std::abs(q[j].oz - v[pm[2]]) < 1e-10 &&
                        std::abs(q[j].weight - q[i].weight) < 1e-12;
                c.check(f, "ls-symmetry", fmt("S%d angle %d under exchange of axes", order, i));
            } while (std::next_permutation(pm, pm + 3));
        }
        c.check(std::abs(moment(q, 1, 0, 0) - 1. / 3) < 1e-12 && std::abs(moment(q, 0, 1, 0) - 1. / 3) < 1e-12 && std::abs(moment(q, 0, 0, 1) - 1. / 3) < 1e-12,
                "ls-second", "");
        if (order >= 4) {
            double t = order <= 8 ? 3e-6 : 1.5e-2;
            c.check(std::abs(moment(q, 0, 0, 2) * 5 - 1) < t && std::abs(moment(q, 2, 0, 0) * 5 - 1) < t, "ls-fourth", fmt("S%d %.9g", order, moment(q, 2, 0, 0) * 5));
        }
    } else if (fam == "cg") {
        for (int t = 0; t < 12; t++) {
            int a = d.range(0, std::min(2 * nazi - 1, 2 * npol - 1));
            int b = d.range(0, std::min(2 * nazi - 1, 2 * npol - 1) - a);
            int e = d.range(0, 2 * npol - 1 - a - b);
            double ex = mean_moment(a, b, e), got = moment(q, a, b, e);
            c.check(std::abs(got - ex) < 1e-11, "cg-moment", fmt("%d %d %d: %.15g, exact %.15g", a, b, e, got, ex));
        }
    } else if (fam == "cy") {
        c.check(std::abs(moment(q, 0, 0, 1) - 1. / 3) < 3e-4 && std::abs(moment(q, 1, 0, 0) - 1. / 3) < 3e-4, "cy-second", "");
        // built to integrate escape from thin regions: mean sine
        double s = 0;
        for (int i = 0; i < q.ndir_oct(); i++) s += q[i].weight * std::sqrt(1 - q[i].oz * q[i].oz);
        c.check(std::abs(s - PI_ / 4) < 3e-4, "cy-sine", fmt("%.9g", s));
        for (int i = 0; i < q.ndir_oct(); i++) {
            bool f = false;
            for (int j = 0; j < 3; j++) f = f || (std::abs(q[i].theta - pth[j]) < 2e-6 && std::abs(q[i].weight * nazi - pw[j]) < 2e-6);
            double al = q[i].alpha / (PI_ / 2) * nazi - 0.5;
            c.check(f && std::abs(al - std::round(al)) < 1e-9, "cy-rule", fmt("angle %d", i));
        }
    }

    // turn the azimuthal angles a little, as laying out modular rays does
    bool modified = d.chance(0.5);
    if (modified) {
        std::vector<double> before;
        for (int i = 0; i < q.ndir_oct(); i++) before.push_back(q[i].weight);
        if (fam == "cg" || fam == "cy") {
            std::vector<double> na(nazi);
            double step = PI_ / 2 / nazi;
            for (int i = 0; i < nazi; i++) na[i] = step * (i + 0.5 + d.real(-0.45, 0.45));
            std::vector<Ang> w2;
            for (int i = 0; i < q.ndir_oct(); i++) {
                int k = std::min(nazi - 1, std::max(0, (int)(q[i].alpha / step)));
                mocc::Angle a = q[i];
                a.modify_alpha(na[k]);
                q.modify_angle(i, a);
            }
            if (fam == "cg") {
                for (int i = 0; i < nazi; i++) {
                    double lo = i ? (na[i - 1] + na[i]) / 2 : 0, hi = i + 1 < nazi ? (na[i] + na[i + 1]) / 2 : PI_ / 2;
                    for (int j = 0; j < npol; j++)
                        w2.push_back({{std::sin(pth[j]) * std::cos(na[i]), std::sin(pth[j]) * std::sin(na[i]), std::cos(pth[j])}, pw[j] * (hi - lo) / (PI_ / 2)});
                }
            }
            q.update_weights();
            c.desc << "azimuthal angles changed\n";
            structure(c, q, fam == "cg" ? &w2 : nullptr, "after modularisation", 1e-12);
            if (fam == "cy") {
                for (int i = 0; i < q.ndir_oct(); i++) {
                    bool f = false;
                    for (int k = 0; k < nazi; k++) {
                        double lo = k ? (na[k - 1] + na[k]) / 2 : 0, hi = k + 1 < nazi ? (na[k] + na[k + 1]) / 2 : PI_ / 2;
                        for (int j = 0; j < 3; j++)
                            f = f || (std::abs(q[i].alpha - na[k]) < 1e-9 && std::abs(q[i].theta - pth[j]) < 2e-6 &&
                                      std::abs(q[i].weight - pw[j] * (hi - lo) / (PI_ / 2)) < 2e-6);
                    }
                    c.check(f, "cy-modular", fmt("angle %d", i));
                }
            }
        } else {
            for (int i = 0; i < q.ndir_oct(); i++) {
                mocc::Angle a = q[i];
                double na = a.alpha + d.real(-0.4, 0.4) * std::min(a.alpha, PI_ / 2 - a.alpha);
                a.modify_alpha(na);
                q.modify_angle(i, a);
            }
            q.update_weights();
            structure(c, q, nullptr, "after modularisation", 1e-12);
            for (int i = 0; i < q.ndir_oct(); i++) c.check(std::abs(before[i] - q[i].weight) < 1e-15, "weights-kept", "");
        }
        c.label("angles modified");
    }
    // assignment and file round trip
    mocc::AngularQuadrature e;
    e = q;
    c.check(e == q && e.ndir() == q.ndir() && !(e != q), "assign", "");
    // a copy goes on to behave as the original does
    mocc::AngularQuadrature qw = q;
    qw.update_weights();
    auto weighs = [&](mocc::AngularQuadrature &k, const char *tag) {
        k.update_weights();
        c.check(k.ndir() == qw.ndir(), tag, "");
        for (int i = 0; i < qw.ndir(); i++)
            c.check(std::abs(k[i].weight - qw[i].weight) < 1e-14 && k[i].ox == qw[i].ox && k[i].oz == qw[i].oz, tag, fmt("angle %d of weight %.15g, original %.15g", i, k[i].weight, qw[i].weight));
    };
    weighs(e, "assigned-weights");
    if (d.chance(0.2)) {
        std::string f = c.dir + "/q.h5";
        {
            mocc::H5Node h(f, mocc::H5Access::WRITE);
            q.output(h);
        }
        mocc::H5Node h(f, mocc::H5Access::READ);
        mocc::AngularQuadrature r(h);
        c.label("file round trip");
        c.check(r.ndir() == q.ndir() && r.ndir_oct() == q.ndir_oct(), "file-size", "");
        for (int i = 0; i < q.ndir(); i++)
            c.check(r[i].ox == q[i].ox && r[i].oy == q[i].oy && r[i].oz == q[i].oz && r[i].weight == q[i].weight && r[i].alpha == q[i].alpha &&
                        r[i].theta == q[i].theta && std::abs(r[i].rsintheta / q[i].rsintheta - 1) < 1e-12 + 1e-14 / (1 - q[i].oz * q[i].oz),
                    "file-angle", fmt("%d", i));
        structure(c, r, nullptr, "read back", 1e-12);
        weighs(r, "file-weights");
        std::remove(f.c_str());
    }
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C08";
    s.fn = run;
    s.rule = "more than one angle per octant";
    s.oracle = "an independent Gauss-Legendre/Chebyshev construction, exact sphere moments, symmetry of the set, vector reflection, written values";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.batch = 200;
    s.assumptions = {"level-symmetric sets above S8 are only held to their second moments and to 1.5 % in the fourth",
                     "Tabuchi-Yamamoto angles and weights to the six published digits"};
    return pbt::pbt_main(argc, argv, s);
}
