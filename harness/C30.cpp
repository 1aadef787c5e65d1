// flavor: san
// C30: tallies report the mean and the deviation of what was scored
#include "pbt.hpp"
#include <omp.h>
#include "sweepers/mc/tally_scalar.hpp"
#include "sweepers/mc/tally_spatial.hpp"
using pbt::Case;
using pbt::Draw;
using pbt::fmt;

struct Score { int i; double v; };

// scores and weights in any order, by any number of threads
template <class F, class G> static void deliver(const std::vector<Score> &s, const std::vector<double> &w, int threads, F score, G weight) {
    if (threads == 1) {
        for (auto &x : s) score(x);
        for (double x : w) weight(x);
        return;
    }
#pragma omp parallel num_threads(threads)
    {
#pragma omp for schedule(dynamic, 1) nowait
        for (int i = 0; i < (int)s.size(); i++) score(s[i]);
#pragma omp for schedule(dynamic, 1)
        for (int i = 0; i < (int)w.size(); i++) weight(w[i]);
    }
}

static double value(Draw &d, int mode) {
    if (mode == 0) return d.range(1, 4096) / 1024.0;
    if (mode == 1) return 0.75; // no variation at all
    return d.logreal(1e-3, 1e3);
}

static void spatial(Draw &d, Case &c) {
    int n = d.range(1, 6), mode = d.range(0, 2);
    std::vector<double> norm(n);
    for (auto &x : norm) x = d.chance(0.3) ? 1.0 : d.logreal(0.01, 100.0);
    mocc::mc::TallySpatial t(norm);
    std::vector<std::vector<double>> real;  // committed, per unit weight
    std::vector<double> now(n, 0.0);
    double w = 0;
    int ops = d.range(3, 25), threads = d.chance(0.3) ? d.range(2, 4) : 1;
    c.desc << "regions " << n << " threads " << threads << " mode " << mode << "\n";
    for (int o = 0; o < ops; o++) {
        switch (d.weighted({6, 5, 1})) {
        case 0: {
            std::vector<Score> s;
            std::vector<double> ws;
            int k = d.range(0, 12);
            if (mode == 1) {
                for (int i = 0; i < n; i++) s.push_back({i, 0.7});
                if (w == 0) ws.push_back(1.0);
                if (now[0] > 0) s.clear();
            } else {
                for (int i = 0; i < k; i++) s.push_back({(int)d.range(0, n - 1), value(d, mode)});
                int kw = d.range(0, 4);
                for (int i = 0; i < kw; i++) ws.push_back(d.chance(0.5) ? 1.0 : d.real(0.1, 3.0));
            }
            deliver(s, ws, threads, [&](Score x) { t.score(x.i, x.v); }, [&](double x) { t.add_weight(x); });
            for (auto &x : s) now[x.i] += x.v, c.desc << "score " << x.i << " " << x.v << "\n";
            for (double x : ws) w += x, c.desc << "weight " << x << "\n";
        } break;
        case 1:
            if (!(w > 0)) break;
            if (threads > 1 && d.chance(0.5)) {
#pragma omp parallel num_threads(threads)
                t.commit_realization();
            } else
                t.commit_realization();
            c.desc << "commit\n";
            for (auto &x : now) x /= w;
            real.push_back(now);
            std::fill(now.begin(), now.end(), 0.0);
            w = 0;
            break;
        default:
            t.reset();
            c.desc << "reset\n";
            real.clear();
            std::fill(now.begin(), now.end(), 0.0);
            w = 0;
        }
        if (real.empty()) continue;
        auto r = t.get();
        c.check((int)r.size() == n, "size", "");
        double N = real.size();
        for (int i = 0; i < n; i++) {
            double m = 0, v = 0;
            for (auto &x : real) m += x[i] / N;
            for (auto &x : real) v += (x[i] - m) * (x[i] - m);
            c.close(r[i].first, m / norm[i], 1e-11, 1e-300, "mean", fmt("region %d of %d realisations", i, (int)N));
            if (N > 1 && m > 0) c.close(r[i].second, std::sqrt(v / (N - 1)) / m, 1e-6, 1e-6, "deviation", fmt("region %d of %d realisations", i, (int)N));
        }
    }
    c.nontrivial(real.size() > 1);
    c.label(threads > 1 ? "spatial threads" : "spatial");
}

static void scalar(Draw &d, Case &c) {
    mocc::mc::TallyScalar t;
    std::vector<double> all;
    double w = 0;
    int mode = d.range(0, 2), ops = d.range(2, 15), threads = d.chance(0.3) ? d.range(2, 4) : 1;
    bool unit = d.chance(0.6); // one unit of weight for each score
    c.desc << "scalar threads " << threads << " mode " << mode << "\n";
    for (int o = 0; o < ops; o++) {
        if (d.chance(0.1)) {
            t.reset();
            c.desc << "reset\n";
            all.clear();
            w = 0;
        } else {
            std::vector<Score> s;
            std::vector<double> ws;
            int k = d.range(0, 10), kw = d.range(0, 5);
            for (int i = 0; i < k; i++) s.push_back({0, value(d, mode)});
            if (unit) ws.assign(k, 1.0);
            else for (int i = 0; i < kw; i++) ws.push_back(d.real(0.5, 3.0));
            deliver(s, ws, threads, [&](Score x) { t.score(x.v); }, [&](double x) { t.add_weight(x); });
            for (auto &x : s) all.push_back(x.v), c.desc << "score " << x.v << "\n";
            for (double x : ws) w += x, c.desc << "weight " << x << "\n";
        }
        if (!(w > 0) || all.empty()) continue;
        auto r = t.get();
        double sum = 0, v = 0;
        for (double x : all) sum += x;
        double m = sum / w;
        c.close(r.first, m, 1e-11, 0, "mean", fmt("%d scores", (int)all.size()));
        if (unit && all.size() > 1) {
            for (double x : all) v += (x - m) * (x - m);
            double N = all.size();
            c.close(r.second, std::sqrt(v / N / (N - 1)) / m, 1e-6, 1e-6, "deviation", fmt("%d scores", (int)all.size()));
        }
    }
    c.nontrivial(all.size() > 1);
    c.label(threads > 1 ? "scalar threads" : "scalar");
}

static void go(Draw &d, Case &c) {
    if (d.chance(0.7)) spatial(d, c);
    else scalar(d, c);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C30";
    s.fn = go;
    s.rule = "several realisations or scores";
    s.oracle = "two-pass mean and deviation of the recorded scores";
    s.quick_cases = 60000;
    s.thorough_cases = 300000;
    s.batch = 200;
    s.assumptions = {"deviation to 1e-6 (difference of squares), mean to 1e-11"};
    return pbt::pbt_main(argc, argv, s);
}
