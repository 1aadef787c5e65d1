// flavor: opt
// C36: an eigenvalue run stops when it is told to, and what it reports on the way is what a shorter run reports
#include "e2e.hpp"
using namespace model;

static bool exists(const std::string &f) { return access(f.c_str(), F_OK) == 0; }

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.5, 1.8);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    int ng = lib.ng;
    std::string type = d.pick(std::vector<std::string>{"moc", "moc", "moc", "sn", "sn", "2d3d"});
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = 2;
    gopt.touching = false;
    gopt.pmin = 0.5;
    Problem p = gen_geom(d, lib, gopt);
    ensure_fuel(p);
    p.finish();
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.coupled = type == "2d3d";
    so.user_quad = type != "2d3d";
    SweepDef s = gen_sweeper(d, p, so);
    EigenOpts eo;
    auto tol = [&] { return sig(std::pow(10.0, -d.real(1.5, 6.0)), 3); };
    eo.k_tol = tol();
    eo.psi_tol = tol();
    eo.max_iter = d.range(1, 40);
    if (d.chance(0.5)) eo.min_iter = d.range(1, eo.max_iter);
    eo.cmfd = type == "2d3d" || d.chance(0.25);
    if (eo.cmfd == 1) s.inner += 2, s.sn_inner += 2, s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    // iterations to be reported, in any order, possibly beyond the last
    std::vector<int> dump;
    bool over = d.chance(0.3); // one after the other
    int n = d.range(0, 5), at = d.range(1, eo.max_iter);
    for (int i = 0; i < n; i++) dump.push_back(over ? at + n - i : d.range(1, std::min(60, eo.max_iter + 3)));
    std::string dx;
    for (int i : dump) dx += " " + std::to_string(i);
    auto xml = [&](const EigenOpts &e, bool dumps) {
        std::string x = eigen_xml(s, e);
        if (dumps && !dump.empty()) x.insert(x.find("<source"), "<dump_iterations>" + dx + " </dump_iterations>\n");
        return x;
    };
    std::string sx = xml(eo, true);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (!a.ok() && (eo.cmfd == 1 || a.text.find("nan") != std::string::npos)) c.discard("diverges");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    auto k = a.get("convergence/k"), ek = a.get("convergence/error_k"), ep = a.get("convergence/error_psi");
    int it = k.size();
    c.check(ek.size() == k.size() && ep.size() == k.size(), "history-size", "");
    c.check(it >= 1 && it <= eo.max_iter, "iterations", fmt("%d of at most %d", it, eo.max_iter));
    for (int i = 0; i < it; i++) if (!(std::fabs(k[i] + ek[i] + ep[i]) < 1e6)) c.discard("diverges");

    // when it stops
    auto met = [&](int i, double slack) { return ek[i] < eo.k_tol * (1 + slack) && ep[i] < eo.psi_tol * (1 + slack); };
    for (int i = 0; i + 1 < it; i++) // the least number of iterations may be counted either way
        c.check(!met(i, -1e-5) || i < eo.min_iter, "went-on", fmt("converged at iteration %d (%g, %g), stopped at %d; at least %d", i + 1, ek[i], ep[i], it, eo.min_iter));
    if (it < eo.max_iter) {
        c.check(met(it - 1, 1e-5), "stopped-early", fmt("after %d iterations with %g, %g", it, ek[it - 1], ep[it - 1]));
        c.check(it >= eo.min_iter, "too-few", fmt("%d iterations, at least %d", it, eo.min_iter));
        c.label(eo.min_iter && it >= eo.min_iter && it <= eo.min_iter + 1 ? "held back" : "converged");
    } else
        c.label("iterations used up");
    if (eo.cmfd != 1)
        for (int i = 0; i < it; i++) c.close(ek[i], std::fabs(k[i] - (i ? k[i - 1] : 1.0)), 0, 1e-14, "k-error", fmt("iteration %d", i + 1));

    // what it reports on the way
    std::set<int> want_dump(dump.begin(), dump.end());
    auto report = [&](const std::string &dir, int i) { return dir + fmt("/in_iter_%d.h5", i); };
    int made = 0;
    for (int i = 1; i <= eo.max_iter + 65; i++) {
        bool w = want_dump.count(i) && i <= it;
        c.check(exists(report(a.dir, i)) == w, "report-files", fmt("iteration %d of %d is %s reported", i, it, w ? "not" : "wrongly"));
        made += w;
    }
    auto same = [&](const Result &x, const Result &y, const char *tag, const std::string &w) {
        auto u = x.all(), v = y.all();
        for (auto &e : u) {
            c.check(v.count(e.first) > 0, tag, w + ": no " + e.first);
            auto &o = v[e.first];
            c.check(o.size() == e.second.size(), tag, w + ": size of " + e.first);
            for (size_t j = 0; j < o.size(); j++)
                if (!(o[j] == e.second[j]) && (o[j] == o[j] || e.second[j] == e.second[j]))
                    c.close(o[j], e.second[j], 1e-10, 1e-13, tag, w + fmt(": %s value %d", e.first.c_str(), (int)j));
        }
    };
    // a run that reports nothing on the way comes to the same end
    if (made && d.chance(0.3)) {
        Result b = run_problem(c.dir, "b", p, xml(eo, false));
        c.check(b.ok(), "run-failed", b.tail());
        same(b, a, "disturbed", "without reports");
        same(a, b, "disturbed", "with reports");
    }
    // a run stopped there
    int stop = it > 1 ? (made && d.chance(0.7) ? *std::next(want_dump.begin(), d.range(0, made - 1)) : d.range(1, it)) : 1;
    if (stop <= it) {
        EigenOpts e2 = eo;
        e2.max_iter = stop;
        e2.min_iter = std::min(eo.min_iter, stop);
        Result b = run_problem(c.dir, "c", p, xml(e2, false));
        c.check(b.ok(), "run-failed", b.tail());
        auto kb = b.get("convergence/k"), pb = b.get("convergence/error_psi");
        c.check((int)kb.size() == stop && pb.size() == kb.size(), "history-size", fmt("%d iterations of %d", (int)kb.size(), stop));
        for (int i = 0; i < stop; i++) {
            c.close(kb[i], k[i], 1e-11, 0, "history", fmt("k of iteration %d, stopped at %d", i + 1, stop));
            c.close(pb[i], ep[i], 1e-8, 1e-13, "history", fmt("source error of iteration %d, stopped at %d", i + 1, stop));
        }
        if (exists(report(a.dir, stop))) {
            Result r = a;
            r.h5 = report(a.dir, stop);
            same(r, b, "report", fmt("iteration %d", stop));
            c.check(!r.all().empty(), "report", "empty");
            c.label("report compared");
        }
        c.label(stop < it ? "stopped earlier" : "stopped at the same iteration");
    }
    // the error of the fission source, from the region fluxes of two reports
    int j = -1;
    for (int i : want_dump) if (want_dump.count(i - 1) && i <= it) j = i;
    if (j > 0 && type == "moc" && eo.cmfd != 1) {
        auto m = make_mesh(p, c.dir);
        auto rm = plane_region_map(p, *m);
        auto src = [&](int i) {
            Result r = a;
            r.h5 = report(a.dir, i);
            auto f = r.groups("fsr_flux", ng);
            std::vector<double> v(rm.size(), 0.0);
            for (auto &e : rm) {
                const Mat &mt = p.mat(p.mat_slot_of(e.first));
                for (int g = 0; g < ng; g++) {
                    c.check(e.second < (int)f[g].size(), "size", "fsr_flux");
                    v[e.second] += mt.nuf[g] * f[g][e.second];
                }
            }
            double t = 0;
            int n = 0;
            for (double x : v) t += x, n += x > 0;
            for (double &x : v) x *= n / t;
            return v;
        };
        auto x = src(j - 1), y = src(j);
        double e = 0;
        int n = 0;
        for (size_t i = 0; i < x.size(); i++) e += (x[i] - y[i]) * (x[i] - y[i]), n += x[i] > 0;
        c.close(ep[j - 1], std::sqrt(e / n), 1e-6, 1e-12, "source-error", fmt("iteration %d", j));
        c.label("source error");
    }
    c.label(type + (eo.cmfd == 1 ? " accelerated" : ""));
    c.nontrivial(it > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C36";
    s.fn = go;
    s.rule = "more than one iteration";
    s.oracle = "metamorphic: a report asked for at an iteration holds what a run stopped at that iteration reports, and the history of a shorter run starts that of a longer one; errors recomputed from the history and the reported fluxes; stopping rule evaluated on the history";
    s.quick_cases = 3000;
    s.thorough_cases = 20000;
    s.batch = 1;
    s.assumptions = {"the least number of iterations may be counted from zero or one"};
    return pbt::pbt_main(argc, argv, s);
}
