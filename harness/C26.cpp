// flavor: opt
// C26: results do not depend on the number of threads
#include "e2e.hpp"
using namespace model;

// largest difference relative to the largest value of a dataset
static void compare(Case &c, const Result &a, const Result &b, double tol, const std::string &what, bool history) {
    auto va = a.all(), vb = b.all();
    c.check(!va.empty() && va.size() == vb.size(), "datasets", what);
    for (auto &e : va) {
        if (!history && e.first.find("convergence") != std::string::npos) continue;
        if (e.first.find("error_") != std::string::npos || e.first.find("resid") != std::string::npos || e.first.find("Resid") != std::string::npos) continue; // differences of iterates
        c.check(vb.count(e.first), "dataset-missing", e.first);
        auto &w = vb[e.first];
        c.check(w.size() == e.second.size(), "dataset-size", what + ": " + e.first);
        double top = 1e-2;
        for (double x : e.second) if (std::isfinite(x)) top = std::max(top, std::fabs(x));
        for (size_t i = 0; i < w.size(); i++) {
            if (!std::isfinite(e.second[i]) && !std::isfinite(w[i])) continue;
            c.close(w[i], e.second[i], 0, e.first.find("stdev") != std::string::npos ? 1e-6 + 1e-5 * top : tol * top, "result", what + ": " + e.first + fmt("[%d]", (int)i));
        }
    }
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.fissile = 1;
    lo.tmin = 0.3;
    lo.tmax = 3.0;
    lo.cmin = 0.0;
    lo.cmax = 0.8;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    GeomOpts gopt;
    gopt.max_pins_x = 3;
    gopt.max_pins_y = 3;
    gopt.max_planes = 3;
    gopt.pmin = 0.8;
    gopt.hmin = 0.8;
    Problem p = gen_geom(d, lib, gopt);
    ensure_fuel(p);
    int threads = d.range(2, 8);
    bool attr = d.chance(0.5); // through the input, or the environment
    std::string sx, kind;
    bool strict = true, conv = false;
    int limit = 0;
    double tol = 1e-8;
    if (d.chance(0.25)) {
        int cycles = d.range(2, 8);
        sx = fmt("<solver type=\"eigenvalue_mc\" cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"%d\" seed=\"%d\">", cycles, (int)d.range(0, 2),
                 (int)d.range(50, 1500), 1 + 2 * (int)d.range(0, 1000));
        sx += "<fission_box x_min=\"0\" x_max=\"" + num(p.Lx()) + "\" y_min=\"0\" y_max=\"" + num(p.Ly()) + "\" z_min=\"0\" z_max=\"" + num(p.Lz()) +
              "\" /></solver>\n";
        kind = "monte carlo";
    } else {
        SweepOpts so;
        so.coupled = d.chance(0.4);
        SweepDef s = gen_sweeper(d, p, so);
        EigenOpts eo;
        eo.cmfd = s.type == "2d3d" ? 1 : d.chance(0.3);
        bool few = eo.cmfd == 1;
        if (few) {
            // a few steps, in which the diffusion problems are solved tightly, so that round-off does not change the number of its iterations
            if (s.type != "moc") s.upd = "jacobi";
            eo.cmfd_xml = "<cmfd residual_reduction=\"1e-10\" k_tol=\"1e-12\" psi_tol=\"1e-11\" max_iter=\"1000\" />\n";
            tol = 1e-6;
        }
        conv = !few && s.type == "sn" && s.upd != "jacobi";
        if (conv) {
            // in parallel, boundary fluxes of discrete ordinates are updated in another order, which may not converge: otherwise the converged result is the same
            strict = false;
            eo.k_tol = 1e-9;
            eo.psi_tol = 1e-9;
            eo.max_iter = 800;
        } else {
            eo.k_tol = eo.psi_tol = 1e-12;
            eo.max_iter = few ? d.range(1, 3) : d.range(1, 12);
            if (few) s.inner += 2, s.sn_inner += 2;
        }
        limit = eo.max_iter;
        sx = eigen_xml(s, eo);
        kind = s.type + (eo.cmfd == 1 ? " accelerated" : conv ? " converged" : "") + (few ? ", few steps" : "");
    }
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << "threads " << threads << (attr ? " by input" : "") << "\n";
    auto with = [&](int n) { return attr ? fmt("<parallel num_threads=\"%d\" />\n", n) + sx : sx; };
    Result one = run_problem(c.dir, "one", p, with(1), attr ? 3 : 1);
    if (one.missed()) c.discard("rays too coarse");
    if (!one.ok() && one.text.find("no fission sites") != std::string::npos) c.discard("no fission");
    if (conv && !(one.ok() && one.iterations() < limit)) c.discard("no convergence with one thread");
    if (!one.ok() && one.text.find("ngle") != std::string::npos) c.discard("angles coincide");
    if (tol > 1e-7) {
        if (!one.ok() || one.text.find(" 1001 ") != std::string::npos) c.discard("acceleration diverges");
        for (double k : one.get("convergence/k"))
            if (!(k > 0.3 && k < 3)) c.discard("acceleration diverges");
    }
    c.check(one.ok(), "run-failed", fmt("status %d: ", one.status) + one.tail());
    if (!strict && one.clipped()) c.discard("negative fluxes");
    for (int rep = 0; rep < 2; rep++) {
        Result many = run_problem(c.dir, "many", p, with(threads), attr ? 1 : threads);
        std::string what = fmt("%d threads", threads);
        c.check(many.ok(), "status", what + fmt(" give status %d: ", many.status) + many.tail());
        c.check(many.text.find(fmt("Running with %d tr", threads)) != std::string::npos, "threads", "not run with " + what);
        if (!strict && many.iterations() >= limit) c.discard("no convergence with another update");
        compare(c, one, many, strict ? tol : 3e-5, what + " " + kind, strict);
    }
    c.label(kind);
    c.label(fmt("%d threads", threads));
    c.nontrivial(true);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C26";
    s.fn = go;
    s.rule = "every case: one run on one thread and two on several";
    s.oracle = "the run on one thread: equal datasets to 1e-8 of their largest value (Monte Carlo, unaccelerated iteration), to 3e-5 when only the converged result is defined";
    s.quick_cases = 800;
    s.thorough_cases = 8000;
    s.batch = 1;
    s.jobs = 4;
    s.assumptions = {"schedules are those the machine produces, with more threads than cores at times"};
    return pbt::pbt_main(argc, argv, s);
}
