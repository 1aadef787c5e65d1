// flavor: opt
// C17: acceleration does not change the converged answer
#include "e2e.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    // pin cells of less than a mean free path: there acceleration is known to be stable
    std::string type = d.chance(0.5) ? "moc" : "sn";
    bool thin = d.chance(0.6);
    double pitch = d.real(0.5, 1.5);
    lo.tmin = thin ? 0.3 / pitch : 0.2;
    lo.tmax = thin ? (type == "moc" ? 1.0 : 0.5) / pitch : 2.5;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    int ng = lib.ng;
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = type == "moc" ? 1 : 3;
    gopt.touching = false;
    gopt.pitch_choices = {sig(pitch, 3)};
    if (thin) gopt.hmin = 0.8 * pitch, gopt.hmax = pitch;
    Problem p = gen_geom(d, lib, gopt);
    if (thin && d.chance(0.5))
        for (int f = 0; f < 6; f++) p.bc[f] = "reflect";
    if (type == "moc") p.bc[TOP] = p.bc[BOTTOM] = "reflect"; // planes by themselves have no axial leakage
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.user_quad = false;
    SweepDef s = gen_sweeper(d, p, so);
    if (thin) {
        s.inner = s.sn_inner = d.range(3, 5);
        s.upd = "";
        if (type == "sn") s.eq = s.axial = "dd";
    }
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-11;
    eo.max_iter = 3000;
    eo.cmfd = 0;
    EigenOpts ea = eo;
    ea.cmfd = 1;
    ea.max_iter = thin ? 3000 : 400;
    SweepDef sa = s;
    sa.inner = sa.sn_inner = std::max(3, s.inner);
    std::string att;
    if (thin) att += " k_tol=\"" + num(std::pow(10.0, -d.range(11, 12))) + "\" psi_tol=\"" + num(std::pow(10.0, -d.range(11, 12))) + "\"";
    else if (d.chance(0.4)) att += " k_tol=\"" + num(std::pow(10.0, -d.range(6, 9))) + "\"";
    if (!thin && d.chance(0.4)) att += " psi_tol=\"" + num(std::pow(10.0, -d.range(5, 8))) + "\"";
    if (d.chance(0.4)) att += " residual_reduction=\"" + num(std::pow(10.0, -d.range(3, 6))) + "\"";
    if (d.chance(0.3)) att += " max_iter=\"" + std::to_string(d.range(100, 400)) + "\"";
    if (d.chance(0.3)) att += " negative_fixup=\"t\"";
    if (d.chance(0.2)) att += " dump_current=\"t\"";
    if (!att.empty()) ea.cmfd_xml = "<cmfd" + att + " />\n";
    std::string sx = eigen_xml(s, eo), tx = eigen_xml(sa, ea);
    c.desc << lib.text() << sx << tx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (a.iterations() >= eo.max_iter) c.discard("no convergence");
    if (a.clipped() || a.negative()) c.discard("negative fluxes");
    if (a.k() < 0.05) c.discard("no multiplication");
    Result b = run_problem(c.dir, "b", p, tx);
    bool done = b.ok() && b.iterations() < ea.max_iter;
    c.label(fmt("%s %s %s", type.c_str(), thin ? "thin" : "thick", done ? "converged" : "diverged"));
    if (thin) {
        c.check(b.ok(), "accelerated-run-failed", fmt("status %d: ", b.status) + b.tail());
        c.check(done, "no-convergence", fmt("the plain run took %d iterations, the accelerated one did not converge in %d: ", a.iterations(), ea.max_iter) + b.tail(300));
    }
    if (!done) c.discard("acceleration diverges");
    if (b.clipped()) c.discard("negative fluxes");
    c.close(b.k(), a.k(), 1e-6, 1e-6, "k", "");
    std::vector<std::string> names = {"pin_powers"};
    for (int g = 0; g < ng; g++) names.push_back(fmt("flux/%03d", g + 1));
    double peak = 0;
    for (auto &nm : names)
        for (double x : a.get(nm)) peak = std::max(peak, x);
    for (auto &nm : names) {
        auto v = a.get(nm), w = b.get(nm);
        c.check(!v.empty() && v.size() == w.size(), "size", nm);
        for (size_t i = 0; i < v.size(); i++) c.close(w[i], v[i], 0, 1e-5 * peak, "values", nm + fmt("[%d]", (int)i));
    }
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial(kinds.size() > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C17";
    s.fn = go;
    s.rule = "different pins";
    s.oracle = "differential: k (1e-6), pin powers and pin fluxes (1e-5 of the largest) of the accelerated run are those of the plain run";
    s.quick_cases = 1500;
    s.thorough_cases = 20000;
    s.batch = 1;
    s.assumptions = {"pin cells of 0.3 to 1 (Sn: 0.5) mean free paths with 3 or more inner iterations and tight acceleration tolerances must converge; other problems may diverge when accelerated and are then discarded",
                     "cases with negative fluxes are discarded: clipping makes the answer depend on the path"};
    return pbt::pbt_main(argc, argv, s);
}
