// flavor: opt
// C14: an infinite homogeneous medium gives the exact eigenvalue and spectrum with every deterministic solver
#include "e2e.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 5;
    lo.max_mats = 2;
    lo.fissile = 2;
    lo.tmin = 0.3;
    lo.tmax = 3.0;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    Lib lib = gen_lib(d, lo);
    // bring k near a drawn value
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    GeomOpts go;
    go.max_pins_x = 3;
    go.max_pins_y = 3;
    go.max_planes = 3;
    go.pmin = 0.8;
    go.hmin = 0.8;
    Problem p = gen_geom(d, lib, go);
    for (auto &b : p.bc) b = "reflect";
    int slot = d.range(0, (int)p.use_mat.size() - 1);
    for (auto &pin : p.pins) std::fill(pin.mats.begin(), pin.mats.end(), slot);
    auto &mat = p.mat(slot);
    SweepOpts so;
    so.coupled = d.chance(0.4);
    SweepDef s = gen_sweeper(d, p, so);
    EigenOpts eo;
    eo.k_tol = 1e-11;
    eo.psi_tol = 1e-9;
    eo.min_iter = 20;
    eo.max_iter = 2000;
    eo.cmfd = s.type == "2d3d" ? 1 : (int)d.range(-1, 1);
    if (eo.cmfd == 1) s.inner += 2, s.sn_inner += 2; // acceleration is unstable when boundary fluxes lag
    int threads = d.chance(0.15) ? d.range(2, 3) : 1;
    std::string sx = eigen_xml(s, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << "threads " << threads << "\n";
    std::vector<double> spec;
    double k = k_inf(mat, lib.ng, spec);
    if (!(k > 0)) c.discard("no production");
    for (double v : spec)
        if (v < 1e-6 * *std::max_element(spec.begin(), spec.end())) c.discard("group without neutrons");
    Result r = run_problem(c.dir, "a", p, sx, threads);
    if (r.text.find("Angular") != std::string::npos && r.status == 1 && r.text.find("angle") != std::string::npos) c.discard("angles coincide");
    if (r.missed()) c.discard("rays too coarse");
    if (eo.cmfd == 1 && !(r.ok() && r.iterations() < eo.max_iter)) {
        // the acceleration is not stable for every problem: nothing is claimed about runs that do not converge
        c.discard("acceleration did not converge");
    }
    c.check(r.ok(), "run-failed", fmt("status %d: ", r.status) + r.tail());
    if (r.iterations() >= eo.max_iter) { // slowly converging iterations
        c.close(r.k(), k, 1e-3, 0, "k", "without convergence");
        c.label("iteration limit");
        return;
    }
    c.close(r.k(), k, 3e-6, 0, "k", s.type);
    std::vector<int> plane_of;
    if (s.type == "moc") {
        auto m = make_mesh(p, c.dir);
        auto pm = plane_region_map(p, *m);
        plane_of.resize(pm.size());
        for (auto &e : pm) plane_of[e.second] = e.first.pz;
    }
    for (std::string where : s.type == "2d3d" ? std::vector<std::string>{"Sn/flux", "MoC/flux", "MoC/fsr_flux"}
                           : s.type == "moc" ? std::vector<std::string>{"flux", "fsr_flux"} : std::vector<std::string>{"flux"}) {
        auto f = r.groups(where, lib.ng);
        double sum = 0, ssum = 0, top = 0;
        for (auto &v : f) for (double x : v) top = std::max(top, x);
        for (int g = 0; g < lib.ng; g++) {
            c.check(!f[g].empty(), "missing", where);
            double lo = f[g][0], hi = f[g][0], av = 0;
            for (double v : f[g]) { lo = std::min(lo, v); hi = std::max(hi, v); av += v; }
            av /= f[g].size();
            if (s.type == "moc") {
                // planes are not coupled, so that only each by itself must be flat
                auto at = [&](size_t i) { return where == "flux" ? (int)(i / (p.nx * p.ny)) : plane_of[i]; };
                std::map<int, std::pair<double, double>> mm;
                for (size_t i = 0; i < f[g].size(); i++) {
                    auto it = mm.insert({at(i), {f[g][i], f[g][i]}}).first;
                    it->second.first = std::min(it->second.first, f[g][i]);
                    it->second.second = std::max(it->second.second, f[g][i]);
                }
                for (auto &e : mm) c.close(e.second.first, e.second.second, 1e-5, 1e-12, "flat", where + fmt(" group %d plane %d", g, e.first));
            } else
                c.close(lo, hi, 1e-5, s.type == "2d3d" ? 1e-5 * top : 1e-12, "flat", where + fmt(" group %d", g));
            sum += av;
            ssum += spec[g];
            f[g][0] = av;
        }
        for (int g = 0; g < lib.ng; g++) c.close(f[g][0] / sum, spec[g] / ssum, 0, 1e-5, "spectrum", where + fmt(" group %d", g));
    }
    c.nontrivial(lib.ng > 1 || p.nx * p.ny * p.nz > 1);
    c.label(s.type + (s.type == "moc" ? "" : " " + s.eq + " " + s.axial));
    if (eo.cmfd == 1) c.label("cmfd");
    if (threads > 1) c.label("threads");
    if (p.nz > 1) c.label("3-D");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C14";
    s.fn = go;
    s.rule = "more than one group or pin";
    s.oracle = "k and spectrum of the infinite medium from the removal matrix of the material";
    s.quick_cases = 1000;
    s.thorough_cases = 20000;
    s.batch = 1;
    s.assumptions = {"accelerated runs that do not converge are not judged (seen in 8% of them)", "k to 3e-6, flatness and spectrum to 1e-5 with k converged to 1e-11"};
    return pbt::pbt_main(argc, argv, s);
}
