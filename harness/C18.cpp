// flavor: opt
// C18: rotating or mirroring the core rotates or mirrors the answer
#include "symm.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 4;
    gopt.max_planes = 4;
    gopt.pmin = 0.6;
    Problem p = gen_geom(d, lib, gopt);
    // sectors that survive a swap of the axes
    std::vector<Symm> ops;
    int nops = d.range(1, 3);
    for (int i = 0; i < nops; i++) ops.push_back((Symm)d.range(0, 3));
    bool swap = std::count(ops.begin(), ops.end(), TRANSPOSE) > 0;
    if (swap)
        for (auto &m : p.meshes)
            if (m.cyl && m.azi % 4) m.azi = 4;
    // a circle that touches the edges of its pin makes slivers that depend on rounding
    for (auto &m : p.meshes)
        if (m.cyl && m.radii.back() > 0.49 * m.pitch)
            for (auto &r : m.radii) r = sig(r * 0.97, 4);
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.coupled = d.chance(0.6);
    SweepDef s = gen_sweeper(d, p, so);
    bool conv = d.chance(0.3) && s.type == "sn"; // run to convergence, or follow the steps of the iteration
    EigenOpts eo;
    eo.cmfd = s.type == "2d3d" ? 1 : conv ? 0 : d.chance(0.4);
    double tol = s.type == "sn" ? 1e-8 : 1e-6; // points of rays closer than 1e-6 are merged
    if (conv) {
        eo.k_tol = 1e-9;
        eo.psi_tol = 1e-9;
        eo.max_iter = 1000;
        tol = 1e-5;
    } else {
        // every step is a symmetric operation if all boundary fluxes are updated together
        s.upd = "jacobi";
        eo.k_tol = eo.psi_tol = 1e-12;
        eo.max_iter = d.range(1, eo.cmfd == 1 ? 3 : 6);
        if (eo.cmfd == 1) {
            eo.cmfd_xml = "<cmfd residual_reduction=\"1e-10\" k_tol=\"1e-12\" psi_tol=\"1e-11\" max_iter=\"1000\" />\n";
            s.inner += 2, s.sn_inner += 2;
            tol = 1e-6;
        }
    }
    // Rays through the corners of pins count towards the currents on one side or the other by convention; there are
    // none if the rays repeat with the pins
    if (s.type != "sn" && (eo.cmfd == 1 || d.chance(0.3))) s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    // a region that is only grazed by a ray through its tip is blown up to its whole area by the correction
    double rmin = 1e9;
    for (auto &m : p.meshes)
        if (m.cyl) rmin = std::min(rmin, m.radii[0] / (m.sub_rad.empty() ? 1 : m.sub_rad[0]));
    if (s.spacing > 0.25 * rmin) {
        size_t k = s.rays.find(" volume_correction");
        if (k != std::string::npos) s.rays.erase(k, s.rays.find("/>") - k);
        s.rays.insert(s.rays.find("/>"), " volume_correction=\"none\" ");
    }
    SweepDef t = s;
    Problem q = p;
    std::string what;
    for (Symm o : ops) {
        q = transform(q, o);
        t.quad = transform_quad(t.quad, o);
        what += std::string(what.empty() ? "" : ", ") + symm_name[o];
    }
    std::string sx = eigen_xml(s, eo), tx = eigen_xml(t, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << what << "\n";
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (!a.ok() && a.text.find("ngle") != std::string::npos) c.discard("angles coincide");
    if (eo.cmfd == 1) {
        if (!a.ok() || a.text.find(" 1001 ") != std::string::npos) c.discard("acceleration diverges");
        if (a.clipped() || a.negative() || a.text.find(" -") != std::string::npos) c.discard("negative fluxes");
        for (double k : a.get("convergence/k"))
            if (!(k > 0.2 && k < 4)) c.discard("acceleration diverges");
    }
    if (conv && a.ok() && a.iterations() >= eo.max_iter) c.discard("no convergence");
    if (s.type == "sn" && a.text.find("nan") != std::string::npos) c.discard("negative fluxes"); // all of them
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (conv && a.clipped()) c.discard("negative fluxes");
    Result b = run_problem(c.dir, "b", q, tx);
    if (eo.cmfd == 1 && b.text.find("nan") != std::string::npos) c.discard("acceleration breaks down"); // in its linear solver, by rounding
    c.check(b.ok(), "status", what + fmt(": status %d: ", b.status) + b.tail());
    if (conv && b.iterations() >= eo.max_iter) c.discard("no convergence");
    if (b.missed()) c.discard("rays too coarse");
    // a ray along the border of two sectors belongs to either
    for (std::string n : {"ang_quad/alpha", "MoC/ang_quad/alpha"})
        for (double al : a.get(n))
            for (auto &m : p.meshes)
                if (s.type != "sn" && m.cyl && std::fabs(std::remainder(al, 2 * PI_ / m.azi)) < 1e-6) c.discard("ray along the border of sectors");
    auto ka = a.get("convergence/k"), kb = b.get("convergence/k");
    if (conv)
        c.close(kb.back(), ka.back(), 1e-6, 1e-6, "k", what);
    else {
        c.check(ka.size() == kb.size(), "steps", what);
        for (size_t i = 0; i < ka.size(); i++) c.close(kb[i], ka[i], tol, 0, "k", what + fmt(", step %d", (int)i + 1));
    }
    std::vector<std::string> names = {"pin_powers"};
    for (int g = 0; g < lib.ng; g++)
        for (std::string w : s.type == "2d3d" ? std::vector<std::string>{"Sn/flux", "MoC/flux"} : std::vector<std::string>{"flux"}) names.push_back(w + fmt("/%03d", g + 1));
    if (s.type == "2d3d") names[0] = "Sn/pin_powers";
    for (auto &n : names) {
        auto v = a.get(n), w = b.get(n);
        c.check(!v.empty() && v.size() == w.size(), "missing", n);
        int nx = p.nx, ny = p.ny;
        for (Symm o : ops) {
            v = transform(v, nx, ny, o);
            if (o == TRANSPOSE) std::swap(nx, ny);
        }
        double top = 0;
        for (double x : v) top = std::max(top, std::fabs(x));
        if (!(top > 0)) c.discard("negative fluxes");
        for (size_t i = 0; i < v.size(); i++) c.close(w[i], v[i], 0, tol * top, "values", what + ": " + n + fmt("[%d]", (int)i));
    }
    for (int g = 0; g < lib.ng && s.type != "sn"; g++) {
        // fluxes of the flat source regions, in another order
        std::string n = std::string(s.type == "2d3d" ? "MoC/" : "") + fmt("fsr_flux/%03d", g + 1);
        auto v = a.get(n), w = b.get(n);
        c.check(!v.empty() && v.size() == w.size(), "missing", n);
        std::sort(v.begin(), v.end());
        std::sort(w.begin(), w.end());
        for (size_t i = 0; i < v.size(); i++) c.close(w[i], v[i], 0, tol * v.back(), "region-values", what + ": " + n);
    }
    if (s.rays.find("modularity") != std::string::npos) c.label("rays repeat with pins");
    c.label(s.type + (s.type == "moc" ? "" : " " + s.eq + " " + s.axial));
    if (eo.cmfd == 1) c.label("accelerated");
    if (conv) c.label("converged");
    for (Symm o : ops) c.label(symm_name[o]);
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial(p.pinmap.size() > 1 && (kinds.size() > 1 || std::set<std::string>(p.bc, p.bc + 6).size() > 1));
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C18";
    s.fn = go;
    s.rule = "more than one pin, and different pins or different boundary conditions";
    s.oracle = "metamorphic: fluxes and powers of the transformed core are the transformed fluxes and powers, at every step of the iteration (1e-6, or 1e-8 for Sn without acceleration) or converged (1e-5)";
    s.quick_cases = 5000;
    s.thorough_cases = 30000;
    s.batch = 1;
    s.assumptions = {"sectors of cylindrical pins are kept to multiples of four when the axes are swapped", "no circle touches the edges of its pin", "steps of accelerated iterations that diverge are not judged"};
    return pbt::pbt_main(argc, argv, s);
}
