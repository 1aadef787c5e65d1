// flavor: opt
// C19: a reflecting face is the mirrored continuation of the core
#include "symm.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.85;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    std::string type = d.pick(std::vector<std::string>{"moc", "sn", "sn", "2d3d"});
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = type == "moc" ? 1 : 3;
    gopt.touching = false;
    gopt.pmin = 0.6;
    Problem p = gen_geom(d, lib, gopt);
    int n = d.range(1, 2), nf = type == "moc" ? 4 : 6;
    std::vector<int> faces;
    for (int i = 0; i < n; i++) faces.push_back(d.range(0, nf - 1));
    bool swap = false;
    for (int f : faces) swap |= f == NORTH || f == SOUTH;
    if (swap)
        for (auto &m : p.meshes)
            if (m.cyl && m.azi % 4) m.azi = 4;
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.coupled = type == "2d3d";
    so.smin = 0.1;
    so.user_quad = false; // a few grazing directions leave pins all but decoupled, and the iteration without end
    SweepDef s = gen_sweeper(d, p, so);
    s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    double rmin = 1e9;
    for (auto &m : p.meshes)
        if (m.cyl) rmin = std::min(rmin, m.radii[0] / (m.sub_rad.empty() ? 1 : m.sub_rad[0]));
    if (s.spacing > 0.25 * rmin) { // regions only grazed by a ray are blown up by the correction
        size_t k = s.rays.find(" volume_correction");
        if (k != std::string::npos) s.rays.erase(k, s.rays.find("/>") - k);
        s.rays.insert(s.rays.find("/>"), " volume_correction=\"none\" ");
    }
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-9;
    eo.max_iter = 1500;
    eo.cmfd = 0;
    if (type == "2d3d") {
        eo.cmfd = 1;
        eo.k_tol = 1e-8;
        eo.psi_tol = 1e-8;
        eo.max_iter = 150;
        s.inner += 2, s.sn_inner += 2;
    }
    // Gauss-Seidel updates are not symmetric: they excite modes that decay as slowly as the halves are weakly coupled.
    // Such a run is compared by the mean of its halves.
    bool fold = s.upd != "jacobi";
    if (fold) faces.resize(1);
    // a reflecting face to continue at; the next one may be the face just made
    Problem q = p;
    std::string what;
    struct Step { int face, nx, ny, nz; };
    std::vector<Step> steps;
    for (int f : faces) {
        if (steps.empty()) p.bc[f] = q.bc[f] = "reflect";
        if (q.bc[f] != "reflect") continue;
        steps.push_back({f, q.nx, q.ny, q.nz});
        q = extend(q, f);
        what += std::string(what.empty() ? "" : ", ") + face_name[f];
    }
    std::string sx = eigen_xml(s, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << "continued at: " << what << "\n";
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (type == "2d3d" && !a.ok()) c.discard("acceleration diverges");
    if (a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (a.iterations() >= eo.max_iter) c.discard("no convergence");
    if (a.clipped() || a.negative()) c.discard("negative fluxes");
    if (a.k() < 0.05) c.discard("no multiplication");
    Result b = run_problem(c.dir, "b", q, sx);
    if (type == "2d3d" && (!b.ok() || b.iterations() >= eo.max_iter)) c.discard("acceleration diverges");
    c.check(b.ok(), "status", what + fmt(": status %d: ", b.status) + b.tail());
    if (b.iterations() >= eo.max_iter) c.discard("no convergence");
    if (type == "sn" && b.clipped()) c.discard("negative fluxes"); // on the way there: several solutions once some are set to zero
    double rel = type == "2d3d" ? 1e-4 : 1e-5;
    c.close(b.k(), a.k(), 0.1 * rel, 0.1 * rel, "k", what);
    std::vector<std::string> names = {type == "2d3d" ? "Sn/pin_powers" : "pin_powers"};
    for (int g = 0; g < lib.ng; g++)
        for (std::string w : type == "2d3d" ? std::vector<std::string>{"Sn/flux"} : std::vector<std::string>{"flux"}) names.push_back(w + fmt("/%03d", g + 1));
    double peak = 0; // groups with next to no flux do not count for convergence
    for (auto &nm : names)
        for (double x : nm.find("flux") == std::string::npos ? std::vector<double>() : a.get(nm)) peak = std::max(peak, x);
    for (auto &nm : names) {
        auto v = a.get(nm), w = b.get(nm);
        for (auto &t : steps) {
            c.check((int)v.size() == t.nx * t.ny * t.nz, "size", nm);
            v = extend(v, t.nx, t.ny, t.nz, t.face);
        }
        c.check(!v.empty() && v.size() == w.size(), "size", nm);
        if (fold) {
            int f = steps[0].face;
            auto u = transform(w, q.nx, q.ny, f == EAST || f == WEST ? MIRROR_X : f == NORTH || f == SOUTH ? MIRROR_Y : MIRROR_Z);
            for (size_t i = 0; i < w.size(); i++) w[i] = 0.5 * (w[i] + u[i]);
        }
        // the program scales each to its own mean, which weighs the pins alike
        double top = nm.find("flux") == std::string::npos ? 0 : peak;
        for (double x : v) top = std::max(top, std::fabs(x));
        for (size_t i = 0; i < v.size(); i++) c.close(w[i], v[i], 0, rel * top, "values", what + ": " + nm + fmt("[%d]", (int)i));
    }
    c.label(type + (type == "moc" ? "" : " " + s.eq + " " + s.axial));
    for (auto &t : steps) c.label(face_name[t.face]);
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    std::set<std::string> bcs(p.bc, p.bc + 6);
    c.nontrivial(kinds.size() > 1 || bcs.size() > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C19";
    s.fn = go;
    s.rule = "different pins or different boundary conditions";
    s.oracle = "metamorphic: k (1e-6), pin powers and pin fluxes (1e-5) of the core continued at a reflecting face are those of the core, unfolded (ten times more for the coupled method)";
    s.quick_cases = 1000;
    s.thorough_cases = 12000;
    s.batch = 1;
    s.assumptions = {"rays repeat with the pins, so that both cores are traced alike", "sectors of cylindrical pins are kept to multiples of four when continued in y"};
    return pbt::pbt_main(argc, argv, s);
}
