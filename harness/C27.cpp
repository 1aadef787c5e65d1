// flavor: opt
// C27: the coupled plane method reproduces its characteristics solution
#include "e2e.hpp"
using namespace model;

static double last_error(const Result &r) {
    double last = 1;
    std::istringstream in(r.text);
    std::string line;
    while (std::getline(in, line)) {
        double t, it, k, ek, ep;
        if (std::sscanf(line.c_str(), "%lf %lf %lf %lf %lf %lf", &t, &it, &k, &ek, &ep, &t) == 5) last = ek < 1 && ep < 1 ? std::max(ek, ep) : 1;
    }
    return last;
}

// One problem; whether it converged
static bool one(Draw &d, Case &c, const std::string &kind, const std::string &tag) {
    LibOpts lo;
    lo.max_groups = kind == "weak" ? 1 : 3;
    lo.max_mats = 3;
    lo.fissile = 1;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    double pitch = sig(d.real(0.5, 1.5), 3);
    lo.tmin = 0.3 / pitch;
    lo.tmax = 1.0 / pitch;
    Lib lib = gen_lib(d, lo);
    while (kind == "weak" && lib.mats.size() < 2) {
        lib.mats.push_back(lib.mats[0]);
        lib.mats.back().name += fmt("-%d", (int)lib.mats.size());
    }
    if (kind == "weak")
        for (size_t i = 1; i < lib.mats.size(); i++) {
            std::string name = lib.mats[i].name;
            lib.mats[i] = lib.mats[0];
            lib.mats[i].name = name;
            for (double &v : lib.mats[i].abs) v = sig(v * d.real(0.9, 1.1), 5);
        }
    // a source everywhere: the correction factors of a cell side that no neutron crosses are undefined
    for (auto &m : lib.mats)
        for (int g = 0; g < lib.ng; g++) m.sc[g][g] = std::max(m.sc[g][g], sig(0.05 * m.abs[g], 5));
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    if (kind == "weak") lib.mats[1].nuf = lib.mats[0].nuf;
    int ng = lib.ng;
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = kind == "plane" || kind == "weak" ? 1 : 3;
    gopt.touching = false;
    gopt.pitch_choices = {pitch};
    gopt.hmin = 0.5 * pitch;
    gopt.hmax = kind == "core" ? 3 * pitch : pitch;
    Problem p = gen_geom(d, lib, gopt);
    if (kind == "weak" || d.chance(0.5))
        for (int f = 0; f < 4; f++) p.bc[f] = "reflect";
    if (kind != "core" || d.chance(0.7)) p.bc[TOP] = p.bc[BOTTOM] = "reflect";
    if (kind == "column")
        for (auto &a : p.asys)
            for (int &l : a.lats) l = a.lats[0];
    if (kind == "weak") {
        // the same plane twice, uniform, with a little more or less absorption in one of the two
        p.use_mat = {0, 1};
        p.mat_id = {1, 2};
        int np = p.pins.size(), nl = p.lats.size();
        for (auto &q : p.pins) std::fill(q.mats.begin(), q.mats.end(), 0);
        for (int i = 0; i < np; i++) {
            PinDef q = p.pins[i];
            q.id += 1000;
            std::fill(q.mats.begin(), q.mats.end(), 1);
            p.pins.push_back(q);
        }
        for (int i = 0; i < nl; i++) {
            LatDef l = p.lats[i];
            l.id += 1000;
            for (int &q : l.pins) q += np;
            p.lats.push_back(l);
        }
        double h[2] = {sig(pitch * d.real(0.8, 1.5), 3), sig(pitch * d.real(0.8, 1.5), 3)};
        for (auto &a : p.asys) {
            a.lats = {a.lats[0], a.lats[0] + nl};
            a.hz = {h[0], h[1]};
            a.groups.clear();
            a.scalar_hz = false;
        }
    }
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = so.sn = false;
    so.coupled = true;
    so.user_quad = false;
    SweepDef s = gen_sweeper(d, p, so);
    if (kind == "weak") s.upd = "gs";
    // every region has to be crossed at every angle for the two methods to have the same balance
    double small = pitch;
    for (auto &m : p.meshes) {
        if (!m.cyl) small = std::min(small, pitch / std::max(m.nx, m.ny));
        double r = 0;
        for (size_t i = 0; m.cyl && i < m.radii.size(); i++) {
            small = std::min(small, (m.radii[i] - r) / m.sub_rad[i] * (m.azi > 4 ? 0.7 : 1));
            r = m.radii[i];
        }
    }
    if (small > 0.06 * pitch && d.chance(0.6)) s.spacing = std::min(s.spacing, 0.25 * small);
    bool fine = s.spacing < 0.3 * small;
    s.rays = "<rays modularity=\"pin\" spacing=\"" + num(s.spacing) + "\" />";
    s.inner = d.range(2, 4);
    s.sn_inner = d.range(3, 6);
    s.more += " relax=\"" + d.pick(std::vector<std::string>{"0.3", "0.5", "0.7", "1.0"}) + "\"";
    std::string opt = kind == "weak" ? "" : d.pick(std::vector<std::string>{"", "", " moc_project=\"t\"", " inactive_moc=\"2\"",
                                                      " cycle=\"v\"", " tl=\"f\""});
    if ((kind == "core" || kind == "weak") && opt == " tl=\"f\"") opt = "";
    s.more += opt;
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-10;
    eo.max_iter = 400;
    eo.cmfd = 1;
    if (opt.find("inactive") != std::string::npos) eo.min_iter = 10; // nothing changes while the characteristics sweep is off
    eo.cmfd_xml = "<cmfd residual_reduction=\"1e-6\" k_tol=\"1e-11\" psi_tol=\"1e-11\" />\n";
    std::string sx = eigen_xml(s, eo);
    c.desc << kind << "\n" << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a" + tag, p, sx);
    if (a.missed()) c.discard("rays too coarse");
    bool done = a.ok() && last_error(a) < 1e-8;
    bool closed = (p.bc[EAST] == "reflect" || p.bc[WEST] == "reflect") && (p.bc[NORTH] == "reflect" || p.bc[SOUTH] == "reflect");
    if (kind == "plane" && fine && (opt.empty() || opt == " tl=\"f\"") && closed && s.upd != "jacobi") {
        c.check(a.ok(), "coupled-run-failed", fmt("status %d: ", a.status) + a.tail());
        c.check(last_error(a) < 1e-3, "no-convergence", "a single plane without axial leakage: " + a.tail(400));
    }
    if (kind == "weak" && !done) return false;
    if (!done) c.discard("no convergence");
    c.label(kind + (opt.empty() ? "" : " with option"));
    if (a.clipped() || a.negative()) {
        if (kind == "weak") return true;
        c.discard("negative fluxes");
    }

    // the fluxes of the corrected sweep, averaged over the grouped planes, and those of the characteristics
    auto fs = a.groups("Sn/flux", ng), fm = a.groups("moc_flux", ng);
    auto gr = p.groups();
    int np = p.nx * p.ny, nm = gr.size();
    double peak = 0, ss = 0, sm = 0;
    std::vector<double> u, v;
    for (int g = 0; g < ng; g++) {
        c.check((int)fs[g].size() == np * p.nz && (int)fm[g].size() == np * nm, "size", "");
        int iz = 0;
        for (int m = 0; m < nm; m++) {
            std::vector<double> w(np, 0.0);
            double h = 0;
            for (int j = 0; j < gr[m]; j++, iz++) {
                h += p.dz(iz);
                for (int i = 0; i < np; i++) w[i] += p.dz(iz) * fs[g][iz * np + i];
            }
            for (int i = 0; i < np; i++) u.push_back(w[i] / h), v.push_back(fm[g][m * np + i]), ss += u.back(), sm += v.back();
        }
    }
    for (double &x : u) x *= sm / ss;
    for (double x : v) peak = std::max(peak, x);
    for (size_t i = 0; i < u.size(); i++) c.close(u[i], v[i], 0, 5e-6 * peak, "flux", fmt("[%d]", (int)i));
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial(kinds.size() > 1);
    if (kind == "core" || kind == "weak") return true;

    // without axial variation the plain method has the same answer
    SweepDef t = s;
    t.type = "moc";
    EigenOpts ep = eo;
    ep.cmfd = 0;
    ep.max_iter = 3000;
    Result b = run_problem(c.dir, "b", p, eigen_xml(t, ep));
    c.check(b.ok(), "plain-run-failed", fmt("status %d: ", b.status) + b.tail());
    if (b.iterations() >= ep.max_iter) c.discard("no convergence");
    c.close(a.k(), b.k(), 5e-6, 5e-6, "k", "coupled and plain");
    auto pa = a.get("MoC/pin_powers"), pb = b.get("pin_powers");
    c.check(!pa.empty() && pa.size() == pb.size(), "size", "pin powers");
    for (size_t i = 0; i < pa.size(); i++) c.close(pa[i], pb[i], 5e-5, 5e-5, "power", fmt("[%d]", (int)i));
    return true;
}

static void go(Draw &d, Case &c) {
    // plane: a single plane with reflecting ends; column: the same plane several times; weak: two slightly different planes; core: any
    std::string kind = d.pick(std::vector<std::string>{"plane", "plane", "column", "core"});
    if (!d.chance(0.1)) {
        one(d, c, kind, "");
        return;
    }
    // one in forty of these does not converge
    int n = 4, done = 0;
    for (int i = 0; i < n; i++) done += one(d, c, "weak", std::to_string(i));
    c.check(done > 0, "no-convergence", fmt("none of %d problems with slightly different planes", n));
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C27";
    s.fn = go;
    s.rule = "different pins";
    s.oracle = "model: at convergence the pin fluxes of the corrected sweep are those of the characteristics (5e-6 of the largest); differential: without axial variation k (5e-6) and pin powers (5e-5) are those of the plain characteristics calculation";
    s.quick_cases = 800;
    s.thorough_cases = 12000;
    s.batch = 1;
    s.assumptions = {"every material scatters in every group: the correction factors of a cell side that no neutron crosses are undefined",
                     "a single plane between reflecting ends, with a reflecting side in x and in y, with rays fine enough to cross every region at every angle and boundary values updated in place, must converge, and one at least of four problems with two slightly different planes; others may not, and are then discarded",
                     "default (flat) correction of the ray lengths: the angle-averaged one does not keep the balance of each direction",
                     "projection of the corrected sweep onto the characteristics is off: it hides how far the latter is from convergence"};
    return pbt::pbt_main(argc, argv, s);
}
