// flavor: opt
// C20: scaling laws, and independence of names and order
#include "symm.hpp"
using namespace model;

// definitions in another order, under other ids, some of them twice; index lists that refer to them follow
template <class T, class F> static void relabel(Draw &d, std::vector<T> &v, bool twice, F refs) {
    int n = v.size();
    std::vector<std::vector<int>> at(n); // new places of each definition
    std::vector<T> o;
    std::vector<int> of;
    for (int i = 0; i < n; i++) {
        of.push_back(i);
        if (twice && d.chance(0.5)) of.push_back(i);
    }
    auto perm = d.shuffle(of.size());
    for (size_t j = 0; j < of.size(); j++) {
        int i = of[perm[j]];
        at[i].push_back(j);
        o.push_back(v[i]);
    }
    std::set<int> used;
    for (auto &e : o) {
        int id = d.range(1, 400);
        while (used.count(id)) id = id % 999 + 1;
        used.insert(id);
        e.id = id;
    }
    v = o;
    refs([&](int &r) { r = at[r][d.range(0, (int)at[r].size() - 1)]; });
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    bool conv = d.chance(0.3); // a change of nu-fission: compare the converged answers
    std::string type = d.pick(conv ? std::vector<std::string>{"moc", "sn"} : std::vector<std::string>{"moc", "sn", "2d3d"});
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 4;
    gopt.max_planes = conv && type == "moc" ? 1 : 4;
    gopt.touching = false;
    gopt.pmin = 0.6;
    Problem p = gen_geom(d, lib, gopt);
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.coupled = type == "2d3d";
    so.user_quad = !conv;
    SweepDef s = gen_sweeper(d, p, so);
    EigenOpts eo;
    eo.cmfd = type == "2d3d" ? 1 : conv ? 0 : d.chance(0.4);
    // surfaces crossed at a corner are tallied one way or the other by rounding: such rays are always pin-modular
    if (type != "sn" && (eo.cmfd == 1 || d.chance(0.3))) s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    double tol = 1e-6;
    if (conv) {
        eo.k_tol = eo.psi_tol = 1e-9;
        eo.max_iter = 1500;
        tol = 1e-5;
    } else {
        eo.k_tol = eo.psi_tol = 1e-12;
        eo.max_iter = d.range(1, eo.cmfd == 1 ? 3 : 6);
        if (eo.cmfd == 1) {
            eo.cmfd_xml = "<cmfd residual_reduction=\"1e-10\" k_tol=\"1e-12\" psi_tol=\"1e-11\" max_iter=\"1000\" />\n";
            s.inner += 2, s.sn_inner += 2;
            tol = 1e-5;
        }
    }

    // the other problem
    Problem q = p;
    SweepDef t = s;
    std::string what;
    double nu = 1.0, len = 1.0;
    auto add = [&](const std::string &w) { what += (what.empty() ? "" : ", ") + w; };
    int which = d.range(1, 15);
    if (conv) {
        nu = sig(d.logreal(0.2, 5.0), 4);
        for (auto &m : q.lib.mats)
            for (double &v : m.nuf) v *= nu;
        add("nu-fission by " + num(nu));
        which = d.chance(0.5) ? 0 : which;
    }
    if (which & 1) {
        // rays through corners and along borders fall to one side or the other by rounding: scale those exactly
        len = type != "sn" || d.chance(0.3) ? std::ldexp(1.0, d.range(-3, 3)) : sig(d.logreal(0.3, 3.0), 3);
        for (auto &m : q.meshes) {
            m.pitch *= len;
            for (double &r : m.radii) r *= len;
        }
        for (auto &a : q.asys)
            for (double &h : a.hz) h *= len;
        for (auto &m : q.lib.mats) {
            for (auto *v : {&m.abs, &m.nuf, &m.fis})
                for (double &x : *v) x /= len;
            for (auto &r : m.sc)
                for (double &x : r) x /= len;
        }
        size_t k = t.rays.find("spacing=\"") + 9;
        t.rays.replace(k, t.rays.find('"', k) - k, num(s.spacing * len));
        add("lengths by " + num(len));
    }
    if (which & 2) {
        for (auto &m : q.lib.mats) {
            double f = d.logreal(0.1, 10.0);
            for (double &x : m.chi) x *= f;
        }
        add("chi scaled");
    }
    if (which & 12) {
        bool twice = which & 8;
        // materials: library entries and their definitions
        int nm = q.use_mat.size();
        std::vector<int> slot_of(nm);
        std::vector<int> um, ids;
        std::vector<Mat> mats;
        std::vector<std::vector<int>> at(nm);
        std::vector<int> of;
        for (int i = 0; i < nm; i++) {
            of.push_back(i);
            if (twice && d.chance(0.5)) of.push_back(i);
        }
        auto perm = d.shuffle(of.size()), lp = d.shuffle(of.size());
        mats.resize(of.size());
        std::set<int> used;
        for (size_t j = 0; j < of.size(); j++) {
            int i = of[perm[j]];
            at[i].push_back(j);
            Mat m = q.lib.mats[q.use_mat[i]];
            m.name = fmt("n%dx%d", (int)lp[j], (int)d.range(0, 9));
            mats[lp[j]] = m;
            um.push_back(lp[j]);
            int id = d.range(1, 400);
            while (used.count(id)) id = id % 999 + 1;
            used.insert(id);
            ids.push_back(id);
        }
        q.lib.mats = mats;
        q.use_mat = um;
        q.mat_id = ids;
        for (auto &pin : q.pins)
            for (int &m : pin.mats) m = at[m][d.range(0, (int)at[m].size() - 1)];
        relabel(d, q.meshes, twice, [&](auto f) { for (auto &e : q.pins) f(e.mesh); });
        relabel(d, q.pins, twice, [&](auto f) { for (auto &e : q.lats) for (int &i : e.pins) f(i); });
        relabel(d, q.lats, twice, [&](auto f) {
            for (auto &e : q.asys) {
                auto g = e.groups;
                if (g.empty()) g.assign(e.lats.size(), 1);
                size_t at = 0;
                for (int n : g) { // planes of a group must name the same lattice
                    f(e.lats[at]);
                    for (int i = 1; i < n; i++) e.lats[at + i] = e.lats[at];
                    at += n;
                }
            }
        });
        relabel(d, q.asys, twice, [&](auto f) { for (int &i : q.core) f(i); });
        add(twice ? "definitions duplicated and relabelled" : "definitions relabelled");
    }
    q.finish();
    std::string sx = eigen_xml(s, eo), tx = eigen_xml(t, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << what << "\n" << q.lib.text() << tx << q.mats_xml() << q.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (eo.cmfd == 1) {
        if (!a.ok() || a.text.find(" 1001 ") != std::string::npos) c.discard("acceleration diverges");
        if (a.clipped() || a.negative() || a.text.find(" -") != std::string::npos) c.discard("negative fluxes");
        for (double k : a.get("convergence/k"))
            if (!(k > 0.2 && k < 4)) c.discard("acceleration diverges");
    }
    if (type == "sn" && a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (conv) {
        if (a.iterations() >= eo.max_iter) c.discard("no convergence");
        if (a.clipped()) c.discard("negative fluxes");
    }
    Result b = run_problem(c.dir, "b", q, tx);
    if (eo.cmfd == 1 && b.text.find("nan") != std::string::npos) c.discard("acceleration breaks down");
    c.check(b.ok(), "status", what + fmt(": status %d: ", b.status) + b.tail());
    if (b.missed()) c.discard("rays too coarse");
    auto ka = a.get("convergence/k"), kb = b.get("convergence/k");
    if (conv) {
        if (b.iterations() >= eo.max_iter) c.discard("no convergence");
        if (type == "sn" && b.clipped()) c.discard("negative fluxes");
        c.close(kb.back(), nu * ka.back(), 1e-6, 1e-7 * std::max(1.0, nu), "k", what);
    } else {
        c.check(ka.size() == kb.size(), "steps", what);
        for (size_t i = 0; i < ka.size(); i++) c.close(kb[i], ka[i], tol, 0, "k", what + fmt(", step %d", (int)i + 1));
    }
    std::vector<std::string> names = {type == "2d3d" ? "Sn/pin_powers" : "pin_powers"};
    for (int g = 0; g < lib.ng; g++)
        for (std::string w : type == "2d3d" ? std::vector<std::string>{"Sn/flux", "MoC/flux", "MoC/fsr_flux"} : type == "sn" ? std::vector<std::string>{"flux"} : std::vector<std::string>{"flux", "fsr_flux"})
            names.push_back(w + fmt("/%03d", g + 1));
    double peak = 0;
    for (auto &n : names)
        for (double x : n.find("flux") == std::string::npos ? std::vector<double>() : a.get(n)) peak = std::max(peak, x);
    // fluxes of regions are reported as they stand; their common scale depends on how the iteration went
    double scale = 1, sa = 0, sb = 0;
    for (auto &n : names) {
        if (n.find("fsr_flux") == std::string::npos) continue;
        for (double x : a.get(n)) sa += x;
        for (double x : b.get(n)) sb += x;
    }
    if (conv && sb > 0) scale = sa / sb;
    for (auto &n : names) {
        auto v = a.get(n), w = b.get(n);
        if (n.find("fsr_flux") != std::string::npos)
            for (double &x : w) x *= scale;
        c.check(!v.empty() && v.size() == w.size(), "missing", n);
        double top = conv && n.find("flux") != std::string::npos ? peak : 0;
        for (double x : v) top = std::max(top, std::fabs(x));
        if (!(top > 0)) c.discard("negative fluxes");
        for (size_t i = 0; i < v.size(); i++) c.close(w[i], v[i], 0, tol * top, "values", what + ": " + n + fmt("[%d]", (int)i));
    }
    c.label(type + (type == "moc" ? "" : " " + s.eq + " " + s.axial));
    if (eo.cmfd == 1) c.label("accelerated");
    if (nu != 1) c.label("nu-fission");
    if (len != 1) c.label("lengths");
    if (which & 2) c.label("chi");
    if (which & 8) c.label("duplicated");
    else if (which & 4) c.label("relabelled");
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial((nu != 1 || len != 1 || (which & 14)) && (kinds.size() > 1 || p.meshes[p.pins[p.pinmap[0]].mesh].nreg() > 1));
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C20";
    s.fn = go;
    s.rule = "something changed, and more than one kind of pin or region";
    s.oracle = "metamorphic: k, pin powers, pin and region fluxes of the changed problem are those of the original one, at every step of the iteration (1e-6, accelerated 1e-5), or with k times the factor on nu-fission when converged (1e-5)";
    s.quick_cases = 3000;
    s.thorough_cases = 30000;
    s.batch = 1;
    s.assumptions = {"lengths are scaled by powers of two when there are rays", "rays are pin-modular (no ray through a corner) when coarse currents are tallied", "no circle touches the edges of its pin", "steps of accelerated iterations that diverge are not judged"};
    return pbt::pbt_main(argc, argv, s);
}
