// flavor: opt
// C38: exported coupled data drive a corrected discrete-ordinates run to the same answer
#include "e2e.hpp"
using namespace model;

static double last_error(const Result &r) {
    double last = 1;
    std::istringstream in(r.text);
    std::string line;
    while (std::getline(in, line)) {
        double t, it, k, ek, ep;
        if (std::sscanf(line.c_str(), "%lf %lf %lf %lf %lf %lf", &t, &it, &k, &ek, &ep, &t) == 5) last = ek < 1 && ep < 1 ? std::max(ek, ep) : 1;
    }
    return last;
}

static void go(Draw &d, Case &c) {
    // stack: a single plane, its data used for several; same: the same core
    std::string kind = d.pick(std::vector<std::string>{"stack", "same", "same"});
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.fissile = 1;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    double pitch = sig(d.real(0.5, 1.5), 3);
    lo.tmin = 0.3 / pitch;
    lo.tmax = 1.0 / pitch;
    Lib lib = gen_lib(d, lo);
    // a source everywhere: the correction factors of a cell side that no neutron crosses are undefined
    for (auto &m : lib.mats)
        for (int g = 0; g < lib.ng; g++) m.sc[g][g] = std::max(m.sc[g][g], sig(0.05 * m.abs[g], 5));
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    int ng = lib.ng;
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = kind == "stack" || d.chance(0.5) ? 1 : 3;
    gopt.touching = false;
    gopt.pitch_choices = {pitch};
    gopt.hmin = 0.5 * pitch;
    gopt.hmax = pitch;
    Problem p = gen_geom(d, lib, gopt);
    if (d.chance(0.5))
        for (int f = 0; f < 4; f++) p.bc[f] = "reflect";
    if (kind == "stack" || d.chance(0.7)) p.bc[TOP] = p.bc[BOTTOM] = "reflect";
    if (kind == "same" && d.chance(0.5)) // no axial variation
        for (auto &a : p.asys)
            for (int &l : a.lats) l = a.lats[0];
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = so.sn = false;
    so.coupled = true;
    so.user_quad = false;
    SweepDef s = gen_sweeper(d, p, so);
    s.upd = d.chance(0.8) ? "gs" : "";
    s.rays = "<rays modularity=\"pin\" spacing=\"" + num(s.spacing) + "\" />";
    s.inner = d.range(2, 4);
    s.sn_inner = d.range(3, 6);
    s.more += " dump_corrections=\"t\" relax=\"" + d.pick(std::vector<std::string>{"0.5", "0.7", "1.0"}) + "\"";
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-10;
    eo.max_iter = 400;
    eo.cmfd = 1;
    eo.cmfd_xml = "<cmfd residual_reduction=\"1e-6\" k_tol=\"1e-11\" psi_tol=\"1e-11\" />\n";
    std::string sx = eigen_xml(s, eo);
    c.desc << kind << "\n" << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (!a.ok() || last_error(a) > 1e-8) c.discard("no convergence");
    if (a.clipped() || a.negative()) c.discard("negative fluxes");

    // the corrected sweep by itself, from the file
    Problem q = p;
    if (kind == "stack") {
        int n = d.range(1, 4);
        std::vector<double> h;
        for (int i = 0; i < n; i++) h.push_back(sig(pitch * d.real(0.5, 1.0), 3));
        for (auto &t : q.asys) {
            t.lats.assign(n, t.lats[0]);
            t.hz = h;
            t.groups.clear();
            t.scalar_hz = false;
        }
        q.finish();
    }
    // data by groups of planes: as one file for all, or given once for each range
    int nm = q.groups().size();
    std::string data;
    if (kind == "same") data = "<data file=\"../a/in.h5\" />";
    else
        for (int b = 0; b < nm;) {
            int t = d.range(b, nm - 1);
            data += fmt("<data file=\"../a/in.h5\" bottom_plane=\"%d\" top_plane=\"%d\" />", b, t);
            b = t + 1;
        }
    EigenOpts eb;
    eb.k_tol = eb.psi_tol = 1e-11;
    eb.max_iter = 3000;
    eb.cmfd = 0;
    std::string u = s.upd.empty() ? "" : " boundary_update=\"" + s.upd + "\"";
    std::string bx = eigen_xml(s, eb);
    size_t at = bx.find("<sweeper"), to = bx.find("</sweeper>") + 10;
    bx.replace(at, to - at, "<sweeper type=\"sn\" n_inner=\"" + std::to_string(s.sn_inner) + "\" equation=\"cdd\" axial=\"" + s.axial + "\"" + u + ">" + s.quad + data + "</sweeper>");
    c.desc << bx << q.geom_xml();
    Result b = run_problem(c.dir, "b", q, bx);
    c.check(b.ok(), "fed-run-failed", fmt("status %d: ", b.status) + b.tail());
    if (b.iterations() >= eb.max_iter) c.discard("no convergence");
    if (b.clipped() || b.negative()) c.discard("negative fluxes");
    c.close(b.k(), a.k(), 2e-6, 2e-6, "k", kind);
    auto fa = a.groups("Sn/flux", ng), fb = b.groups("flux", ng);
    int np = p.nx * p.ny;
    double sa = 0, sb = 0, peak = 0;
    for (int g = 0; g < ng; g++) {
        c.check((int)fa[g].size() == np * p.nz && (int)fb[g].size() == np * q.nz, "size", "");
        for (double v : fa[g]) sa += v / p.nz, peak = std::max(peak, v);
        for (double v : fb[g]) sb += v / q.nz;
    }
    for (int g = 0; g < ng; g++)
        for (int i = 0; i < np * q.nz; i++)
            c.close(fb[g][i] * sa / sb, fa[g][kind == "stack" ? i % np : i], 0, 1e-5 * peak, "flux", kind + fmt(" group %d cell %d", g + 1, i));
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial(kinds.size() > 1);
    c.label(kind + (nm > 1 ? " several planes" : " one plane"));
    if (nm < q.nz) c.label("grouped planes");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C38";
    s.fn = go;
    s.rule = "different pins";
    s.oracle = "differential: k (2e-6) and pin fluxes (1e-5 of the largest) of the corrected discrete-ordinates run fed with the file are those of the coupled run that wrote it";
    s.quick_cases = 1500;
    s.thorough_cases = 15000;
    s.batch = 1;
    s.assumptions = {"coupled runs that do not converge are discarded", "every material scatters in every group"};
    return pbt::pbt_main(argc, argv, s);
}
