// flavor: opt
// C21: the converged eigenvalue is production over losses of the reported fluxes
#include "e2e.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.5, 1.8);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    int ng = lib.ng;
    std::string type = d.pick(std::vector<std::string>{"moc", "moc", "sn", "sn", "2d3d"});
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = type == "moc" ? 1 : 3;
    gopt.touching = false;
    gopt.pmin = 0.5;
    Problem p = gen_geom(d, lib, gopt);
    // diamond differences may carry negative fluxes out of an open face, characteristics never do
    bool open = type == "moc" && d.chance(0.35);
    for (int f = 0; f < 6; f++) p.bc[f] = "reflect";
    if (open)
        for (int i = d.range(1, 2); i > 0; i--) p.bc[d.range(0, 3)] = "vacuum";
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.coupled = type == "2d3d";
    so.user_quad = type != "2d3d";
    SweepDef s = gen_sweeper(d, p, so);
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-9;
    eo.max_iter = 1500;
    eo.cmfd = type == "2d3d" ? 1 : d.chance(0.3);
    if (eo.cmfd == 1) {
        s.inner += 2, s.sn_inner += 2;
        eo.max_iter = 150;
        s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    }
    std::string sx = eigen_xml(s, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (eo.cmfd == 1 && (!a.ok() || a.iterations() >= eo.max_iter)) c.discard("acceleration diverges");
    if (a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (a.iterations() >= eo.max_iter) c.discard("no convergence");
    if (a.clipped() || a.negative()) c.discard("negative fluxes");
    double k = a.k();
    if (k < 0.05) c.discard("no multiplication");

    // rates of each region of the model, from the reported fluxes and the input
    auto m = make_mesh(p, c.dir);
    auto rm = plane_region_map(p, *m);
    auto bot = group_bottoms(p);
    std::vector<double> in(ng, 0.0), loss(ng, 0.0); // per group: fission and scattering in, collisions
    double prod = 0, absn = 0;
    auto fine = a.groups(type == "2d3d" ? "MoC/fsr_flux" : "fsr_flux", ng);
    auto pinf = a.groups(type == "2d3d" ? "Sn/flux" : "flux", ng);
    bool onechi = true;
    for (auto &r : p.regions()) {
        const Mat &mt = p.mat(p.mat_slot_of(r));
        double v = p.area(r) * p.dz(r.pz);
        std::vector<double> f(ng);
        for (int g = 0; g < ng; g++) {
            int pin = (r.pz * p.ny + r.py) * p.nx + r.px;
            if (type == "sn") {
                c.check(pin < (int)pinf[g].size(), "size", "flux");
                f[g] = pinf[g][pin];
            } else {
                Region b = r;
                for (int z : bot) if (z <= r.pz) b.pz = z;
                int i = rm.at(b);
                c.check(i < (int)fine[g].size(), "size", "fsr_flux");
                f[g] = fine[g][i];
            }
        }
        double fs = 0;
        for (int g = 0; g < ng; g++) {
            fs += mt.nuf[g] * f[g] * v;
            absn += mt.abs[g] * f[g] * v;
            loss[g] += mt.tr(g) * f[g] * v;
            for (int h = 0; h < ng; h++) in[g] += mt.sc[g][h] * f[h] * v;
        }
        prod += fs;
        for (int g = 0; g < ng; g++) in[g] += mt.chin(g) * fs / k;
    }
    // a pin of several materials has one fission spectrum, made for a flat spectrum
    if (type == "sn")
        for (auto &pin : p.pins) {
            const Mat *first = nullptr;
            for (int s : pin.mats) {
                const Mat &mt = p.mat(s);
                if (!mt.fissile()) continue;
                if (first && first->chi != mt.chi) onechi = false;
                first = &mt;
            }
        }
    double tol = type == "2d3d" ? 1e-4 : 1e-5, tot = 0;
    for (double l : loss) tot += l;
    if (!open) {
        c.close(prod / absn, k, tol, 0, "balance", "production over absorption");
        if (onechi)
            for (int g = 0; g < ng; g++) c.close(in[g], loss[g], 0, tol * tot, "group-balance", fmt("group %d", g + 1));
    } else {
        c.check(k < prod / absn * (1 + tol), "leakage", fmt("k %.10g is not below %.10g of the fluxes with open faces", k, prod / absn));
        for (int g = 0; g < ng; g++)
            c.check(in[g] > loss[g] - tol * tot, "group-leakage", fmt("group %d gains at open faces: %.10g, %.10g", g + 1, in[g], loss[g]));
    }
    c.label(type + (type == "moc" ? "" : " " + s.eq + " " + s.axial));
    if (open) c.label("open");
    if (eo.cmfd == 1) c.label("accelerated");
    std::set<int> mats;
    for (auto &r : p.regions()) mats.insert(p.mat_slot_of(r));
    c.nontrivial(mats.size() > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C21";
    s.fn = go;
    s.rule = "more than one material";
    s.oracle = "neutron balance summed over the regions of the model: reported fluxes, exact volumes, cross sections of the input";
    s.quick_cases = 1500;
    s.thorough_cases = 20000;
    s.batch = 1;
    s.assumptions = {"relative tolerance 1e-5, coupled method 1e-4", "runs whose negative fluxes were set to zero are not judged"};
    return pbt::pbt_main(argc, argv, s);
}
