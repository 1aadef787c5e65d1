// flavor: opt
// C12: homogenisation preserves reaction rates
#include "mocc_util.hpp"
#include "core/xs_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"
using namespace model;
using mocc::MeshTreatment;

// cross sections of an unhomogenised mesh are those of the materials
static void fine(Case &c, const Problem &p, const mocc::XSMesh &x, const std::map<Region, int> &rm, const char *what) {
    int n = rm.size(), ng = p.lib.ng;
    std::vector<int> owner(n, -1);
    c.check((int)x.n_group() == ng && x.n_reg_expanded() == n, "fine-size", what);
    for (int i = 0; i < (int)x.size(); i++)
        for (int r : x[i].reg()) {
            c.check(r >= 0 && r < n && owner[r] == -1, "fine-cover", what);
            owner[r] = i;
        }
    for (auto &e : rm) {
        auto &m = p.mat(p.mat_slot_of(e.first));
        c.check(owner[e.second] >= 0, "fine-cover", what);
        auto &xr = x[owner[e.second]];
        c.check(xr.n_group() == ng && xr.is_fissile() == m.fissile(), "fine-fissile", what);
        for (int g = 0; g < ng; g++) {
            auto w = fmt("%s region %d group %d", what, e.second, g);
            c.close(xr.xsmactr(g), m.tr(g), 1e-13, 0, "fine-tr", w);
            c.close(xr.xsmacnf(g), m.nuf[g], 1e-13, 0, "fine-nf", w);
            c.close(xr.xsmacf(g), m.fis[g], 1e-13, 0, "fine-f", w);
            c.close(xr.xsmacch(g), m.chin(g), 1e-13, 0, "fine-chi", w);
            c.close(xr.xsmacrm(g), m.tr(g) - m.sc[g][g], 1e-12, 1e-14 * m.tr(g), "fine-rm", w);
            auto &row = xr.xsmacsc(g);
            for (int f = 0; f < ng; f++) {
                double v = f >= row.min_g && f <= row.max_g ? row[f] : 0.0;
                c.check(v == m.sc[g][f], "fine-sc", w);
            }
            auto cdf = xr.reaction_cdf(g);
            c.check(cdf.size() == 3 && std::abs(cdf[0] - m.out(g) / m.tr(g)) < 1e-12 && std::abs(cdf[1] - cdf[0] - m.fis[g] / m.tr(g)) < 1e-12 && cdf[2] == 1.0,
                    "reaction-cdf", w);
        }
        auto cc = xr.chi_cdf();
        double s = 0;
        for (int g = 0; g < ng; g++) { s += m.chin(g); c.check(std::abs(cc[g] - s) < 1e-12, "chi-cdf", what); }
    }
    mocc::ExpandedXS ex(&x);
    for (int g : {0, ng - 1, 0}) {
        ex.expand(g);
        c.check(ex.size() == n, "expand-size", what);
        for (auto &e : rm) c.close(ex[e.second], p.mat(p.mat_slot_of(e.first)).tr(g), 1e-13, 0, "expand", what);
    }
    mocc::ArrayB1 split(n);
    for (int i = 0; i < n; i++) split(i) = 0.01 * (i + 1);
    ex.expand(ng - 1, split);
    for (auto &e : rm) c.close(ex[e.second], p.mat(p.mat_slot_of(e.first)).tr(ng - 1) + 0.01 * (e.second + 1), 1e-13, 0, "expand-split", what);
}

struct Cell { // reaction rates of a pin cell in one group of planes
    double vol = 0, fs = 0;
    std::vector<double> flux, tr, nf, f, chi, abs;
    std::vector<std::vector<double>> sc;
};

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 6;
    lo.tmin = 0.01;
    lo.cmin = 0.05;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_planes = 4;
    Problem p = gen_geom(d, lib, go);
    auto m = make_mesh(p, c.dir);
    int ng = lib.ng;
    c.desc << lib.text() << p.geom_xml();
    auto rm = region_map(p, *m), pm = plane_region_map(p, *m);
    {
        mocc::XSMesh t(*m, MeshTreatment::TRUE), pl(*m, MeshTreatment::PLANE);
        fine(c, p, t, rm, "every plane");
        fine(c, p, pl, pm, "every group of planes");
    }
    auto groups = p.groups();
    auto bot = group_bottoms(p);
    int nxy = p.nx * p.ny, nmp = groups.size();
    mocc::XSMeshHomogenized x(*m);
    c.check((int)x.size() == nxy * nmp && x.n_reg_expanded() == nxy * p.nz && (int)x.n_group() == ng, "size", "");
    // which homogenised region covers which cell
    std::vector<int> reg_of(nxy * nmp, -1);
    std::vector<int> seen(nxy * p.nz, 0);
    for (int i = 0; i < (int)x.size(); i++) {
        int mp = -1, xy = -1;
        c.check(!x[i].reg().empty(), "no-cells", "");
        for (int cell : x[i].reg()) {
            c.check(cell >= 0 && cell < nxy * p.nz && !seen[cell]++, "cells", "");
            int z = cell / nxy, k = 0;
            while (k + 1 < nmp && bot[k + 1] <= z) k++;
            c.check((mp == -1 || mp == k) && (xy == -1 || xy == cell % nxy), "cells-of-group", "");
            mp = k;
            xy = cell % nxy;
        }
        c.check((int)x[i].reg().size() == groups[mp], "cells-of-group", "");
        reg_of[mp * nxy + xy] = i;
    }
    auto cells = [&](const mocc::ArrayB2 *flux) {
        std::vector<Cell> v(nxy * nmp);
        for (auto &q : v) {
            for (auto *a : {&q.flux, &q.tr, &q.nf, &q.f, &q.chi, &q.abs}) a->assign(ng, 0.0);
            q.sc.assign(ng, std::vector<double>(ng, 0.0));
        }
        for (auto &e : pm) {
            auto &r = e.first;
            int mp = std::find(bot.begin(), bot.end(), r.pz) - bot.begin();
            auto &q = v[mp * nxy + r.py * p.nx + r.px];
            auto &mt = p.mat(p.mat_slot_of(r));
            double a = p.area(r);
            q.vol += a;
            double fs = 0;
            for (int g = 0; g < ng; g++) {
                double fl = flux ? (*flux)(e.second, g) : 1.0;
                q.flux[g] += a * fl;
                q.tr[g] += a * fl * mt.tr(g);
                q.abs[g] += a * fl * mt.abs[g];
                q.nf[g] += a * fl * mt.nuf[g];
                q.f[g] += a * fl * mt.fis[g];
                fs += a * fl * mt.nuf[g];
                for (int t = 0; t < ng; t++) q.sc[t][g] += a * fl * mt.sc[t][g];
            }
            q.fs += fs;
            for (int g = 0; g < ng; g++) q.chi[g] += fs * mt.chin(g);
        }
        return v;
    };
    auto compare = [&](const mocc::XSMesh &x, const std::vector<Cell> &v, const char *when) {
        for (int k = 0; k < (int)v.size(); k++) {
            auto &q = v[k];
            auto &xr = x[reg_of[k]];
            c.check(xr.n_group() == ng, "groups", when);
            for (int g = 0; g < ng; g++) {
                auto w = fmt("%s, group of planes %d pin (%d,%d) energy group %d", when, k / nxy, k % nxy % p.nx, k % nxy / p.nx, g);
                double T = 2e-12;
                c.close(xr.xsmactr(g) * q.flux[g], q.tr[g], T, 0, "transport-rate", w);
                c.close(xr.xsmacnf(g) * q.flux[g], q.nf[g], T, 0, "nu-fission-rate", w);
                c.close(xr.xsmacf(g) * q.flux[g], q.f[g], T, 0, "fission-rate", w);
                double out = 0;
                for (int t = 0; t < ng; t++) {
                    auto &row = xr.xsmacsc(t);
                    double s = g >= row.min_g && g <= row.max_g ? row[g] : 0.0;
                    c.close(s * q.flux[g], q.sc[t][g], T, 0, "scattering-rate", w + fmt(" to %d", t));
                    out += s;
                }
                c.close(xr.xsmacsc().out(g), out, T, 0, "outscatter", w);
                c.close((xr.xsmactr(g) - out) * q.flux[g], q.abs[g], T, 1e-13 * q.tr[g], "absorption-rate", w);
                c.close(xr.xsmacrm(g), xr.xsmactr(g) - xr.xsmacsc().self_scat(g), 1e-12, 1e-14 * xr.xsmactr(g), "removal", w);
                c.close(xr.xsmacch(g), q.fs > 0 ? q.chi[g] / q.fs : 0.0, T, 1e-14, "chi", w);
            }
        }
    };
    compare(x, cells(nullptr), "volume weighting");
    x.update(); // no flux: nothing changes
    compare(x, cells(nullptr), "volume weighting, updated");
    {
        // regions named once per group of planes, as the acceleration uses
        mocc::XSMeshHomogenized y(x, std::vector<int>{});
        c.check((int)y.size() == nxy * nmp && y.n_reg_expanded() == nxy * nmp, "per-group-size", "");
        for (int k = 0; k < nxy * nmp; k++) {
            auto &r = y[reg_of[k]].reg();
            c.check(r.size() == 1 && r[0] == k, "per-group-cell", fmt("%d", k));
        }
        compare(y, cells(nullptr), "per group of planes");
    }
    // flux weighting, several updates in a row
    int n = pm.size(), nup = d.range(1, 3);
    mocc::ArrayB2 flux(n, ng);
    bool setf = false, varied = false;
    mocc::ExpandedXS ex(&x);
    int eg = d.range(0, ng - 1);
    ex.expand(eg);
    for (int u = 0; u < nup; u++) {
        int shape = d.range(0, 3);
        c.desc << "flux shape " << shape << "\n";
        double lev = d.logreal(1e-6, 1e6);
        for (int i = 0; i < n; i++)
            for (int g = 0; g < ng; g++)
                flux(i, g) = shape == 0 ? lev : shape == 1 ? lev * (g + 1) : shape == 2 ? lev * d.real(0.2, 2) : lev * d.logreal(1e-4, 1e4);
        varied = varied || shape >= 2;
        if (!setf) { x.set_flux(flux); setf = true; }
        int st = x.state();
        x.update();
        c.check(x.state() != st, "state", "an update leaves the state counter as it was");
        auto v = cells(&flux);
        compare(x, v, "flux weighting");
        if (shape == 0) compare(x, cells(nullptr), "flat flux");
        ex.expand(eg);
        for (int k = 0; k < nxy * nmp; k++)
            for (int cell : x[reg_of[k]].reg()) c.close(ex[cell], x[reg_of[k]].xsmactr(eg), 1e-14, 0, "expanded", "after an update");
    }
    bool grp = false;
    for (int g : groups) grp = grp || g > 1;
    if (grp) c.label("groups of planes");
    bool het = false;
    for (int q : p.pinmap) for (int k : p.pins[q].mats) het = het || k != p.pins[q].mats[0];
    if (p.any_fissile()) c.label("fissile");
    c.nontrivial(varied && het && ng > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C12";
    s.fn = run;
    s.rule = "several energy groups, a pin with several materials and a flux that varies inside it";
    s.oracle = "reaction rates summed over the model's regions (areas and materials computed independently)";
    s.quick_cases = 15000;
    s.thorough_cases = 300000;
    s.batch = 50;
    s.assumptions = {"flux is positive in every region and group", "planes joined in a group are identical"};
    return pbt::pbt_main(argc, argv, s);
}
