// flavor: opt
// C37: reported currents balance the reported fluxes of every pin cell
#include "e2e.hpp"
using namespace model;

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 4;
    lo.fissile = 1;
    lo.cmin = 0.0;
    lo.cmax = 0.9;
    std::string type = d.chance(0.4) ? "moc" : "sn";
    double pitch = d.real(0.5, 1.5);
    lo.tmin = 0.3 / pitch;
    lo.tmax = (type == "moc" ? 1.0 : 0.5) / pitch;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.6, 1.6);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    int ng = lib.ng;
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 4;
    gopt.max_planes = type == "moc" ? 1 : 4;
    gopt.touching = false;
    gopt.pitch_choices = {sig(pitch, 3)};
    gopt.hmin = 0.8 * pitch, gopt.hmax = pitch;
    Problem p = gen_geom(d, lib, gopt);
    if (type == "moc") p.bc[TOP] = p.bc[BOTTOM] = "reflect";
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.user_quad = false;
    SweepDef s = gen_sweeper(d, p, so);
    s.inner = s.sn_inner = d.range(3, 5);
    s.upd = "";
    if (type == "sn") s.eq = s.axial = "dd";
    EigenOpts eo;
    eo.k_tol = eo.psi_tol = 1e-10;
    eo.max_iter = 1000;
    eo.cmfd = 1;
    eo.cmfd_xml = "<cmfd k_tol=\"1e-11\" psi_tol=\"1e-11\" dump_current=\"t\" />\n";
    std::string sx = eigen_xml(s, eo);
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());
    if (a.iterations() >= eo.max_iter) c.discard("no convergence");
    if (a.clipped() || a.negative()) c.discard("negative fluxes");
    double k = a.k();
    if (k < 0.05) c.discard("no multiplication");

    int nxy = p.nx * p.ny, n = nxy * p.nz;
    // [group][face][cell]
    std::vector<std::vector<std::vector<double>>> J(ng, std::vector<std::vector<double>>(6));
    double big = 0;
    for (int g = 0; g < ng; g++)
        for (int f = 0; f < 6; f++) {
            std::vector<int> dims;
            J[g][f] = a.get(fmt("current/%d/%s", g + 1, face_name[f]), &dims);
            c.check((int)J[g][f].size() == n, "size", fmt("current of group %d face %s: %d values for %d pin cells", g + 1, face_name[f], (int)J[g][f].size(), n));
            c.check(dims == std::vector<int>({p.nz, p.ny, p.nx}), "shape", fmt("group %d face %s", g + 1, face_name[f]));
            if (f < 4 || type == "sn") for (double x : J[g][f]) big = std::max(big, std::fabs(x));
        }
    // every pin cell: what its regions lose and gain
    auto m = make_mesh(p, c.dir);
    auto rm = plane_region_map(p, *m);
    auto fine = a.groups("fsr_flux", ng), pinf = a.groups("flux", ng);
    std::vector<std::vector<double>> gain(ng, std::vector<double>(n, 0.0));
    double size = 0, top = 0;
    bool onechi = true;
    for (auto &r : p.regions()) {
        const Mat &mt = p.mat(p.mat_slot_of(r));
        double v = p.area(r) * p.dz(r.pz);
        int cell = (r.pz * p.ny + r.py) * p.nx + r.px;
        std::vector<double> f(ng);
        for (int g = 0; g < ng; g++) {
            auto &x = type == "sn" ? pinf[g] : fine[g];
            int i = type == "sn" ? cell : rm.at(r);
            c.check(i < (int)x.size(), "size", "flux");
            f[g] = x[i];
            top = std::max(top, f[g]);
        }
        double fs = 0;
        for (int g = 0; g < ng; g++) fs += mt.nuf[g] * f[g];
        for (int g = 0; g < ng; g++) {
            double in = mt.chin(g) * fs / k - mt.tr(g) * f[g];
            for (int h = 0; h < ng; h++) in += mt.sc[g][h] * f[h];
            gain[g][cell] += in * v;
            size = std::max(size, mt.tr(g) * f[g] * v);
        }
    }
    if (type == "sn") // a pin of several materials has one fission spectrum, made for a flat spectrum
        for (auto &pin : p.pins) {
            const Mat *first = nullptr;
            for (int s : pin.mats) {
                const Mat &mt = p.mat(s);
                if (!mt.fissile()) continue;
                if (first && first->chi != mt.chi) onechi = false;
                first = &mt;
            }
        }
    // faces: shared by two cells, or on the boundary
    auto side = [&](int f, int x, int y, int z) {
        return f == EAST ? x == p.nx - 1 : f == WEST ? x == 0 : f == NORTH ? y == p.ny - 1 : f == SOUTH ? y == 0 : f == TOP ? z == p.nz - 1 : z == 0;
    };
    std::vector<std::vector<double>> out(ng, std::vector<double>(n, 0.0));
    double leak = 0, sxx = 0, sxy = 0;
    for (int g = 0; g < ng; g++)
        for (int z = 0; z < p.nz; z++) for (int y = 0; y < p.ny; y++) for (int x = 0; x < p.nx; x++) {
            int i = (z * p.ny + y) * p.nx + x;
            for (int f = 0; f < (type == "sn" ? 6 : 4); f++) {
                auto w = fmt("group %d cell (%d,%d,%d) face %s", g + 1, x, y, z, face_name[f]);
                double v = J[g][f][i], sgn = f == EAST || f == NORTH || f == TOP ? 1 : -1;
                if (side(f, x, y, z)) {
                    if (p.bc[f] == "reflect") c.close(v, 0, 0, 1e-6 * big + 1e-7 * top, "closed-face", w);
                    else if (type == "moc") c.check(sgn * v >= -1e-9 * (big + top), "open-face", w + fmt(": %.10g comes in", v));
                } else if (sgn > 0) {
                    int o = f == EAST ? 1 : f == NORTH ? p.nx : nxy, opp = f == EAST ? WEST : f == NORTH ? SOUTH : BOTTOM;
                    c.close(J[g][opp][i + o], v, 1e-12, 1e-14 * (big + top), "shared-face", w);
                }
                double ar = f < 4 ? p.pitch * p.dz(z) : p.pitch * p.pitch;
                out[g][i] += sgn * v * ar;
                leak = std::max(leak, std::fabs(v * ar));
            }
            sxx += out[g][i] * out[g][i];
            sxy += out[g][i] * gain[g][i];
        }
    // fluxes may be reported in another normalization than currents
    bool some = sxx > 0 && leak > 1e-9 * size;
    double s1 = some ? sxy / sxx : 1.0;
    if (onechi)
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < n; i++)
                c.close(s1 * out[g][i], gain[g][i], 0, 1e-5 * size, "balance", fmt("group %d cell (%d,%d,%d), normalization %g", g + 1, i % p.nx, i / p.nx % p.ny, i / nxy, s1));
    double range = 0;
    for (int g = 0; g < ng; g++) for (double v : gain[g]) range = std::max(range, std::fabs(v));
    c.nontrivial(onechi && n > 1 && range > 1e-2 * size);
    c.label(type);
    if (!onechi) c.label("mixed spectra");
    if ((int)group_bottoms(p).size() < p.nz) c.label("grouped planes");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C37";
    s.fn = go;
    s.rule = "several pin cells, one of which exchanges more than 1% of the largest collision rate with the others";
    s.oracle = "neutron balance of each pin cell and group: net outflow by the reported currents equals fission, scattering and collisions by the reported fluxes and the input; the two sides of a face agree, closed faces pass nothing, open ones let nothing in";
    s.quick_cases = 4000;
    s.thorough_cases = 40000;
    s.batch = 1;
    s.assumptions = {"fluxes and currents may differ by one factor common to the whole core", "tolerance 1e-5 of the largest collision rate of a region",
                     "pins of materials with different fission spectra are left out of the balance for discrete ordinates",
                     "diamond differences may carry negative fluxes out of an open face: only characteristics are held to let nothing in",
                     "axial currents of runs by characteristics are not judged: planes are then independent"};
    return pbt::pbt_main(argc, argv, s);
}
