// flavor: opt
// C05: the generated ray sets are fine enough, linked at the boundary, and
// preserve region volumes
#include "quads.hpp"
#include "rays.hpp"
#include "sweepers/moc/ray_data.hpp"
using namespace model;

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 1;
    lo.max_mats   = 1;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = (int)d.range(1, 6);
    go.max_pins_y = (int)d.range(1, 6);
    go.max_planes = 2;
    go.random_ids = false;
    Problem p = gen_geom(d, lib, go);
    QuadOpts qo;
    qo.max_ls = 8;
    QuadDef q = gen_quad(d, qo);
    double smin = std::max(0.02 * p.pitch, std::max(p.Lx(), p.Ly()) / 120.);
    double spacing = d.logreal(smin, std::max(p.Lx(), p.Ly()));
    if (d.chance(0.7)) spacing = d.logreal(smin, std::max(smin, 0.4 * p.pitch));
    std::string corr = d.pick(std::vector<std::string>{"", "flat", "angle", "none"});
    std::string mod  = d.pick(std::vector<std::string>{"", "core", "pin"});
    std::string meth = d.pick(std::vector<std::string>{"", "rational_fraction", "trig"});
    std::string rx   = "<rays spacing=\"" + num(spacing) + "\"";
    if (!corr.empty()) rx += " volume_correction=\"" + corr + "\"";
    if (!mod.empty()) rx += " modularity=\"" + mod + "\"";
    if (!meth.empty()) rx += " modularization=\"" + meth + "\"";
    rx += " />";
    c.desc << p.geom_xml() << q.xml << "\n" << rx << "\n";
    auto m = make_mesh(p, c.dir);
    Doc doc("<x>" + q.xml + rx + "</x>");
    auto x = doc.doc.child("x");
    mocc::AngularQuadrature nominal(x.child("ang_quad"));
    std::unique_ptr<mocc::moc::RayData> rp;
    try {
        rp.reset(new mocc::moc::RayData(x.child("rays"), nominal, *m));
    } catch (mocc::Exception &e) {
        std::string what = e.what();
        // angles that become equal can not be weighted; refused with a message
        if (what.find("azimuthal") != std::string::npos && (q.type == "cg" || q.type == "cy")) c.discard("angles coincide");
        c.fail("refused", what);
    }
    auto &rd = *rp;
    auto &aq = rd.ang_quad();
    int n = nominal.ndir_oct();
    c.check(aq.ndir_oct() == n, "count", "directions");
    bool pin = mod == "pin", trig = meth == "trig";
    double hx = p.Lx(), hy = p.Ly();
    c.label("aspect " + std::string(p.nx == p.ny ? "square" : p.nx > p.ny ? "wide" : "tall"));
    c.label(q.type);
    c.label(corr.empty() ? "default correction" : corr);
    c.label(pin ? "pin modular" : "core modular");
    double wsum = 0;
    for (int i = 0; i < n; i++) {
        auto w = fmt("angle %d", i);
        int nx = rd.nx(i), ny = rd.ny(i);
        c.check(nx >= 1 && ny >= 1, "no-rays", w);
        double al = aq[i].alpha, s = rd.spacing(i);
        wsum += aq[i].weight;
        c.check(aq[i].weight > 0, "weight-sign", w);
        c.check(aq[i].ox > 0 && aq[i].oy > 0 && aq[i].oz > 0, "octant", w);
        c.close(aq[i].theta, nominal[i].theta, 1e-12, 0, "polar-changed", w);
        c.close(std::tan(al), nx * hy / (ny * hx), 1e-10, 0, "angle-count", w);
        c.close(s, hx / nx * std::sin(al), 1e-10, 0, "spacing-x", w);
        c.close(s, hy / ny * std::cos(al), 1e-10, 0, "spacing-y", w);
        c.check(s <= spacing * (1 + 1e-6), "too-coarse", w + fmt(": spacing %.9g > requested %.9g (Nx %d Ny %d)", s, spacing, nx, ny));
        if (pin) c.check(nx % p.nx == 0 && ny % p.ny == 0, "pin-modular", w);
        // the angle is moved by no more than modularisation needs
        double mx = pin ? p.pitch : hx, my = pin ? p.pitch : hy;
        double t0 = std::tan(nominal[i].alpha), t1 = std::tan(al);
        if (trig) {
            double a = mx * std::sin(nominal[i].alpha) / spacing, b = my * std::cos(nominal[i].alpha) / spacing;
            c.check(t1 / t0 <= 1 + 4 / a && t1 / t0 >= 1 / (1 + 4 / b), "angle-moved", w + fmt(": %.6g -> %.6g", nominal[i].alpha, al));
        } else {
            double r0 = t0 * mx / my, r1 = t1 * mx / my;
            if (r0 > 1) { r0 = 1 / r0; r1 = 1 / r1; }
            c.check(std::fabs(r0 - r1) <= 0.005, "angle-moved", w + fmt(": %.6g -> %.6g", nominal[i].alpha, al));
        }
    }
    c.close(wsum, 1.0, 1e-10, 0, "weights", "sum over an octant");
    long nrays = 0, moved = 0;
    for (int o = 1; o < 4; o++)
        for (int i = 0; i < n; i++) {
            auto w = fmt("angle %d octant %d", i, o + 1);
            auto &A = aq[i], &B = aq[o * n + i];
            c.close(B.weight, A.weight, 1e-12, 0, "octant-weight", w);
            c.close(std::fabs(B.ox), A.ox, 1e-12, 1e-13, "octant-dir", w);
            c.close(std::fabs(B.oy), A.oy, 1e-12, 1e-13, "octant-dir", w);
            c.close(B.oz, A.oz, 1e-12, 1e-13, "octant-dir", w);
            c.check((B.ox < 0) == (o == 1 || o == 2) && (B.oy < 0) == (o >= 2), "octant-sign", w);
            c.check(rd.nx(o * n + i) == rd.nx(i) && rd.ny(o * n + i) == rd.ny(i), "octant-count", w);
            c.close(rd.spacing(o * n + i), rd.spacing(i), 1e-13, 0, "octant-spacing", w);
        }
    auto map = region_map(p, *m);
    int max_seg = 0;
    for (int ip = 0; ip < (int)m->n_unique_planes(); ip++) {
        int iz = 0;
        while ((int)m->unique_plane_id(iz) != ip) iz++;
        int first = m->first_reg_plane(iz);
        int nr = m->unique_plane(ip).n_reg();
        std::vector<double> area(nr);
        for (auto &r : p.regions())
            if (r.pz == iz) area[map[r] - first] = p.area(r);
        std::vector<double> tot(nr, 0.0);
        for (int ia = 0; ia < 2 * n; ia++) {
            int nx = rd.nx(ia), ny = rd.ny(ia);
            double sp = rd.spacing(ia);
            auto &rays = rd[ip][ia];
            c.check((int)rays.size() == nx + ny, "ray-count", fmt("angle %d", ia));
            std::vector<char> in(nx + ny, 0), out(nx + ny, 0);
            std::vector<double> vol(nr, 0.0);
            double ox = aq[ia].ox, oy = aq[ia].oy, nrm = std::hypot(ox, oy);
            ox /= nrm; oy /= nrm;
            for (auto &r : rays) {
                int b0 = r.bc(0), b1 = r.bc(1);
                auto w = fmt("angle %d ray %d->%d (Nx %d Ny %d)", ia, b0, b1, nx, ny);
                c.check(b0 >= 0 && b0 < nx + ny && b1 >= 0 && b1 < nx + ny, "bc-range", w);
                c.check(!in[b0] && !out[b1], "bc-repeat", w);
                in[b0] = out[b1] = 1;
                double px = b0 < ny ? (ox > 0 ? 0 : hx) : (b0 - ny + 0.5) * hx / nx, py = b0 < ny ? (b0 + 0.5) * hy / ny : 0;
                double qx = b1 < ny ? (ox > 0 ? hx : 0) : (b1 - ny + 0.5) * hx / nx, qy = b1 < ny ? (b1 + 0.5) * hy / ny : hy;
                double L = std::hypot(qx - px, qy - py);
                c.check(std::fabs((qx - px) * oy - (qy - py) * ox) < 1e-9 * (hx + hy), "not-parallel", w);
                c.check((qx - px) * ox + (qy - py) * oy > 0, "backward", w);
                double sum = 0;
                for (int k = 0; k < r.nseg(); k++) {
                    c.check(r.seg_index(k) >= 0 && r.seg_index(k) < nr, "region-range", w);
                    c.check(r.seg_len(k) >= 0, "negative-length", w);
                    vol[r.seg_index(k)] += r.seg_len(k);
                    sum += r.seg_len(k);
                }
                if (corr == "none") c.close(sum, L, 1e-9, 0, "length", w);
                max_seg = std::max(max_seg, (int)r.nseg());
                nrays++;
            }
            double s = 0, all = hx * hy;
            for (int i = 0; i < nr; i++) {
                tot[i] += 0.5 * aq[ia].weight * sp * vol[i];
                s += vol[i] * sp;
                if ((corr == "flat" || corr.empty()) && vol[i] > 0)
                    c.close(vol[i] * sp, area[i], 1e-9, 0, "flat-volume", fmt("angle %d plane %d region %d", ia, iz, i));
            }
            if (corr == "none") {
                // strips of equal width tile the rectangle up to the corner triangles
                double err = 0;
                c.check(std::fabs(s - all) <= 2.01 * sp * (hx + hy), "total-area", fmt("angle %d: %.9g vs %.9g", ia, s, all));
                (void)err;
            }
            if (ia < n && std::fabs(aq[ia].alpha - nominal[ia].alpha) > 1e-9) moved++;
        }
        if (corr == "angle")
            for (int i = 0; i < nr; i++)
                if (tot[i] > 0) c.close(tot[i], area[i], 1e-9, 0, "angle-volume", fmt("plane %d region %d", iz, i));
    }
    c.check(rd.max_segments() >= max_seg, "max-segments", fmt("%d < %d", (int)rd.max_segments(), max_seg));
    c.nontrivial(nrays >= 8 && moved > 0);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C05";
    s.fn = run;
    s.rule = "at least 8 rays, and at least one direction was moved to make the rays link up";
    s.oracle = "ray end points recomputed from their boundary indices; spacing from the ray counts; region areas from the reference geometry";
    s.quick_cases = 40000;
    s.thorough_cases = 400000;
    s.batch = 25;
    s.assumptions = {"spacing compared with relative tolerance 1e-6 (it is stored in single precision), volumes with 1e-9",
                     "regions no ray crosses are outside the volume statement (the code warns about them)",
                     "a product quadrature whose directions coincide after modularisation is refused by the code; those cases are discarded"};
    return pbt::pbt_main(argc, argv, s);
}
