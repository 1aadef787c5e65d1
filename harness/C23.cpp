// flavor: opt
// C23: fixed-source solutions are linear in the source, balance it, and are exact for infinite media
#include "e2e.hpp"
using namespace model;

static void write_source(const std::string &path, const std::vector<double> &v, int ng, int n) {
    hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hsize_t dims[2] = {(hsize_t)ng, (hsize_t)n};
    hid_t s = H5Screate_simple(2, dims, nullptr);
    hid_t d = H5Dcreate2(f, "source", H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(d);
    H5Sclose(s);
    H5Fclose(f);
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 4;
    lo.fissile = 0;
    lo.tmin = 0.2;
    lo.tmax = 2.5;
    lo.cmin = 0.0;
    lo.cmax = 0.85;
    bool slow = d.chance(0.15); // takes many iterations
    if (slow) {
        lo.max_groups = 2;
        lo.cmin = 0.85;
        lo.cmax = 0.96;
        lo.tmin = 0.6;
        c.label("slow convergence");
    }
    Lib lib = gen_lib(d, lo);
    int ng = lib.ng;
    bool moc = d.chance(0.5), same = d.chance(0.3), closed = same || d.chance(0.4);
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = 3;
    gopt.touching = false;
    gopt.pmin = 0.5;
    Problem p = gen_geom(d, lib, gopt);
    if (same)
        for (auto &pin : p.pins) std::fill(pin.mats.begin(), pin.mats.end(), 0);
    for (int f = 0; f < 6; f++)
        if (closed) p.bc[f] = "reflect";
    p.finish();
    SweepOpts so;
    so.moc = moc;
    so.sn = !moc;
    SweepDef s = gen_sweeper(d, p, so);
    if (slow) s.inner = s.sn_inner = 1;
    int np = p.nx * p.ny;

    // regions a source is given for
    auto m = make_mesh(p, c.dir);
    auto bot = group_bottoms(p);
    std::vector<double> vol;
    std::vector<std::vector<double>> ab; // absorption
    std::vector<int> plane;
    if (moc) {
        auto rm = plane_region_map(p, *m);
        vol.resize(rm.size());
        ab.resize(rm.size());
        plane.resize(rm.size());
        for (auto &e : rm) {
            int k = std::find(bot.begin(), bot.end(), e.first.pz) - bot.begin(), end = k + 1 < (int)bot.size() ? bot[k + 1] : p.nz;
            vol[e.second] = p.area(e.first) * (p.z[end] - p.z[e.first.pz]);
            ab[e.second] = p.mat(p.mat_slot_of(e.first)).abs;
            plane[e.second] = k;
        }
    } else {
        vol.resize(np * p.nz);
        ab.assign(np * p.nz, std::vector<double>(ng, 0.0));
        plane.assign(np * p.nz, 0);
        for (int i = 0; i < np * p.nz; i++) vol[i] = p.pitch * p.pitch * p.dz(i / np);
        for (auto &r : p.regions())
            for (int g = 0; g < ng; g++) ab[r.pz * np + r.py * p.nx + r.px][g] += p.area(r) / (p.pitch * p.pitch) * p.mat(p.mat_slot_of(r)).abs[g];
    }
    int n = vol.size();
    auto source = [&]() {
        std::vector<double> q(ng * n, 0.0);
        int kind = d.range(0, 2);
        for (int g = 0; g < ng; g++) {
            double level = d.chance(0.3) ? 0.0 : d.real(0.1, 2.0);
            for (int i = 0; i < n; i++) q[g * n + i] = same ? level : kind == 0 ? level : kind == 1 ? d.real(0.0, 2.0) : d.chance(0.3) ? d.real(0.5, 2.0) : 0.0;
        }
        double t = 0;
        for (double x : q) t += x;
        if (t <= 0) for (int i = 0; i < n; i++) q[i] = 1.0;
        return q;
    };
    auto q1 = source(), q2 = source();
    double a1 = d.real(0.1, 3.0), a2 = d.chance(0.3) ? 0.0 : d.real(0.1, 3.0);
    bool fixup = s.axial == "dd_ff"; // not linear where a flux would be negative
    if (fixup) a2 = 0.0;
    std::vector<double> q3(q1.size());
    for (size_t i = 0; i < q1.size(); i++) q3[i] = a1 * q1[i] + a2 * q2[i];
    std::string sx = "<solver type=\"fixed_source\" max_iter=\"2000\" flux_tol=\"1e-10\">\n<source scattering=\"P0\" file=\"src.h5\" />\n" + s.xml() + "\n</solver>\n";
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml() << "source";
    for (double x : q1) c.desc << " " << num(x);
    c.desc << "\nother source";
    for (double x : q2) c.desc << " " << num(x);
    c.desc << "\nfactors " << num(a1) << " " << num(a2) << "\n";
    auto solve_for = [&](const std::string &tag, const std::vector<double> &q) {
        std::string dir = c.dir + "/" + tag + "-src";
        mkdir(dir.c_str(), 0700);
        write_source(dir + "/src.h5", q, ng, n);
        std::string x = sx;
        x.replace(x.find("src.h5"), 6, dir + "/src.h5");
        Result r = run_problem(c.dir, tag, p, x);
        if (r.missed()) c.discard("rays too coarse");
        c.check(r.ok(), "run-failed", fmt("status %d: ", r.status) + r.tail());
        if (r.text.find("Maximum number") != std::string::npos) {
            // source iteration of the characteristics contracts by at least the scattering ratio
            c.check(!moc, "not-converged", "scattering ratios up to 0.96, 2000 iterations: " + r.tail());
            c.discard("no convergence");
        }
        std::vector<double> f;
        for (auto &v : r.groups(moc ? "fsr_flux" : "flux", ng)) {
            c.check((int)v.size() == n, "size", fmt("%d values, %d regions", (int)v.size(), n));
            f.insert(f.end(), v.begin(), v.end());
        }
        // diamond differences clip negative fluxes and are then not linear; characteristics have none
        for (double y : f) {
            if (!moc && !(y > 0)) c.discard("negative fluxes");
            c.check(y >= 0, "negative", fmt("%g", y));
        }
        return f;
    };
    auto rate = [&](const std::vector<double> &f, const std::vector<double> &q, double &in, double &out, int pl) {
        in = out = 0;
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < n; i++)
                if (plane[i] == pl) {
                    in += q[g * n + i] * vol[i];
                    out += ab[i][g] * f[g * n + i] * vol[i];
                }
    };
    auto peak = [](const std::vector<double> &f) { return *std::max_element(f.begin(), f.end()); };
    double tol = 1e-6;
    // discrete-ordinates fluxes are reported up to a factor; closed cores have it from their balance
    auto balance = [&](std::vector<double> &f, const std::vector<double> &q) {
        double in, out;
        if (!moc) {
            rate(f, q, in, out, 0);
            for (double &x : f) x *= closed ? in / out : 1.0;
            return;
        }
        for (int pl = 0; pl <= plane.back(); pl++) {
            rate(f, q, in, out, pl);
            if (closed) c.close(out, in, tol, tol, "balance", fmt("absorption and source of plane %d", pl));
            else c.check(out <= in * (1 + tol) + tol, "leakage", fmt("more is absorbed than emitted: %g, %g", out, in));
        }
    };
    auto f1 = solve_for("a", q1), f3 = solve_for("c", q3), f2 = f1;
    if (a2 > 0) f2 = solve_for("b", q2);
    balance(f1, q1);
    balance(f3, q3);
    if (a2 > 0) balance(f2, q2);
    if (moc || closed) {
        double top = peak(f3);
        for (size_t i = 0; i < f3.size(); i++)
            c.close(f3[i], a1 * f1[i] + (a2 > 0 ? a2 * f2[i] : 0.0), 0, tol * std::max(top, 1.0), "superposition", fmt("group %d region %d", (int)i / n + 1, (int)i % n));
    } else { // some combination of the two, with weights of the right sign
        double x = 0, y = 0;
        if (a2 > 0) {
            std::vector<std::vector<double>> A(2, std::vector<double>(2, 0.0));
            std::vector<double> b(2, 0.0);
            for (size_t i = 0; i < f3.size(); i++) {
                A[0][0] += f1[i] * f1[i];
                A[0][1] += f1[i] * f2[i];
                A[1][1] += f2[i] * f2[i];
                b[0] += f1[i] * f3[i];
                b[1] += f2[i] * f3[i];
            }
            A[1][0] = A[0][1];
            if (std::fabs(A[0][0] * A[1][1] - A[0][1] * A[0][1]) < 1e-6 * A[0][0] * A[1][1]) c.discard("sources too much alike");
            auto w = solve(A, b);
            x = w[0], y = w[1];
            c.check(x > 0 && y > 0, "superposition", fmt("weights %g %g", x, y));
        } else {
            x = peak(f3) / peak(f1);
        }
        for (size_t i = 0; i < f3.size(); i++)
            c.close(f3[i], x * f1[i] + y * f2[i], 0, tol * 10 * peak(f3), "superposition", fmt("group %d region %d, weights %g %g", (int)i / n + 1, (int)i % n, x, y));
    }
    if (same) { // removal operator applied to the flux is the source
        const Mat &mt = p.mat(0);
        std::vector<double> q(ng);
        for (int g = 0; g < ng; g++) q[g] = q1[g * n];
        auto f = solve(removal(mt, ng), q);
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < n; i++) c.close(f1[g * n + i], f[g], 0, tol * std::max(1.0, peak(f)), "infinite-medium", fmt("group %d region %d", g + 1, i));
    }
    c.label(moc ? "moc" : "sn " + s.eq + " " + s.axial);
    c.label(same ? "infinite medium" : closed ? "closed" : "open");
    if (a2 > 0) c.label("superposition");
    c.nontrivial(n > 1 && (same ? ng > 1 : true));
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C23";
    s.fn = go;
    s.rule = "several regions; several groups for an infinite medium";
    s.oracle = "metamorphic: the flux of a weighted sum of sources is the weighted sum of the fluxes; closed cores absorb exactly what is emitted, open ones less; infinite medium: the dense inverse of the removal operator";
    s.quick_cases = 1500;
    s.thorough_cases = 25000;
    s.batch = 1;
    s.assumptions = {"discrete-ordinates fluxes are reported up to a factor, which is taken from the balance of closed cores", "1e-6 of the largest flux"};
    return pbt::pbt_main(argc, argv, s);
}
