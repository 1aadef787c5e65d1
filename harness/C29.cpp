// flavor: opt
// C29: Monte Carlo estimators are unbiased
#include "e2e.hpp"
#include <random>
using namespace model;

struct Run {
    std::vector<double> k;                       // one value for each estimator
    std::vector<std::vector<double>> flux, col;  // [group][model region], integrated over the region, for one source neutron
};

// An independent analog simulation: delta tracking, so that only the material at a point is needed
struct Reference {
    const Problem &p;
    int ng, nreg = 0;
    std::vector<int> base;                // of each pin cell
    std::vector<Region> regs;
    std::vector<const Mat *> mats;        // of each region
    std::vector<double> smax;
    std::vector<std::vector<double>> chi; // cumulative, of each region
    std::mt19937_64 rng;
    double u() { return std::uniform_real_distribution<double>(0, 1)(rng); }

    static int width(const MeshDef &m) { return m.cyl ? m.azi : m.ny; }
    Reference(const Problem &q, uint64_t seed) : p(q), ng(q.lib.ng), rng(seed) {
        smax.assign(ng, 0.0);
        for (int z = 0; z < p.nz; z++)
            for (int y = 0; y < p.ny; y++)
                for (int x = 0; x < p.nx; x++) {
                    base.push_back(nreg);
                    auto &m = p.mesh(x, y, z);
                    int w = width(m);
                    for (int i = 0; i < m.nreg(); i++) {
                        Region r{x, y, z, i / w, i % w};
                        regs.push_back(r);
                        const Mat &t = p.mat(p.pin(x, y, z).mats[m.mat_slot({r.a, r.b})]);
                        mats.push_back(&t);
                        double sum = 0, c = 0;
                        for (double v : t.chi) sum += v;
                        chi.push_back({});
                        for (double v : t.chi) chi.back().push_back(c += sum > 0 ? v / sum : 0);
                        for (int g = 0; g < ng; g++) smax[g] = std::max(smax[g], total(t, g));
                    }
                    nreg += m.nreg();
                }
    }
    double total(const Mat &m, int g) const {
        double t = m.abs[g];
        for (int h = 0; h < ng; h++) t += m.sc[h][g];
        return t;
    }
    int at(const Pt &x) const {
        Region r = p.region(x);
        return base[(r.pz * p.ny + r.py) * p.nx + r.px] + r.a * width(p.mesh(r.px, r.py, r.pz)) + r.b;
    }
    struct Site { Pt x; int g; };

    Run run(int n, int inactive, int active) {
        Run r;
        r.flux.assign(ng, std::vector<double>(nreg, 0.0));
        double hi[3] = {p.Lx(), p.Ly(), p.Lz()};
        std::vector<Site> src, next;
        for (int i = 0; i < n; i++) src.push_back({{u() * hi[0], u() * hi[1], u() * hi[2]}, (int)(u() * ng)});
        double born = 0;
        for (int cyc = 0; cyc < inactive + active; cyc++) {
            next.clear();
            for (auto s : src) history(s, next, cyc >= inactive ? &r.flux : nullptr);
            if (cyc >= inactive) born += next.size();
            if (next.empty()) return Run();
            src.resize(n);
            for (auto &s : src) s = next[(size_t)(u() * next.size())];
        }
        double kt = 0, h = double(n) * active;
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < nreg; i++) r.flux[g][i] /= h, kt += r.flux[g][i] * mats[i]->nuf[g];
        r.k = {kt, kt, born / h};
        return r;
    }
    void history(Site s, std::vector<Site> &next, std::vector<std::vector<double>> *flux) {
        const int face[3][2] = {{WEST, EAST}, {SOUTH, NORTH}, {BOTTOM, TOP}};
        double hi[3] = {p.Lx(), p.Ly(), p.Lz()}, x[3] = {s.x.x, s.x.y, s.x.z}, o[3];
        auto turn = [&]() {
            o[2] = 2 * u() - 1;
            double f = 2 * PI_ * u(), q = std::sqrt(1 - o[2] * o[2]);
            o[0] = q * std::cos(f);
            o[1] = q * std::sin(f);
        };
        turn();
        int g = s.g;
        while (true) {
            double d = -std::log(1 - u()) / smax[g], b = 1e300;
            int axis = -1;
            for (int i = 0; i < 3; i++) {
                double t = o[i] > 0 ? (hi[i] - x[i]) / o[i] : o[i] < 0 ? x[i] / -o[i] : 1e300;
                if (t < b) b = t, axis = i;
            }
            if (b <= d) {
                for (int i = 0; i < 3; i++) x[i] += b * o[i];
                x[axis] = o[axis] > 0 ? hi[axis] : 0;
                if (p.bc[face[axis][o[axis] > 0]] == "vacuum") return;
                o[axis] = -o[axis];
                continue;
            }
            for (int i = 0; i < 3; i++) x[i] += d * o[i];
            Pt q{x[0], x[1], x[2]};
            int r = at(q);
            const Mat &m = *mats[r];
            if (flux) (*flux)[g][r] += 1 / smax[g];
            double v = u() * smax[g];
            if (v >= total(m, g)) continue;
            bool scattered = false;
            for (int h = 0; h < ng && !scattered; h++) {
                v -= m.sc[h][g];
                if (v < 0) g = h, scattered = true;
            }
            if (scattered) {
                turn();
                continue;
            }
            int nf = m.nuf[g] / m.abs[g] + u(); // expected number for an absorbed neutron
            for (int i = 0; i < nf; i++) {
                double c = u();
                int h = 0;
                while (h < ng - 1 && c >= chi[r][h]) h++;
                next.push_back({q, h});
            }
            return;
        }
    }
};

struct Stat {
    double n = 0, s = 0, q = 0;
    void add(double v) { n++; s += v; q += v * v; }
    double mean() const { return s / n; }
    double var() const { return std::max(0.0, (q - s * s / n) / (n - 1)) / n; } // of the mean
};

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.tmin = 0.2;
    lo.tmax = 1.5;
    lo.cmin = 0.1;
    lo.cmax = 0.9;
    bool uniform = d.chance(0.35);
    if (uniform) lo.max_mats = 1;
    Lib lib = gen_lib(d, lo);
    int ng = lib.ng;
    double want = d.real(0.9, 1.8);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
    }
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 2;
    gopt.max_planes = 2;
    gopt.max_sub = 2;
    gopt.max_sub_rad = 1;
    gopt.hmin = 0.5;
    Problem p = gen_geom(d, lib, gopt);
    // an infinite medium has an exact answer; otherwise some faces are open
    if (uniform)
        for (auto &b : p.bc) b = "reflect";
    else if (d.chance(0.5)) {
        for (auto &b : p.bc) b = "reflect";
        p.bc[d.range(0, 5)] = "vacuum";
    }
    ensure_fuel(p);
    int n = d.pick(std::vector<int>{300, 600, 1000}), inactive = d.range(3, 8), cycles = inactive + d.range(15, 25), reps = c.tier == "thorough" ? 24 : 16;
    int active = cycles - inactive + 1;
    uint64_t seed = d.range(1, 1000000000);
    c.desc << (uniform ? "uniform\n" : "") << lib.text() << fmt("particles %d cycles %d inactive %d replicas %d seed %llu\n", n, cycles, inactive, reps, (unsigned long long)seed) << p.mats_xml() << p.geom_xml();
    Reference ref(p, seed);
    double nu = 1; // most neutrons from one fission
    for (auto &m : lib.mats)
        for (int g = 0; g < ng; g++) if (m.fis[g] > 0) nu = std::max(nu, m.nuf[g] / m.fis[g]);
    auto mesh = make_mesh(p, c.dir);
    auto map = region_map(p, *mesh);
    mesh.reset();
    std::vector<int> idx;
    std::vector<double> vol;
    for (auto &r : ref.regs) {
        idx.push_back(map.at(r));
        vol.push_back(p.mesh(r.px, r.py, r.pz).area({r.a, r.b}) * p.dz(r.pz));
    }
    int nr = ref.nreg, np = p.nx * p.ny * p.nz;
    std::vector<Stat> ks(3), kr(3);
    std::vector<std::vector<Stat>> fs(ng, std::vector<Stat>(nr)), fc = fs, fr = fs;
    std::mt19937_64 seeds(seed + 1);
    for (int rep = 0; rep < reps; rep++) {
        std::string sx = fmt("<solver type=\"eigenvalue_mc\" cycles=\"%d\" inactive_cycles=\"%d\" particles_per_cycle=\"%d\" seed=\"%d\">", cycles, inactive, n,
                             (int)(seeds() >> 34) * 2 + 1);
        sx += "<fission_box x_min=\"0\" x_max=\"" + num(p.Lx()) + "\" y_min=\"0\" y_max=\"" + num(p.Ly()) + "\" z_min=\"0\" z_max=\"" + num(p.Lz()) + "\" /></solver>\n";
        Run q = ref.run(n, inactive, active);
        if (q.k.empty() || q.k[2] * n / nu < 30) c.discard("hardly any fission");
        Result r = run_problem(c.dir, fmt("r%d", rep), p, sx);
        c.check(r.ok(), "run-failed", fmt("status %d: ", r.status) + r.tail());
        for (int e = 0; e < 3; e++) kr[e].add(q.k[e]);
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < nr; i++) fr[g][i].add(q.flux[g][i]);
        // relations within one run
        const char *est[3] = {"tl", "col", "analog"};
        double k[3];
        for (int e = 0; e < 3; e++) {
            auto h = r.get(std::string("k_history_") + est[e]), m = r.get(std::string("k_mean_history_") + est[e]);
            c.check((int)h.size() == inactive + active && (int)m.size() == active, "history", fmt("%d %d", (int)h.size(), (int)m.size()));
            k[e] = 0;
            for (int i = inactive; i < (int)h.size(); i++) k[e] += h[i] / active;
            c.close(m.back(), k[e], 1e-9, 0, "mean", est[e]);
            ks[e].add(k[e]);
        }
        auto tl = r.groups("fsr_flux", ng), co = r.groups("fsr_flux_col", ng), cf = r.groups("flux", ng);
        double kt = 0, kc = 0;
        std::vector<double> pw(np, 0.0);
        for (int g = 0; g < ng; g++) {
            c.check((int)tl[g].size() == nr && (int)co[g].size() == nr && (int)cf[g].size() == np, "size", "");
            std::vector<double> pin(np, 0.0);
            for (int i = 0; i < nr; i++) {
                auto &m = *ref.mats[i];
                double t = tl[g][idx[i]] * vol[i], s = co[g][idx[i]] * vol[i];
                int ip = (ref.regs[i].pz * p.ny + ref.regs[i].py) * p.nx + ref.regs[i].px;
                fs[g][i].add(t);
                fc[g][i].add(s);
                kt += t * m.nuf[g];
                kc += s * m.nuf[g];
                pin[ip] += t;
                pw[ip] += t * m.fis[g];
            }
            for (int i = 0; i < np; i++) c.close(cf[g][i] * p.pitch * p.pitch * p.dz(i / (p.nx * p.ny)), pin[i], 1e-6, 1e-9, "pin-flux", fmt("group %d pin %d", g, i));
        }
        c.close(k[0], kt, 1e-6, 0, "k-tl", "production by the region fluxes");
        c.close(k[1], kc, 1e-6, 0, "k-col", "production by the collision estimate of the region fluxes");
        auto pp = r.get("pin_power");
        c.check((int)pp.size() == np, "size", "pin powers");
        double sum = 0;
        int fuel = 0;
        for (int i = 0; i < np; i++) sum += pw[i] /= p.pitch * p.pitch * p.dz(i / (p.nx * p.ny)), fuel += pw[i] > 0;
        for (int i = 0; i < np; i++) c.close(pp[i], pw[i] * fuel / sum, 1e-6, 1e-9, "pin-power", fmt("[%d]", i));
    }
    // the expected values
    double sig_ = 7, worst = 0;
    auto same = [&](const Stat &a, double m, double v, const char *tag, const std::string &what) {
        double s = std::sqrt(a.var() + v);
        if (s > 0.04 * std::fabs(m) + 0.04 * std::fabs(a.mean())) return; // too few events for a normal distribution
        worst = std::max(worst, std::fabs(a.mean() - m) / (s + 5e-4 * std::fabs(m)));
        c.close(a.mean(), m, 5e-4, sig_ * s, tag, what);
    };
    const char *name[3] = {"track length", "collision", "analog"};
    if (uniform) {
        // flux of one source neutron: loss flux = source
        const Mat &m = *ref.mats[0];
        auto A = removal(m, ng);
        std::vector<double> b(m.chi);
        double s = 0;
        for (double v : b) s += v;
        for (double &v : b) v /= s;
        auto f = solve(A, b);
        double k = 0;
        for (int g = 0; g < ng; g++) k += f[g] * m.nuf[g];
        for (int e = 0; e < 3; e++) same(ks[e], k, 0, "k-exact", name[e]);
        for (int g = 0; g < ng; g++) {
            // the regions share their histories: add the deviations
            double t = 0, v = 0;
            for (int i = 0; i < nr; i++) t += fs[g][i].mean(), v += std::sqrt(fs[g][i].var());
            c.close(t, f[g], 5e-4, sig_ * v, "flux-exact", fmt("group %d", g));
        }
    }
    for (int e = 0; e < 3; e++) same(ks[e], kr[e].mean(), kr[e].var(), "k", name[e]);
    for (int g = 0; g < ng; g++)
        for (int i = 0; i < nr; i++) {
            auto &r = ref.regs[i];
            auto w = fmt("group %d region %d %d %d: %d %d", g, r.px, r.py, r.pz, r.a, r.b);
            same(fs[g][i], fr[g][i].mean(), fr[g][i].var(), "flux", w);
            same(fc[g][i], fr[g][i].mean(), fr[g][i].var(), "flux-col", w);
        }
    c.label(uniform ? "infinite medium" : "core");
    if (worst > 6) c.label("above 6 deviations");
    else if (worst > 5) c.label("above 5 deviations");
    else if (worst > 4) c.label("above 4 deviations");
    c.nontrivial(nr > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C29";
    s.fn = go;
    s.rule = "several regions";
    s.oracle = "exact: the infinite-medium k and fluxes; model: an independent simulation by delta tracking of the same core, cycles and population (7 standard deviations, from replicas); in one run k, pin fluxes and pin powers are those of the region fluxes (1e-6)";
    s.quick_cases = 200;
    s.thorough_cases = 1500;
    s.batch = 1;
    s.assumptions = {"7 standard deviations of the difference, estimated from 16 (thorough: 24) replicas of each simulation, and 0.05%: a smaller bias is not seen",
                     "quantities known to worse than 4% are not compared"};
    return pbt::pbt_main(argc, argv, s);
}
