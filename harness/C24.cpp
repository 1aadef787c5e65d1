// flavor: opt
// C24: reported pin powers, fluxes and convergence history belong to the solution
#include "e2e.hpp"
using namespace model;

static double sum(const std::vector<double> &v) {
    double s = 0;
    for (double x : v) s += x;
    return s;
}
// mean of the positive entries becomes one
static void normalise(std::vector<double> &v) {
    int n = 0;
    for (double x : v) n += x > 0;
    double s = sum(v);
    for (double &x : v) x *= n / s;
}

struct Rates { // of one output file
    std::vector<double> pin_flux, power; // [group][plane or group of planes][pin], [plane or group of planes][pin]
    std::vector<double> fission;         // of the regions the solver iterates on
    int fissile = 0;
};

static Rates rates(Case &c, const Problem &p, const mocc::CoreMesh &m, const Result &a, const std::string &type, const std::string &at) {
    Rates out;
    int ng = p.lib.ng, np = p.nx * p.ny;
    auto bot = group_bottoms(p);
    if (type == "sn") {
        auto f = a.groups(at + "flux", ng);
        out.power.assign(np * p.nz, 0.0);
        out.fission.assign(np * p.nz, 0.0);
        for (int g = 0; g < ng; g++) {
            c.check((int)f[g].size() == np * p.nz, "size", "flux");
            out.pin_flux.insert(out.pin_flux.end(), f[g].begin(), f[g].end());
        }
        for (auto &r : p.regions()) {
            int i = r.pz * np + r.py * p.nx + r.px;
            const Mat &mt = p.mat(p.mat_slot_of(r));
            for (int g = 0; g < ng; g++) {
                out.power[i] += p.area(r) * p.dz(r.pz) * mt.fis[g] * f[g][i];
                out.fission[i] += p.area(r) / (p.pitch * p.pitch) * mt.nuf[g] * f[g][i];
            }
        }
        for (int i = 0; i < np * p.nz; i++) {
            bool fis = false;
            for (int s : p.pins[p.pinmap[i]].mats) fis |= p.mat(s).fissile();
            out.fissile += fis;
        }
        return out;
    }
    auto f = a.groups(at + "fsr_flux", ng);
    auto rm = plane_region_map(p, m);
    out.power.assign(np * bot.size(), 0.0);
    out.fission.assign(rm.size(), 0.0);
    for (int g = 0; g < ng; g++) c.check(f[g].size() == rm.size(), "size", fmt("fsr_flux: %d values, %d regions", (int)f[g].size(), (int)rm.size()));
    std::vector<std::vector<double>> pf(ng, std::vector<double>(np * p.nz, 0.0));
    for (auto &e : rm) {
        const Region &r = e.first;
        const Mat &mt = p.mat(p.mat_slot_of(r));
        int k = std::find(bot.begin(), bot.end(), r.pz) - bot.begin(), end = k + 1 < (int)bot.size() ? bot[k + 1] : p.nz, at = r.py * p.nx + r.px;
        double h = 0;
        for (int z = r.pz; z < end; z++) h += p.dz(z);
        for (int g = 0; g < ng; g++) {
            double x = f[g][e.second];
            for (int z = r.pz; z < end; z++) pf[g][z * np + at] += x * p.area(r) / (p.pitch * p.pitch);
            out.power[k * np + at] += p.area(r) * h * mt.fis[g] * x;
            out.fission[e.second] += mt.nuf[g] * x;
        }
        out.fissile += mt.fissile();
    }
    for (auto &v : pf) out.pin_flux.insert(out.pin_flux.end(), v.begin(), v.end());
    return out;
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 4;
    lo.fissile = 1;
    Lib lib = gen_lib(d, lo);
    double want = d.real(0.4, 2.0);
    for (auto &m : lib.mats) {
        std::vector<double> sp;
        double k = k_inf(m, lib.ng, sp);
        if (k > 0) for (double &v : m.nuf) v = sig(v * want / k, 6);
        for (int g = 0; g < lib.ng; g++) m.fis[g] = sig(m.nuf[g] / d.real(2.0, 3.0), 5);
    }
    int ng = lib.ng;
    std::string type = d.pick(std::vector<std::string>{"moc", "moc", "sn", "sn", "2d3d"});
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 3;
    gopt.max_planes = 3;
    gopt.touching = false;
    Problem p = gen_geom(d, lib, gopt);
    for (auto &pin : p.pins)
        if (d.chance(0.15)) pin.fuel = d.range(0, 1);
    p.finish();
    ensure_fuel(p);
    SweepOpts so;
    so.moc = type == "moc";
    so.sn = type == "sn";
    so.coupled = type == "2d3d";
    SweepDef s = gen_sweeper(d, p, so);
    EigenOpts eo;
    eo.cmfd = type == "2d3d" ? 1 : d.chance(0.3);
    if (eo.cmfd == 1) {
        s.inner += 2, s.sn_inner += 2;
        s.rays.replace(s.rays.find("<rays"), 5, "<rays modularity=\"pin\"");
    }
    // tolerances that one, both or none of the errors reach before the limit
    eo.k_tol = std::pow(10.0, -d.range(1, 6));
    eo.psi_tol = std::pow(10.0, -d.range(0, 5));
    eo.max_iter = d.range(2, 25);
    if (d.chance(0.4)) eo.min_iter = d.range(1, eo.max_iter);
    std::vector<int> dumps;
    std::string sx = eigen_xml(s, eo);
    if (d.chance(0.4)) {
        std::string l;
        for (int i = d.range(1, 3); i > 0; i--) dumps.push_back(d.range(1, eo.max_iter));
        std::sort(dumps.begin(), dumps.end());
        dumps.erase(std::unique(dumps.begin(), dumps.end()), dumps.end());
        for (int i : d.shuffle(dumps.size())) l += " " + std::to_string(dumps[i]);
        sx.insert(sx.find("<source"), "<dump_iterations>" + l + "</dump_iterations>\n");
    }
    c.desc << lib.text() << sx << p.mats_xml() << p.geom_xml();
    Result a = run_problem(c.dir, "a", p, sx);
    if (a.missed()) c.discard("rays too coarse");
    if (eo.cmfd == 1 && !a.ok()) c.discard("acceleration diverges");
    if (type == "sn" && a.text.find("nan") != std::string::npos) c.discard("negative fluxes");
    c.check(a.ok(), "run-failed", fmt("status %d: ", a.status) + a.tail());

    // history
    auto k = a.get("convergence/k"), ek = a.get("convergence/error_k"), ep = a.get("convergence/error_psi");
    int n = k.size();
    c.check(n > 0 && ek.size() == k.size() && ep.size() == k.size(), "history-size", fmt("%d", n));
    c.check(n <= eo.max_iter, "history-limit", fmt("%d iterations, limit %d", n, eo.max_iter));
    float kt = eo.k_tol, pt = eo.psi_tol;
    for (int i = 0; i < n; i++) {
        bool met = ek[i] < kt && ep[i] < pt;
        if (i < n - 1) c.check(!met || i <= eo.min_iter, "history-late", fmt("iteration %d of %d had met the tolerances: %g %g", i + 1, n, ek[i], ep[i]));
        else if (n < eo.max_iter) c.check(met && n >= eo.min_iter, "history-early", fmt("stopped after %d of %d (at least %d) at errors %g %g", n, eo.max_iter, eo.min_iter, ek[i], ep[i]));
        if (eo.cmfd != 1) c.close(ek[i], std::fabs(k[i] - (i ? k[i - 1] : 1.0)), 1e-9, 1e-14, "history-error-k", fmt("iteration %d", i + 1));
    }
    bool negative = a.clipped() || a.text.find("nan") != std::string::npos;
    auto m = make_mesh(p, c.dir);

    // fluxes and powers
    struct Part { std::string kind, at; };
    std::vector<Part> parts;
    if (type == "2d3d") parts = {{"moc", "MoC/"}};
    else parts = {{type, ""}};
    for (auto &part : parts) {
        Rates r = rates(c, p, *m, a, part.kind, part.at);
        std::vector<double> pf;
        for (auto &v : a.groups(part.at + "flux", ng)) pf.insert(pf.end(), v.begin(), v.end());
        c.check(pf.size() == r.pin_flux.size(), "size", part.at + "flux");
        if (!(sum(r.pin_flux) > 0) || negative) c.discard("negative fluxes");
        c.close(sum(pf) / pf.size(), 1.0, 1e-9, 0, "flux-mean", part.at + "flux");
        normalise(r.pin_flux);
        for (size_t i = 0; i < pf.size(); i++) c.close(pf[i], r.pin_flux[i], 1e-8, 1e-12, "pin-flux", part.at + fmt("flux[%d]", (int)i));
        std::vector<int> dims;
        auto pp = a.get(part.at + "pin_powers", &dims);
        c.check(pp.size() == r.power.size() && dims.size() == 3 && dims[1] == p.ny && dims[2] == p.nx, "size", part.at + "pin_powers");
        if (!(sum(r.power) > 0)) c.discard("no power");
        double total = 0;
        if (part.kind == "sn") for (double x : r.power) total += x > 0;
        else
            for (int z = 0; z < p.nz; z++) {
                double fuel = 0;
                for (int i = 0; i < p.nx * p.ny; i++) {
                    auto &pin = p.pins[p.pinmap[z * p.nx * p.ny + i]];
                    bool f = false;
                    for (int sl : pin.mats) f |= p.mat(sl).fissile();
                    fuel += pin.fuel >= 0 ? pin.fuel : f;
                }
                total = std::max(total, fuel);
            }
        double scale = total / sum(r.power);
        for (size_t i = 0; i < pp.size(); i++) c.close(pp[i], r.power[i] * scale, 1e-7, 1e-12, "pin-power", part.at + fmt("pin_powers[%d]", (int)i));
    }
    if (type != "moc") {
        std::string at = type == "2d3d" ? "Sn/" : "";
        auto pp = a.get(at + "pin_powers"), p2 = a.get(at + "pin_powers_2d");
        int np = p.nx * p.ny;
        c.check((int)p2.size() == np && (int)pp.size() == np * p.nz, "size", "pin_powers_2d");
        std::vector<double> s2(np, 0.0);
        for (size_t i = 0; i < pp.size(); i++) s2[i % np] += pp[i];
        int pos = 0;
        for (double x : pp) pos += x > 0;
        if (!pos) c.discard("negative fluxes");
        c.close(sum(pp), pos, 1e-9, 0, "power-mean", "pin_powers");
        normalise(s2);
        for (int i = 0; i < np; i++) c.close(p2[i], s2[i], 1e-8, 1e-12, "power-2d", fmt("pin_powers_2d[%d]", i));
    }

    // what one more iteration changes is what the history says
    if (type != "2d3d" && eo.cmfd != 1 && n > 1) {
        EigenOpts e1 = eo;
        e1.max_iter = n - 1;
        e1.min_iter = 0;
        e1.k_tol = e1.psi_tol = 1e-30;
        Result b = run_problem(c.dir, "b", p, eigen_xml(s, e1));
        c.check(b.ok(), "run-failed", fmt("status %d: ", b.status) + b.tail());
        auto kb = b.get("convergence/k");
        c.check((int)kb.size() == n - 1, "history-limit", fmt("%d iterations, limit %d", (int)kb.size(), n - 1));
        for (int i = 0; i < n - 1; i++) c.close(k[i], kb[i], 1e-10, 0, "history", fmt("iteration %d", i + 1));
        Rates ra = rates(c, p, *m, a, type, ""), rb = rates(c, p, *m, b, type, "");
        if (sum(rb.fission) > 0 && sum(ra.fission) > 0) {
            normalise(ra.fission);
            normalise(rb.fission);
            double e = 0;
            for (size_t i = 0; i < ra.fission.size(); i++) e += std::pow(ra.fission[i] - rb.fission[i], 2);
            c.close(ep[n - 1], std::sqrt(e / ra.fissile), 1e-6, 1e-11, "history-error-psi", fmt("iteration %d", n));
            c.label("error-psi");
        }
    }
    // a dump is the output of the run stopped there
    for (int i : dumps) {
        Result f = a;
        f.h5 = a.dir + fmt("/in_iter_%d.h5", i);
        auto v = f.get("convergence/k");
        c.check((i <= n) == !v.empty(), "dump", fmt("iteration %d of %d", i, n));
        if (i > n) continue;
        EigenOpts e1 = eo;
        e1.max_iter = i;
        e1.min_iter = 0;
        e1.k_tol = e1.psi_tol = 1e-30;
        Result b = run_problem(c.dir, "d", p, eigen_xml(s, e1));
        c.check(b.ok(), "run-failed", fmt("status %d: ", b.status) + b.tail());
        auto x = f.all(), y = b.all();
        for (auto &e : y) {
            if (e.first.find("/") == std::string::npos && e.first != "pin_powers") continue; // the run as a whole
            auto it = x.find(e.first);
            bool part = e.first.find("flux/") != std::string::npos || e.first.find("pin_powers") != std::string::npos || e.first.find("convergence/") == 0;
            if (!part) continue;
            c.check(it != x.end() && it->second.size() == e.second.size(), "dump-content", e.first);
            double top = 0;
            for (double w : e.second) top = std::max(top, std::fabs(w));
            for (size_t j = 0; j < e.second.size(); j++) c.close(it->second[j], e.second[j], 0, 1e-9 * top, "dump-value", e.first + fmt("[%d] iteration %d", (int)j, i));
        }
        c.label("dump");
        break;
    }
    c.label(type);
    if (eo.cmfd == 1) c.label("accelerated");
    c.label(n < eo.max_iter ? "tolerances met" : "limit reached");
    std::set<int> kinds(p.pinmap.begin(), p.pinmap.end());
    c.nontrivial(kinds.size() > 1 && n > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C24";
    s.fn = go;
    s.rule = "different pins, more than one iteration";
    s.oracle = "pin fluxes, pin powers and the change of the fission source recomputed from reported region fluxes, exact areas and input cross sections; stopping rule replayed over the reported history; dumps against runs stopped there";
    s.quick_cases = 2500;
    s.thorough_cases = 40000;
    s.batch = 1;
    s.assumptions = {"characteristics pin powers sum to the largest number of fuel pins in a plane, discrete-ordinates ones to the number of pins with power (the program's conventions)"};
    return pbt::pbt_main(argc, argv, s);
}
