// flavor: opt
// C07: Monte Carlo flights deposit exactly their chord in every region
#include "rays.hpp"
#include "core/xs_mesh.hpp"
#include "sweepers/mc/particle_pusher.hpp"
using namespace model;

struct Flight {
    std::map<Region, double> len;
    double total = 0;
    int crossings = 0, reflections = 0;
    bool ambiguous = false;
};

// the path of an unimpeded particle, folded at reflecting faces
static Flight fly(const Problem &p, Pt q, const double o0[3], Case &c) {
    Flight f;
    double L[3] = {p.Lx(), p.Ly(), p.Lz()}, x[3] = {q.x, q.y, q.z}, o[3] = {o0[0], o0[1], o0[2]};
    for (int leg = 0;; leg++) {
        if (leg > 5000) c.discard("too long");
        double t[3], s = 1e300;
        for (int a = 0; a < 3; a++) {
            t[a] = o[a] > 0 ? (L[a] - x[a]) / o[a] : o[a] < 0 ? -x[a] / o[a] : 1e300;
            s = std::min(s, t[a]);
        }
        // cut the leg at the planes, then in the plane
        std::vector<double> zc = {0.0, s};
        if (o[2] != 0)
            for (double zz : p.z) {
                double v = (zz - x[2]) / o[2];
                if (v > 1e-13 && v < s - 1e-13) zc.push_back(v);
            }
        std::sort(zc.begin(), zc.end());
        double s2 = std::hypot(o[0], o[1]);
        for (size_t i = 0; i + 1 < zc.size(); i++) {
            double a = zc[i], b = zc[i + 1], m = 0.5 * (a + b);
            if (b - a < 1e-14) continue;
            Pt pm{x[0] + m * o[0], x[1] + m * o[1], x[2] + m * o[2]};
            int iz = p.region(pm).pz;
            for (double zz : p.z)
                if (std::fabs(pm.z - zz) < 1e-5 && b - a > 1e-4) f.ambiguous = true;
            if (s2 * (b - a) < 1e-12) {
                Pt pt = pm;
                Region r = p.region(pt);
                f.len[r] += b - a;
                if (p.clearance(pt) < 1e-5 && b - a > 1e-4) f.ambiguous = true;
                f.crossings++;
                continue;
            }
            auto pcs = pieces(p, iz, x[0] + a * o[0], x[1] + a * o[1], x[0] + b * o[0], x[1] + b * o[1]);
            for (auto &e : pcs) {
                double l = (e.t1 - e.t0) * (b - a), v = a + 0.5 * (e.t0 + e.t1) * (b - a);
                f.len[e.r] += l;
                f.crossings++;
                Pt pt{x[0] + v * o[0], x[1] + v * o[1], x[2] + v * o[2]};
                auto &mm = p.mesh(e.r.px, e.r.py, e.r.pz);
                double lx = pt.x - (e.r.px + .5) * p.pitch, ly = pt.y - (e.r.py + .5) * p.pitch;
                if (l > 1e-4 && mm.clearance(lx, ly) < 1e-5) f.ambiguous = true;
                // nearly tangent to a ring
                if (mm.cyl) {
                    double b2 = std::fabs(lx * o[1] - ly * o[0]) / s2;
                    for (double r : mm.rings())
                        if (std::fabs(b2 - r) < 1e-6) f.ambiguous = true;
                    if (b2 < 1e-6) f.ambiguous = f.ambiguous; // through the centre is fine
                }
            }
        }
        f.total += s;
        bool dead = false;
        for (int a = 0; a < 3; a++) {
            x[a] += s * o[a];
            if (t[a] > s + 1e-9) continue;
            int face = a == 0 ? (o[0] > 0 ? EAST : WEST) : a == 1 ? (o[1] > 0 ? NORTH : SOUTH) : (o[2] > 0 ? TOP : BOTTOM);
            x[a] = o[a] > 0 ? L[a] : 0.0;
            if (p.bc[face] == "vacuum") {
                if (t[a] > s + 1e-13) f.ambiguous = true;
                dead = true;
            } else {
                o[a] = -o[a];
                f.reflections++;
            }
        }
        if (dead) return f;
    }
}

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats   = 3;
    Lib lib = gen_lib(d, lo);
    for (auto &m : lib.mats)
        for (int g = 0; g < lib.ng; g++) {
            // nothing ever happens
            m.abs[g] *= 1e-25;
            m.nuf[g] *= 1e-25;
            m.fis[g] *= 1e-25;
            for (auto &r : m.sc) r[g] *= 1e-25;
        }
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 4;
    go.max_planes = 3;
    go.random_ids = false;
    Problem p = gen_geom(d, lib, go);
    double o[3];
    int kind = (int)d.range(0, 5);
    if (kind == 0) { // along an axis
        int a = (int)d.range(0, 2);
        o[0] = o[1] = o[2] = 0;
        o[a] = d.chance(0.5) ? 1 : -1;
    } else if (kind == 1) { // in a coordinate plane
        int a = (int)d.range(0, 2);
        double t = d.real(0.0, 2 * PI_);
        o[a] = 0;
        o[(a + 1) % 3] = std::cos(t);
        o[(a + 2) % 3] = std::sin(t);
    } else if (kind == 2) { // simple ratios
        for (auto &v : o) v = (double)d.range(-3, 3);
        if (o[0] == 0 && o[1] == 0 && o[2] == 0) o[0] = 1;
    } else {
        double mu = d.real(-1, 1), t = d.real(0, 2 * PI_), s = std::sqrt(1 - mu * mu);
        o[0] = s * std::cos(t);
        o[1] = s * std::sin(t);
        o[2] = mu;
    }
    double n = std::sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
    for (auto &v : o) v /= n;
    // the history has to end: open a face on an axis it moves along
    std::vector<int> ax;
    for (int a = 0; a < 3; a++) if (std::fabs(o[a]) > 0.05) ax.push_back(a);
    static const int pos[3] = {EAST, NORTH, TOP}, neg[3] = {WEST, SOUTH, BOTTOM};
    bool open = false;
    for (int a : ax) if (p.bc[pos[a]] == "vacuum" || p.bc[neg[a]] == "vacuum") open = true;
    if (!open) { int a = d.pick(ax); p.bc[d.chance(0.5) ? pos[a] : neg[a]] = "vacuum"; }
    Pt q;
    int where = (int)d.range(0, 4);
    if (where == 0) { // special points: simple fractions of a pin
        int k = d.pick(std::vector<int>{2, 3, 4});
        q.x = (d.range(0, p.nx - 1) + (double)d.range(1, k - 1) / k) * p.pitch;
        q.y = (d.range(0, p.ny - 1) + (double)d.range(1, k - 1) / k) * p.pitch;
        q.z = p.Lz() * d.real(0.001, 0.999);
    } else {
        q.x = p.Lx() * d.real(1e-6, 1 - 1e-6);
        q.y = p.Ly() * d.real(1e-6, 1 - 1e-6);
        q.z = p.Lz() * d.real(1e-6, 1 - 1e-6);
    }
    int g = (int)d.range(0, lib.ng - 1);
    c.desc << p.geom_xml() << fmt("from (%.17g,%.17g,%.17g) direction (%.17g,%.17g,%.17g) group %d\n", q.x, q.y, q.z, o[0], o[1], o[2], g + 1);
    Flight f = fly(p, q, o, c);
    auto m = make_mesh(p, c.dir);
    auto map = region_map(p, *m);
    mocc::XSMesh xs(*m, mocc::MeshTreatment::TRUE);
    mocc::mc::ParticlePusher push(*m, xs);
    mocc::Direction dir(o[0], o[1], o[2]);
    push.simulate(mocc::mc::Particle(mocc::Point3(q.x, q.y, q.z), dir, g, (unsigned)d.range(0, 100000)), true);
    double tol = 1e-6 * (1 + f.crossings / 300.0);
    std::vector<double> pin(p.nx * p.ny * p.nz, 0.0);
    for (auto &kv : f.len) pin[(kv.first.pz * p.ny + kv.first.py) * p.nx + kv.first.px] += kv.second;
    for (int gg = 0; gg < lib.ng; gg++) {
        auto fine = push.fine_flux_tallies()[gg].get();
        auto coarse = push.flux_tallies()[gg].get();
        double tot = 0, totc = 0;
        for (auto &kv : map) {
            auto &r = kv.first;
            double v = fine[kv.second].first * p.area(r) * p.dz(r.pz);
            tot += v;
            double want = gg == g && f.len.count(r) ? f.len[r] : 0.0;
            if (!f.ambiguous)
                c.close(v, want, 0, tol, "region-chord", fmt("group %d pin (%d,%d,%d) region (%d,%d), %d crossings", gg + 1, r.px, r.py, r.pz, r.a, r.b, f.crossings));
        }
        for (int i = 0; i < (int)pin.size(); i++) {
            int iz = i / (p.nx * p.ny);
            double v = coarse[i].first * p.pitch * p.pitch * p.dz(iz);
            totc += v;
            if (!f.ambiguous) c.close(v, gg == g ? pin[i] : 0.0, 0, tol, "pin-chord", fmt("group %d pin cell %d", gg + 1, i));
        }
        c.close(tot, gg == g ? f.total : 0.0, 1e-7, tol, "total", fmt("group %d, all regions", gg + 1));
        c.close(totc, gg == g ? f.total : 0.0, 1e-7, tol, "total-pins", fmt("group %d, all pins", gg + 1));
    }
    if (f.ambiguous) c.label("along a surface (total only)");
    if (f.reflections) c.label("reflected");
    if (kind == 0) c.label("axis-parallel");
    c.nontrivial(f.len.size() >= 3 && !f.ambiguous);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C07";
    s.fn = run;
    s.rule = "the flight passes through at least three regions, none of them along a surface";
    s.oracle = "analytic chords of the folded path in the reference geometry";
    s.quick_cases = 100000;
    s.thorough_cases = 2000000;
    s.batch = 200;
    s.cpu_limit = 30;
    s.assumptions = {"materials with cross sections of 1e-25 cm^-1, so that no interaction happens",
                     "chords compared within 1e-6 cm",
                     "paths within 1e-5 cm of a surface over more than 1e-4 cm, or within 1e-6 cm of tangency, are only checked for their total length"};
    return pbt::pbt_main(argc, argv, s);
}
