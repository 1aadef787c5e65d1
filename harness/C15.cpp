// flavor: opt
// C15: a characteristics sweep is the transport solution along the rays, and balances
#include "quads.hpp"
#include "rays.hpp"
#include "core/coarse_data.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/moc/ray_data.hpp"
using namespace model;

// One plane of the reference: directions, rays and their links at the edge
struct Seg { int reg; double len; };
struct RefRay { std::vector<Seg> s; int b0, b1; };
struct RefDir { double ox, oy, st, w, space; int nx, ny; std::vector<RefRay> rays; };

// quadrant of travel: 0 (+,+) 1 (-,+) 2 (-,-) 3 (+,-)
static int mirror_x(int q) { return q ^ 1; }
static int mirror_y(int q) { return 3 - q; }

struct Ref {
    int nreg = 0; // of the plane
    std::vector<RefDir> dirs; // first n travel (+,+), next n (-,+); each is swept both ways
    int n;
    const Problem *p;
    // incoming angular flux [octant direction][quadrant][index at the edge]
    std::vector<std::array<std::vector<double>, 4>> in;
    std::vector<std::array<std::vector<double>, 4>> inerr;
    std::vector<double> area;
    std::vector<int> pin_of;
    // currents and fluxes summed on pin faces: [pin][face]
    std::vector<std::array<double, 4>> J, F, Jerr;
    std::vector<std::array<char, 4>> murky;
};

// sweep one plane once: source q (per unit volume, divided by 4 pi sigma), returns t_flux
static void sweep(Ref &r, const std::vector<double> &st, const std::vector<double> &q, const std::vector<double> &qe, std::vector<double> &flux,
                  std::vector<double> &fe, bool tally, const bool refl[4]) {
    const double dexp = 1.3e-7;
    auto &p = *r.p;
    std::vector<double> t(r.nreg, 0.0), te(r.nreg, 0.0);
    auto nin = r.in;
    auto nie = r.inerr;
    for (auto &a : nin) for (auto &v : a) std::fill(v.begin(), v.end(), 0.0);
    for (auto &a : nie) for (auto &v : a) std::fill(v.begin(), v.end(), 0.0);
    if (tally) {
        r.J.assign(p.nx * p.ny, {{0, 0, 0, 0}});
        r.F = r.Jerr = r.J;
    }
    for (int ia = 0; ia < 2 * r.n; ia++) {
        auto &D = r.dirs[ia];
        int i = ia % r.n;
        double rs = 1 / D.st, wt = D.w * PI_ * D.st * D.space;
        for (auto &ray : D.rays)
            for (int back = 0; back < 2; back++) {
                int quad = ia < r.n ? (back ? 2 : 0) : (back ? 3 : 1);
                int bi = back ? ray.b1 : ray.b0, bo = back ? ray.b0 : ray.b1;
                double psi = r.in[i][quad][bi], pe = r.inerr[i][quad][bi];
                double sx = quad == 0 || quad == 3 ? 1 : -1, sy = quad < 2 ? 1 : -1;
                // add this flux to a face of a pin
                auto face = [&](int pin, int f) {
                    double cosn = f == EAST || f == WEST ? std::fabs(D.ox) : std::fabs(D.oy);
                    double sgn = f == EAST || f == WEST ? sx : sy;
                    double len = D.space / (cosn / D.st); // length on the face covered by the ray
                    r.J[pin][f] += sgn * psi * D.w * PI_ * cosn * len / p.pitch;
                    r.Jerr[pin][f] += pe * D.w * PI_ * len / p.pitch;
                    r.F[pin][f] += psi * D.w * PI_ * len / p.pitch;
                };
                int ns = ray.s.size();
                auto at = [&](int k) -> const Seg & { return ray.s[back ? ns - 1 - k : k]; };
                auto outer_face = [&](bool entering, int b) { // face of the core at this end
                    bool xface = b < D.ny;
                    if (xface) return (sx > 0) == entering ? WEST : EAST;
                    return (sy > 0) == entering ? SOUTH : NORTH;
                };
                if (tally) face(r.pin_of[at(0).reg], outer_face(true, bi));
                for (int k = 0; k < ns; k++) {
                    auto &sg = at(k);
                    if (tally && k && r.pin_of[sg.reg] != r.pin_of[at(k - 1).reg]) {
                        int a = r.pin_of[at(k - 1).reg], b = r.pin_of[sg.reg];
                        int dx = b % p.nx - a % p.nx, dy = b / p.nx - a / p.nx;
                        if (std::abs(dx) + std::abs(dy) == 1) {
                            int f = dx > 0 ? EAST : dx < 0 ? WEST : dy > 0 ? NORTH : SOUTH, g = (f + 2) % 4;
                            face(a, f);
                            face(b, g);
                        } // else through a corner, whose faces are left out
                    }
                    double e = -std::expm1(-st[sg.reg] * sg.len * rs);
                    double diff = (psi - q[sg.reg]) * e;
                    double de = (pe + qe[sg.reg]) * e + dexp * std::fabs(psi - q[sg.reg]);
                    t[sg.reg] += wt * diff;
                    te[sg.reg] += wt * de;
                    psi -= diff;
                    pe = pe * (1 - e) + qe[sg.reg] * e + dexp * std::fabs(psi + diff - q[sg.reg]);
                }
                int of = outer_face(false, bo);
                if (tally) face(r.pin_of[at(ns - 1).reg], of);
                if (refl[of]) {
                    int q2 = of == EAST || of == WEST ? mirror_x(quad) : mirror_y(quad);
                    nin[i][q2][bo] = psi;
                    nie[i][q2][bo] = pe;
                }
            }
    }
    for (int i = 0; i < r.nreg; i++) {
        flux[i] = t[i] / (st[i] * r.area[i]) + 4 * PI_ * q[i];
        fe[i] = te[i] / (st[i] * r.area[i]) + 4 * PI_ * qe[i];
    }
    r.in = nin;
    r.inerr = nie;
}

// A ray through a corner of a pin may be counted on the faces of either pin beside it: mark them
static void mark_corners(Ref &r) {
    auto &p = *r.p;
    r.murky.assign(p.nx * p.ny, {{0, 0, 0, 0}});
    auto corner = [&](double x, double y) {
        double gx = std::round(x / p.pitch), gy = std::round(y / p.pitch);
        if (std::fabs(x / p.pitch - gx) > 1e-6 || std::fabs(y / p.pitch - gy) > 1e-6) return;
        int cx = gx, cy = gy; // faces that end at this corner
        for (int ax = cx - 1; ax <= cx; ax++)
            for (int ay = cy - 1; ay <= cy; ay++)
                if (ax >= 0 && ax < p.nx && ay >= 0 && ay < p.ny) {
                    r.murky[ay * p.nx + ax][ax < cx ? EAST : WEST] = 1;
                    r.murky[ay * p.nx + ax][ay < cy ? NORTH : SOUTH] = 1;
                }
    };
    for (int ia = 0; ia < 2 * r.n; ia++) {
        auto &D = r.dirs[ia];
        double sx = ia < r.n ? 1 : -1;
        for (auto &ray : D.rays) {
            auto end = [&](int b, bool first, double &x, double &y) {
                x = b < D.ny ? ((sx > 0) == first ? 0 : p.Lx()) : (b - D.ny + 0.5) * p.Lx() / D.nx;
                y = b < D.ny ? (b + 0.5) * p.Ly() / D.ny : (first ? 0 : p.Ly());
            };
            double x0, y0, x1, y1;
            end(ray.b0, true, x0, y0);
            end(ray.b1, false, x1, y1);
            corner(x0, y0);
            corner(x1, y1);
            for (int i = 0; i <= p.nx; i++) { // where it meets the lines between columns
                double t = (i * p.pitch - x0) / (x1 - x0);
                if (t >= -1e-6 && t <= 1 + 1e-6) corner(i * p.pitch, y0 + t * (y1 - y0));
            }
        }
    }
}

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.tmin = 0.4;
    lo.tmax = d.chance(0.3) ? 30.0 : 3.0;
    lo.cmin = 0.0;
    lo.cmax = 0.8;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = 3;
    go.max_pins_y = 3;
    go.max_planes = 3;
    go.pmin = 0.5;
    Problem p = gen_geom(d, lib, go);
    bool refl[4], any_refl = false;
    int bmode = d.range(0, 2);
    for (int f = 0; f < 4; f++) {
        p.bc[f] = bmode == 0 ? "vacuum" : bmode == 1 ? "reflect" : d.chance(0.5) ? "reflect" : "vacuum";
        refl[f] = p.bc[f] == "reflect";
        any_refl = any_refl || refl[f];
    }
    QuadOpts qo;
    qo.max_ls = 6;
    qo.max_azi = 3;
    qo.max_pol = 2;
    qo.max_user = 3;
    QuadDef q = gen_quad(d, qo);
    double spacing = d.logreal(0.06, 0.35) * p.pitch;
    std::string corr = d.pick(std::vector<std::string>{"", "flat", "angle", "none"});
    std::string rx = "<rays spacing=\"" + num(spacing) + "\"";
    if (!corr.empty()) rx += " volume_correction=\"" + corr + "\"";
    if (d.chance(0.3)) rx += " modularity=\"pin\"";
    rx += " />";
    bool converge = any_refl;
    int inner = converge ? 160 : d.range(1, 4);
    std::string upd = d.pick(std::vector<std::string>{"", "gs", "jacobi"});
    std::string sx = "<sweeper type=\"moc\" n_inner=\"" + std::to_string(inner) + "\"" + (upd.empty() ? "" : " boundary_update=\"" + upd + "\"") + ">" + q.xml +
                     rx + "<source scattering=\"P0\"/></sweeper>";
    c.desc << lib.text() << p.geom_xml() << sx << "\n";
    auto m = make_mesh(p, c.dir);
    Doc doc(sx);
    auto x = doc.doc.child("sweeper");
    std::unique_ptr<mocc::moc::RayData> rd;
    mocc::AngularQuadrature nominal(x.child("ang_quad"));
    try {
        rd.reset(new mocc::moc::RayData(x.child("rays"), nominal, *m));
    } catch (mocc::Exception &e) {
        c.discard("angles coincide");
    }
    auto &aq = rd->ang_quad();
    int n = nominal.ndir_oct(), ng = lib.ng, nxy = p.nx * p.ny;
    auto bot = group_bottoms(p);
    auto groups = p.groups();
    auto pm = plane_region_map(p, *m);
    int ntot = pm.size();
    std::vector<int> first; // first region of each group of planes
    std::vector<Ref> ref(bot.size());
    for (size_t k = 0; k < bot.size(); k++) {
        auto &R = ref[k];
        R.p = &p;
        R.n = n;
        int lo = ntot;
        for (auto &e : pm) if (e.first.pz == bot[k]) { lo = std::min(lo, e.second); R.nreg++; }
        first.push_back(lo);
        R.area.resize(R.nreg);
        R.pin_of.resize(R.nreg);
        for (auto &e : pm)
            if (e.first.pz == bot[k]) {
                R.area[e.second - lo] = p.area(e.first);
                R.pin_of[e.second - lo] = e.first.py * p.nx + e.first.px;
            }
        auto &pr = (*rd)[m->unique_plane_id(bot[k])];
        R.in.resize(n);
        for (int ia = 0; ia < 2 * n; ia++) {
            RefDir D;
            D.ox = std::fabs(aq[ia].ox);
            D.oy = std::fabs(aq[ia].oy);
            D.st = std::sin(aq[ia].theta);
            D.w = aq[ia].weight;
            D.space = rd->spacing(ia);
            D.nx = rd->nx(ia);
            D.ny = rd->ny(ia);
            for (auto &r : pr[ia]) {
                RefRay rr;
                rr.b0 = r.bc(0);
                rr.b1 = r.bc(1);
                for (int s = 0; s < r.nseg(); s++) rr.s.push_back({(int)r.seg_index(s), (double)r.seg_len(s)});
                D.rays.push_back(rr);
            }
            R.dirs.push_back(D);
            if (ia < n) for (auto &v : R.in[ia]) v.assign(D.nx + D.ny, 0.0);
        }
        R.inerr = R.in;
        mark_corners(R);
        for (int i = 0; i < R.nreg; i++) { // every region needs a ray, in every direction with flat correction
            bool miss = false;
            for (auto &D : R.dirs) {
                double v = 0;
                for (auto &ry : D.rays) for (auto &s : ry.s) if (s.reg == i) v += s.len;
                miss = miss || v == 0;
            }
            if (miss) c.discard("a region no ray crosses");
        }
    }
    std::cout.setstate(std::ios::badbit); // long optical paths are announced one by one
    mocc::moc::MoCSweeper sw(x, *m);
    auto src = sw.create_source(x.child("source"));
    sw.assign_source(src.get());
    sw.initialize();
    mocc::CoarseData cd(*m, ng);
    bool coarse = d.chance(0.7);
    if (coarse) sw.set_coarse_data(&cd);
    for (int i = 0; i < ntot; i++) for (int g = 0; g < ng; g++) sw.flux()(i, g) = d.real(0.2, 2.0);
    std::vector<int> mat(ntot);
    for (auto &e : pm) mat[e.second] = p.mat_slot_of(e.first);
    int turns = d.range(1, 2);
    c.label(converge ? "reflecting, converged" : fmt("vacuum, %d inner", inner));
    if (bot.size() != (size_t)p.nz) c.label("groups of planes");
    // anything left in the axial currents must survive the sweep
    for (auto &v : cd.current) v = 0.125;
    for (int turn = 0; turn < turns; turn++) {
        int g = d.range(0, ng - 1);
        mocc::ArrayB1 aux(ntot);
        std::vector<double> S(ntot), st(ntot), ss(ntot), phi(ntot), err(ntot, 0.0), flux0(ntot);
        bool neg = d.chance(0.2);
        for (int i = 0; i < ntot; i++) {
            S[i] = neg ? d.real(-0.5, 1.5) : d.real(0, 1.5);
            aux(i) = S[i];
            st[i] = p.mat(mat[i]).tr(g);
            ss[i] = p.mat(mat[i]).sc[g][g];
            phi[i] = flux0[i] = sw.flux()(i, g);
        }
        std::vector<double> others;
        for (int i = 0; i < ntot; i++) for (int h = 0; h < ng; h++) if (h != g) others.push_back(sw.flux()(i, h));
        int iters = 0;
        for (size_t k = 0; k < bot.size(); k++) {
            auto &R = ref[k];
            for (auto &a : R.in) for (auto &v : a) std::fill(v.begin(), v.end(), converge ? 0.05 : 0.0);
            for (auto &a : R.inerr) for (auto &v : a) std::fill(v.begin(), v.end(), 0.0);
            if (converge) // vacuum faces let nothing in
                for (int i = 0; i < n; i++)
                    for (int qd = 0; qd < 4; qd++)
                        for (int b = 0; b < (int)R.in[i][qd].size(); b++) {
                            bool xf = b < R.dirs[i].ny;
                            int f = xf ? (qd == 0 || qd == 3 ? WEST : EAST) : (qd < 2 ? SOUTH : NORTH);
                            if (!refl[f]) R.in[i][qd][b] = 0;
                        }
            std::vector<double> s(st.begin() + first[k], st.begin() + first[k] + R.nreg), q1(R.nreg), qe(R.nreg), f(R.nreg), fe(R.nreg, 0.0), old;
            f.assign(phi.begin() + first[k], phi.begin() + first[k] + R.nreg);
            int it = 0;
            for (;; it++) {
                old = f;
                for (int i = 0; i < R.nreg; i++) {
                    q1[i] = (S[first[k] + i] + ss[first[k] + i] * f[i]) / (4 * PI_ * s[i]);
                    qe[i] = ss[first[k] + i] * fe[i] / (4 * PI_ * s[i]);
                }
                sweep(R, s, q1, qe, f, fe, true, refl);
                double ch = 0, mx = 0;
                for (int i = 0; i < R.nreg; i++) { ch = std::max(ch, std::fabs(f[i] - old[i])); mx = std::max(mx, std::fabs(f[i])); }
                if (converge ? ch < 1e-12 * mx : it + 1 == inner) break;
                if (it > 100) c.discard("slow to converge");
            }
            iters = std::max(iters, it);
            for (int i = 0; i < R.nreg; i++) { phi[first[k] + i] = f[i]; err[first[k] + i] = fe[i]; }
        }
        src->initialize_group(g);
        src->auxiliary(aux);
        sw.sweep(g);
        double mx = 0;
        for (double v : phi) mx = std::max(mx, std::fabs(v));
        for (auto &e : pm) {
            int i = e.second;
            c.close(sw.flux()(i, g), phi[i], 0, err[i] + 1e-9 * mx, "flux", fmt("group %d region %d (pin %d,%d plane %d)", g, i, e.first.px, e.first.py, e.first.pz));
        }
        size_t o = 0;
        for (int i = 0; i < ntot; i++) for (int h = 0; h < ng; h++) if (h != g) c.check(sw.flux()(i, h) == others[o++], "other-group", "sweeping a group changes another");
        if (coarse) {
            for (int iz = 0; iz < p.nz; iz++) {
                int k = 0;
                while (k + 1 < (int)bot.size() && bot[k + 1] <= iz) k++;
                auto &R = ref[k];
                double scale = 0;
                for (auto &a : R.F) for (double v : a) scale = std::max(scale, v);
                for (int pin = 0; pin < nxy; pin++) {
                    int cell = iz * nxy + pin;
                    double leak = 0, lmax = 0;
                    for (int f = 0; f < 4; f++) {
                        int s = m->coarse_surf(cell, (mocc::Surface)f);
                        double J = cd.current(s, g);
                        auto w = fmt("group %d pin (%d,%d) plane %d face %s", g, pin % p.nx, pin / p.nx, iz, face_name[f]);
                        if (!R.murky[pin][f]) {
                            c.close(J, R.J[pin][f], 0, R.Jerr[pin][f] + 1e-9 * scale, "current", w);
                            c.close(cd.surface_flux(s, g), R.F[pin][f], 0, R.Jerr[pin][f] / 0.05 + 1e-9 * scale, "surface-flux", w);
                        }
                        leak += (f == EAST || f == NORTH ? 1 : -1) * J * p.pitch;
                        lmax += std::fabs(J) * p.pitch;
                    }
                    if (inner == 1 || converge) {
                        double b = 0, bm = 0;
                        for (int i = 0; i < R.nreg; i++)
                            if (R.pin_of[i] == pin) {
                                int gi = first[k] + i;
                                double fold = converge ? sw.flux()(gi, g) : flux0[gi];
                                double loss = st[gi] * sw.flux()(gi, g) * R.area[i], gain = (S[gi] + ss[gi] * fold) * R.area[i];
                                b += loss - gain;
                                bm += std::fabs(loss) + std::fabs(gain);
                            }
                        c.close(b + leak, 0, 0, (converge ? 1e-8 : 1e-10) * (bm + lmax), "balance", fmt("group %d pin (%d,%d) plane %d", g, pin % p.nx, pin / p.nx, iz));
                    }
                    for (int f : {TOP, BOTTOM})
                        c.check(cd.current(m->coarse_surf(cell, (mocc::Surface)f), g) == 0.125, "axial-current", "a planar sweep overwrites axial currents");
                }
            }
        }
    }
    c.nontrivial(ntot > 1 && (converge || inner > 1 || coarse));
    if (coarse) c.label("currents");
    if (p.nz > 1) c.label("several planes");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C15";
    s.fn = run;
    s.rule = "several regions, and either reflecting faces, repeated scattering or currents";
    s.oracle = "an independent sweep with exact exponentials along the same rays, faces joined by position; pin-cell balance of the reported currents";
    s.quick_cases = 8000;
    s.thorough_cases = 100000;
    s.batch = 1;
    s.assumptions = {"flux tolerance is a rigorous propagation of a 1.3e-7 error in each exponential plus 1e-9", "planes joined in a group are identical",
                     "faces ending at a pin corner that a ray passes within 1e-6 are left out of the current comparison but not of the balance"};
    return pbt::pbt_main(argc, argv, s);
}
