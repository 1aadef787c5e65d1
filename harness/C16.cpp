// flavor: opt
// C16: a discrete-ordinates sweep follows its difference scheme and balances every cell
#include "quads.hpp"
#include "mocc_util.hpp"
#include "core/coarse_data.hpp"
#include "sweepers/cmdo/correction_data.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
using namespace model;

enum Axial { DD, DD_FF, SC, FW, PMB };

struct Ord { double o[3]; double w; int factors; }; // signed cosines

struct RefSn {
    int nx, ny, nz;
    bool two_d;
    double pitch;
    std::vector<double> dz;
    std::vector<Ord> ords;
    Axial axial;
    std::vector<double> gx, gy; // [cell][ordinate]
    bool refl[6];
    // incoming flux of each ordinate on its three upwind faces
    std::vector<std::array<std::vector<double>, 3>> in;
    std::vector<double> flux;
    std::vector<double> J; // [cell][face]
    bool fixups = false;
    int cell(int x, int y, int z) const { return (z * ny + y) * nx + x; }
};

static int face_of(int dim, bool up) { // the face a particle leaves through
    static const int t[3][2] = {{WEST, EAST}, {SOUTH, NORTH}, {BOTTOM, TOP}};
    return t[dim][up];
}

static void sweep(RefSn &r, const std::vector<double> &st, const std::vector<double> &q) {
    int n = r.nx * r.ny * r.nz, no = r.ords.size();
    r.flux.assign(n, 0.0);
    r.J.assign(n * 6, 0.0);
    r.fixups = false;
    auto nin = r.in;
    for (auto &a : nin) for (auto &v : a) std::fill(v.begin(), v.end(), 0.0);
    for (int io = 0; io < no; io++) {
        auto &o = r.ords[io];
        bool up[3];
        for (int k = 0; k < 3; k++) up[k] = o.o[k] > 0;
        auto f = r.in[io];
        double mx = std::fabs(o.o[0]), my = std::fabs(o.o[1]), mz = std::fabs(o.o[2]);
        for (int kz = 0; kz < r.nz; kz++)
            for (int ky = 0; ky < r.ny; ky++)
                for (int kx = 0; kx < r.nx; kx++) {
                    int x = up[0] ? kx : r.nx - 1 - kx, y = up[1] ? ky : r.ny - 1 - ky, z = up[2] ? kz : r.nz - 1 - kz;
                    if (r.two_d) z = 0;
                    int c = r.cell(x, y, z);
                    double &fx = f[0][z * r.ny + y], &fy = f[1][z * r.nx + x], &fz = f[2][y * r.nx + x];
                    double tx = mx / r.pitch, ty = my / r.pitch, tz = r.two_d ? 0 : mz / r.dz[z];
                    double gx = r.gx[c * no + io], gy = r.gy[c * no + io], s = st[c], src = q[c];
                    // psi = g (in + out) on x and y; the balance tx(out-in)+ty(out-in)+tz(out-in)+s psi = src closes it
                    double num = src + 2 * tx * fx + 2 * ty * fy, den = tx / gx + ty / gy + s;
                    double psi, oz = 0;
                    if (r.two_d)
                        psi = num / den;
                    else {
                        // out = A psi + B on z
                        double A = 0, B = 0;
                        switch (r.axial) {
                        case DD: case DD_FF: A = 2; B = -fz; break;
                        case FW: A = 1; break;
                        case SC: { // psi = rho in + (1-rho) out
                            double tau = s / tz, rho = 1 / tau - 1 / std::expm1(tau);
                            A = 1 / (1 - rho);
                            B = -rho / (1 - rho) * fz;
                            break;
                        }
                        case PMB: // balance over the downwind half: 2 tz (out - psi) + s out = src
                            A = 2 * tz / (2 * tz + s);
                            B = src / (2 * tz + s);
                            break;
                        }
                        psi = (num + tz * fz - tz * B) / (den + tz * A);
                        oz = A * psi + B;
                        if (r.axial == DD_FF && oz < 0) {
                            psi = (num + tz * fz) / den;
                            oz = 0;
                            r.fixups = true;
                        }
                    }
                    double in[3] = {fx, fy, fz};
                    fx = psi / gx - fx;
                    fy = psi / gy - fy;
                    fz = oz;
                    double out[3] = {fx, fy, fz};
                    r.flux[c] += o.w * psi;
                    for (int k = 0; k < (r.two_d ? 2 : 3); k++) {
                        r.J[c * 6 + face_of(k, up[k])] += o.w * o.o[k] * out[k];
                        r.J[c * 6 + face_of(k, !up[k])] += o.w * o.o[k] * in[k];
                    }
                }
        for (int k = 0; k < (r.two_d ? 2 : 3); k++) {
            if (!r.refl[face_of(k, up[k])]) continue;
            for (int jo = 0; jo < no; jo++) {
                bool mirror = true;
                for (int l = 0; l < 3; l++) mirror = mirror && std::fabs(r.ords[jo].o[l] - (l == k ? -1 : 1) * o.o[l]) < 1e-12;
                if (mirror) nin[jo][k] = f[k];
            }
        }
    }
    r.in = nin;
}

static void run(Draw &d, Case &c) {
    std::cout.setstate(std::ios::badbit);
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.tmin = 0.3;
    lo.tmax = d.chance(0.3) ? 30.0 : 3.0;
    lo.cmin = 0.0;
    lo.cmax = 0.8;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = 4;
    go.max_pins_y = 4;
    go.max_planes = 4;
    go.pmin = 0.5;
    Problem p = gen_geom(d, lib, go);
    int bmode = d.range(0, 2);
    RefSn R;
    bool any_refl = false;
    for (int f = 0; f < 6; f++) p.bc[f] = bmode == 0 ? "vacuum" : bmode == 1 ? "reflect" : d.chance(0.5) ? "reflect" : "vacuum";
    bool want_2d = p.nz == 1 && d.chance(0.6);
    if (want_2d) p.bc[TOP] = p.bc[BOTTOM] = "reflect";
    R.two_d = p.nz == 1 && p.bc[TOP] == "reflect" && p.bc[BOTTOM] == "reflect";
    for (int f = 0; f < 6; f++) {
        R.refl[f] = p.bc[f] == "reflect";
        if (R.refl[f] && !(R.two_d && f >= TOP)) any_refl = true;
    }
    QuadOpts qo;
    qo.max_ls = 6;
    qo.max_azi = 2;
    qo.max_pol = 2;
    qo.max_user = 3;
    QuadDef q = gen_quad(d, qo);
    bool cdd = d.chance(0.6);
    R.axial = cdd ? (Axial)d.range(0, 4) : d.chance(0.5) ? SC : DD;
    static const char *axn[] = {"dd", "dd_ff", "sc", "fw", "pmb"};
    int inner = any_refl ? 700 : d.range(1, 4);
    std::string upd = d.pick(std::vector<std::string>{"", "gs", "jacobi"});
    std::string sx = "<sweeper type=\"sn\" equation=\"" + std::string(cdd ? "cdd" : "dd") + "\" axial=\"" + axn[R.axial] + "\" n_inner=\"" +
                     std::to_string(inner) + "\"" + (upd.empty() ? "" : " boundary_update=\"" + upd + "\"") + ">" + q.xml + "<source scattering=\"P0\"/></sweeper>";
    c.desc << lib.text() << p.geom_xml() << sx << "\n";
    auto m = make_mesh(p, c.dir);
    Doc doc(sx);
    auto x = doc.doc.child("sweeper");
    std::shared_ptr<mocc::CorrectionData> cor;
    std::unique_ptr<mocc::sn::SnSweeper> sw;
    if (cdd) {
        auto pr = mocc::cmdo::SnSweeperFactory_CDD(x, *m);
        sw = std::move(pr.first);
        cor = pr.second;
    } else
        sw = mocc::SnSweeperFactory(x, *m);
    auto &aq = sw->ang_quad();
    int nd = R.two_d ? aq.ndir() / 2 : aq.ndir(), n = p.nx * p.ny * p.nz, ng = lib.ng;
    R.nx = p.nx; R.ny = p.ny; R.nz = p.nz; R.pitch = p.pitch;
    for (int z = 0; z < p.nz; z++) R.dz.push_back(p.dz(z));
    for (int i = 0; i < nd; i++) {
        Ord o;
        o.o[0] = aq[i].ox; o.o[1] = aq[i].oy; o.o[2] = aq[i].oz;
        o.w = aq[i].weight * (R.two_d ? PI_ : PI_ / 2);
        o.factors = i % (aq.ndir() / 2); // an upward ordinate and its downward image share factors
        R.ords.push_back(o);
    }
    R.in.resize(nd);
    // random correction factors, per group of planes
    auto bot = group_bottoms(p);
    std::vector<int> grp(p.nz);
    for (int z = 0; z < p.nz; z++) { int k = 0; while (k + 1 < (int)bot.size() && bot[k + 1] <= z) k++; grp[z] = k; }
    int nf = aq.ndir() / 2, nxy = p.nx * p.ny;
    std::vector<double> al((size_t)bot.size() * nxy * nf * ng * 3);
    double spread = d.pick(std::vector<double>{0.0, 0.1, 0.4});
    auto A = [&](int k, int pin, int a, int g, int w) -> double & { return al[((((size_t)k * nxy + pin) * nf + a) * ng + g) * 3 + w]; };
    if (cdd)
        for (size_t k = 0; k < bot.size(); k++)
            for (int pin = 0; pin < nxy; pin++)
                for (int a = 0; a < nf; a++)
                    for (int g = 0; g < ng; g++) {
                        // generate cheaply: a hash of the place, so that the choice sequence stays short
                        auto h = [&](int w) { return std::fmod(std::sin(1.0 + 12.9 * k + 7.1 * pin + 3.3 * a + 1.7 * g + 0.61 * w) * 43758.5453, 1.0); };
                        A(k, pin, a, g, 0) = 0.5 * (1 + spread * h(0));
                        A(k, pin, a, g, 1) = 0.5 * (1 + spread * h(1));
                        A(k, pin, a, g, 2) = 1 + spread * h(2);
                        int reg = k * nxy + pin;
                        cor->alpha(reg, a, g, mocc::Normal::X_NORM) = A(k, pin, a, g, 0);
                        cor->alpha(reg, a, g, mocc::Normal::Y_NORM) = A(k, pin, a, g, 1);
                        cor->beta(reg, a, g) = A(k, pin, a, g, 2);
                    }
    auto src = sw->create_source(x.child("source"));
    sw->assign_source(src.get());
    sw->initialize();
    mocc::CoarseData cd(*m, ng);
    bool coarse = d.chance(0.8);
    if (coarse) sw->set_coarse_data(&cd);
    std::vector<double> vol(n, 0.0);
    std::vector<std::vector<double>> tr(ng, vol), sc(ng, vol);
    for (auto &r : p.regions()) {
        int i = (r.pz * p.ny + r.py) * p.nx + r.px;
        double v = p.area(r) * p.dz(r.pz);
        vol[i] += v;
        auto &mt = p.mat(p.mat_slot_of(r));
        for (int g = 0; g < ng; g++) { tr[g][i] += v * mt.tr(g); sc[g][i] += v * mt.sc[g][g]; }
    }
    for (int g = 0; g < ng; g++) for (int i = 0; i < n; i++) { tr[g][i] /= vol[i]; sc[g][i] /= vol[i]; }
    for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) sw->flux()(i, g) = d.real(0.2, 2.0);
    int turns = d.range(1, 2);
    bool any_fix = false;
    for (int turn = 0; turn < turns; turn++) {
        int g = d.range(0, ng - 1);
        R.gx.assign(n * nd, 0.5);
        R.gy = R.gx;
        // the multiple-balance option keeps the plain diamond relation in the plane in 3-D
        if (cdd && (R.axial != PMB || R.two_d))
            for (int z = 0; z < p.nz; z++)
                for (int pin = 0; pin < nxy; pin++)
                    for (int io = 0; io < nd; io++) {
                        int a = R.ords[io].factors;
                        double b = A(grp[z], pin, a, g, 2);
                        R.gx[(z * nxy + pin) * nd + io] = A(grp[z], pin, a, g, 0) * b;
                        R.gy[(z * nxy + pin) * nd + io] = A(grp[z], pin, a, g, 1) * b;
                    }
        for (int io = 0; io < nd; io++)
            for (int k = 0; k < 3; k++)
                R.in[io][k].assign(k == 0 ? p.ny * p.nz : k == 1 ? p.nx * p.nz : nxy, R.refl[face_of(k, R.ords[io].o[k] < 0)] ? 0.05 : 0.0);
        mocc::ArrayB1 aux(n);
        std::vector<double> S(n), qv(n), phi(n), old;
        bool spiky = d.chance(0.3);
        for (int i = 0; i < n; i++) {
            S[i] = spiky ? (d.chance(0.2) ? 5.0 : 0.0) : d.real(0, 1.5);
            aux(i) = S[i];
            phi[i] = sw->flux()(i, g);
        }
        std::vector<double> others;
        for (int i = 0; i < n; i++) for (int h = 0; h < ng; h++) if (h != g) others.push_back(sw->flux()(i, h));
        for (int it = 0;; it++) {
            old = phi;
            for (int i = 0; i < n; i++) qv[i] = (S[i] + sc[g][i] * phi[i]) / (4 * PI_);
            auto oin = R.in;
            sweep(R, tr[g], qv);
            phi = R.flux;
            any_fix = any_fix || R.fixups;
            double ch = 0, mx = 0;
            for (int i = 0; i < n; i++) { ch = std::max(ch, std::fabs(phi[i] - old[i])); mx = std::max(mx, std::fabs(phi[i])); }
            for (int io = 0; io < nd; io++)
                for (int k = 0; k < (R.two_d ? 2 : 3); k++)
                    for (size_t b = 0; b < R.in[io][k].size(); b++) ch = std::max(ch, std::fabs(R.in[io][k][b] - oin[io][k][b]));
            if (!(mx < 1e6)) c.discard("does not converge");
            if (any_refl ? ch < 1e-12 * mx : it + 1 == inner) break;
            if (it > 450) c.discard("slow to converge");
        }
        src->initialize_group(g);
        src->auxiliary(aux);
        sw->sweep(g);
        double mx = 0, mj = 0;
        for (double v : phi) mx = std::max(mx, std::fabs(v));
        for (double v : R.J) mj = std::max(mj, std::fabs(v));
        bool clipped = false;
        for (int i = 0; i < n; i++) {
            int ci = m->coarse_cell(mocc::Position(i % p.nx, i / p.nx % p.ny, i / nxy));
            clipped = clipped || phi[i] < 1e-7 * mx;
            c.close(sw->flux()(ci, g), std::max(phi[i], 0.0), 0, 1e-10 * mx, "flux", fmt("group %d cell (%d,%d,%d)", g, i % p.nx, i / p.nx % p.ny, i / nxy));
        }
        size_t o = 0;
        for (int i = 0; i < n; i++) for (int h = 0; h < ng; h++) if (h != g) c.check(sw->flux()(i, h) == others[o++], "other-group", "sweeping a group changes another");
        if (coarse) {
            for (int i = 0; i < n; i++) {
                int ci = m->coarse_cell(mocc::Position(i % p.nx, i / p.nx % p.ny, i / nxy));
                double leak = 0, scale = 0;
                double dzi = R.dz[i / nxy];
                for (int f = 0; f < (R.two_d ? 4 : 6); f++) {
                    double J = cd.current(m->coarse_surf(ci, (mocc::Surface)f), g);
                    double area = f < 4 ? p.pitch * dzi : p.pitch * p.pitch;
                    c.close(J, R.J[i * 6 + f], 0, 1e-10 * std::max(mj, mx), "current",
                            fmt("group %d cell (%d,%d,%d) face %s", g, i % p.nx, i / p.nx % p.ny, i / nxy, face_name[f]));
                    leak += (f == EAST || f == NORTH || f == TOP ? 1 : -1) * J * area;
                    scale += mx * area;
                }
                if ((inner == 1 || any_refl) && !clipped) {
                    double now = sw->flux()(ci, g), loss = tr[g][i] * now * vol[i], gain = (S[i] + sc[g][i] * (any_refl ? now : old[i])) * vol[i];
                    c.close(leak + loss, gain, 0, 1e-8 * (scale + loss + gain), "balance", fmt("group %d cell (%d,%d,%d)", g, i % p.nx, i / p.nx % p.ny, i / nxy));
                }
            }
        }
        if (clipped) c.label("negative fluxes set to zero");
    }
    c.nontrivial(n > 1 && (any_refl || inner > 1 || coarse || cdd));
    c.label(fmt("%s %s", cdd ? "cdd" : "dd", R.two_d ? "2-D" : axn[R.axial]));
    if (any_fix) c.label("fix-ups");
    if (any_refl) c.label("reflecting, converged");
    if (coarse) c.label("currents");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C16";
    s.fn = run;
    s.rule = "several cells, and reflecting faces, repeated scattering, currents or correction factors";
    s.oracle = "an independent cell-by-cell solution of balance plus the selected closure; cell balance of the reported fluxes and currents";
    s.quick_cases = 8000;
    s.thorough_cases = 100000;
    s.batch = 1;
    s.assumptions = {"tolerance 1e-10 (1e-8 for balances) of the largest flux", "planes joined in a group are identical and share correction factors",
                     "the multiple-balance option ignores correction factors in 3-D, as the code documents in place",
                     "negative cell fluxes are reported as zero; cells are then left out of the balance"};
    return pbt::pbt_main(argc, argv, s);
}
