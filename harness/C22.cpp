// flavor: san
// C22: the group source is fission plus scattering plus external source; what a sweep gets adds self-scattering
#include "e2e.hpp"
#include "core/source.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
using namespace model;

static void write_source(const std::string &path, const std::vector<double> &v, int ng, int n) {
    hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hsize_t dims[2] = {(hsize_t)ng, (hsize_t)n};
    hid_t s = H5Screate_simple(2, dims, nullptr);
    hid_t d = H5Dcreate2(f, "source", H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(d);
    H5Sclose(s);
    H5Fclose(f);
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 6;
    lo.max_mats = 4;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = 3;
    go.max_pins_y = 3;
    go.max_planes = 3;
    Problem p = gen_geom(d, lib, go);
    bool moc = d.chance(0.6);
    if (!moc) // one material in each pin, so that homogenisation does not matter
        for (auto &pin : p.pins) std::fill(pin.mats.begin(), pin.mats.end(), pin.mats[0]);
    int ng = lib.ng;
    bool ext = d.chance(0.5);
    std::string file = c.dir + "/source.h5";
    std::string sx = "<solver><sweeper type=\"" + std::string(moc ? "moc" : "sn") + "\" n_inner=\"1\" " + (moc ? "" : "equation=\"dd\"") +
                     (moc && d.chance(0.3) ? " tl_splitting=\"t\"" : "") + "><ang_quad type=\"ls\" order=\"4\" />" +
                     (moc ? "<rays spacing=\"" + num(p.pitch * 0.2) + "\" />" : "") + "</sweeper><source scattering=\"P0\"" +
                     (ext ? " file=\"" + file + "\"" : "") + " /></solver>";
    auto m = make_mesh(p, c.dir);
    // material of each region
    std::vector<const Mat *> mat;
    std::vector<double> vol;
    if (moc) {
        auto pm = plane_region_map(p, *m);
        mat.resize(pm.size());
        vol.resize(pm.size());
        auto bot = group_bottoms(p);
        for (auto &e : pm) {
            mat[e.second] = &p.mat(p.mat_slot_of(e.first));
            double h = 0;
            for (size_t k = 0; k < bot.size(); k++)
                if (bot[k] == e.first.pz)
                    for (int iz = bot[k]; iz < (k + 1 < bot.size() ? bot[k + 1] : p.nz); iz++) h += p.dz(iz);
            vol[e.second] = p.area(e.first) * h;
        }
    } else
        for (int z = 0; z < p.nz; z++)
            for (int y = 0; y < p.ny; y++)
                for (int x = 0; x < p.nx; x++) {
                    Region r{};
                    r.px = x; r.py = y; r.pz = z;
                    mat.push_back(&p.mat(p.mat_slot_of(r)));
                    vol.push_back(p.pitch * p.pitch * p.dz(z));
                }
    int n = mat.size();
    std::vector<double> es;
    if (ext) {
        for (int i = 0; i < n * ng; i++) es.push_back(d.real(0.0, 3.0));
        write_source(file, es, ng, n);
    }
    c.desc << lib.text() << p.geom_xml() << sx << "\n";
    Doc doc(sx);
    auto x = doc.doc.child("solver");
    std::cout.setstate(std::ios::badbit);
    auto sw = mocc::TransportSweeperFactory(x, *m);
    c.check((int)sw->n_reg() == n && (int)sw->n_group() == ng, "size", fmt("%d regions expected %d", (int)sw->n_reg(), n));
    auto src = sw->create_source(x.child("source"));
    int rounds = d.range(1, 4);
    std::vector<std::vector<double>> flux(n, std::vector<double>(ng, 1.0));
    bool up = false;
    for (int r = 0; r < rounds; r++) {
        for (int i = 0; i < n; i++)
            for (int g = 0; g < ng; g++) sw->flux()(i, g) = flux[i][g] = d.chance(0.1) ? 0.0 : d.real(0.1, 4.0);
        // fission source of this flux
        double k = d.real(0.5, 2.0), tot = 0, mag = 0;
        mocc::ArrayB1 fs(n);
        fs = 7.0;
        sw->calc_fission_source(k, fs);
        for (int i = 0; i < n; i++) {
            double f = 0;
            for (int g = 0; g < ng; g++) f += mat[i]->nuf[g] * flux[i][g];
            tot += f * vol[i];
            c.close(fs(i), f / k, 1e-10, 1e-12, "fission-source", fmt("region %d", i));
        }
        if (sw->n_reg() == n) c.close(sw->total_fission(), tot, 1e-8, 1e-10, "total-fission", "");
        if (d.chance(0.5)) // any other fission source
            for (int i = 0; i < n; i++) fs(i) = mat[i]->fissile() ? d.real(0.0, 3.0) : 0.0;
        int g = d.range(0, ng - 1);
        c.desc << "round " << r << " k " << k << " group " << g << "\n";
        std::vector<double> q(n, 0.0), mg(n, 0.0);
        src->initialize_group(g);
        if (ext) for (int i = 0; i < n; i++) q[i] = es[g * n + i];
        for (int i = 0; i < n; i++) c.close((*src)[i], q[i], 1e-13, 0, "external", fmt("region %d", i));
        bool f = d.chance(0.8), s = d.chance(0.8), first = d.chance(0.5);
        auto fission = [&]() {
            if (!f) return;
            src->fission(fs, g);
            for (int i = 0; i < n; i++) q[i] += mat[i]->chin(g) * fs(i);
        };
        auto scatter = [&]() {
            if (!s) return;
            src->in_scatter(g);
            for (int i = 0; i < n; i++)
                for (int h = 0; h < ng; h++)
                    if (h != g) {
                        q[i] += mat[i]->sc[g][h] * flux[i][h];
                        up = up || (h > g && mat[i]->sc[g][h] > 0);
                    }
        };
        if (first) fission(), scatter();
        else scatter(), fission();
        if (d.chance(0.3)) {
            mocc::ArrayB1 aux(n);
            for (int i = 0; i < n; i++) q[i] += aux(i) = d.real(-1.0, 1.0);
            src->auxiliary(aux);
        }
        for (int i = 0; i < n; i++) c.close((*src)[i], q[i], 1e-9, 1e-11, "source", fmt("region %d group %d", i, g));
        // the source a sweep gets
        for (int t = 0; t < 2; t++) {
            bool own = d.chance(0.5);
            mocc::ArrayB1 xs(n);
            for (int i = 0; i < n; i++) xs(i) = d.chance(0.5) ? mat[i]->tr(g) : mat[i]->tr(g) + d.real(0.0, 2.0);
            if (own) src->self_scatter(g, xs);
            else src->self_scatter(g);
            auto &out = src->get_transport(d.range(0, 2));
            for (int i = 0; i < n; i++) {
                double v = (q[i] + mat[i]->sc[g][g] * flux[i][g]) / (4 * PI_) / (own ? xs(i) : 1.0);
                c.close(out[i], v, 1e-9, 1e-11, "transport-source", fmt("region %d group %d", i, g));
            }
            for (int i = 0; i < n; i++) c.close((*src)[i], q[i], 1e-9, 1e-11, "source-kept", fmt("region %d group %d", i, g));
            // the next inner iteration has another flux in this group
            for (int i = 0; i < n; i++) sw->flux()(i, g) = flux[i][g] = d.real(0.1, 4.0);
        }
    }
    c.nontrivial(ng > 1 && n > 1);
    c.label(moc ? "moc" : "sn");
    if (ext) c.label("external");
    if (up) c.label("upscatter");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C22";
    s.fn = go;
    s.rule = "several groups and regions";
    s.oracle = "sums over the cross sections of the input, region by region";
    s.quick_cases = 4000;
    s.thorough_cases = 60000;
    s.batch = 1;
    s.assumptions = {"discrete-ordinates cases have one material in each pin", "relative tolerance 1e-9"};
    return pbt::pbt_main(argc, argv, s);
}
