// flavor: san
// C25: pin fluxes reported by a sweeper are averages of its flux, and imposed ones are taken over exactly
#include "e2e.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
using namespace model;
using mocc::MeshTreatment;

struct Mine {
    const Problem *p;
    bool moc;
    int ng, nxy, ngrp;
    std::vector<int> bot, top;          // planes of each group
    std::vector<int> pin_of, grp_of;    // of each fine region (moc)
    std::vector<double> area;
    std::vector<std::vector<double>> f; // [g][fine region]
    double height(int k) const {
        double h = 0;
        for (int z = bot[k]; z <= top[k]; z++) h += p->dz(z);
        return h;
    }
    int grp(int z) const {
        for (int k = 0; k < ngrp; k++) if (z <= top[k]) return k;
        return -1;
    }
    // flux averaged on each pin of each group of planes
    std::vector<double> grouped(int g) const {
        std::vector<double> v(nxy * ngrp, 0.0);
        if (moc)
            for (size_t i = 0; i < area.size(); i++) v[grp_of[i] * nxy + pin_of[i]] += f[g][i] * area[i] / (p->pitch * p->pitch);
        else
            for (int z = 0; z < p->nz; z++)
                for (int i = 0; i < nxy; i++) v[grp(z) * nxy + i] += f[g][z * nxy + i] * p->dz(z) / height(grp(z));
        return v;
    }
    std::vector<double> each_plane(int g) const {
        if (!moc) return f[g];
        auto v = grouped(g);
        std::vector<double> o;
        for (int z = 0; z < p->nz; z++) for (int i = 0; i < nxy; i++) o.push_back(v[grp(z) * nxy + i]);
        return o;
    }
    double impose(int g, bool planes, std::vector<double> v) {
        if (!moc && planes) {
            double e = 0;
            for (size_t i = 0; i < v.size(); i++) e += (f[g][i] - v[i]) * (f[g][i] - v[i]);
            f[g] = v;
            return std::sqrt(e);
        }
        if (planes) { // only the average over a group can be imposed
            std::vector<double> w(nxy * ngrp, 0.0);
            for (int z = 0; z < p->nz; z++) for (int i = 0; i < nxy; i++) w[grp(z) * nxy + i] += v[z * nxy + i] * p->dz(z) / height(grp(z));
            v = w;
        }
        auto old = grouped(g);
        double e = 0;
        for (size_t i = 0; i < v.size(); i++) e += (old[i] - v[i]) * (old[i] - v[i]);
        if (moc)
            for (size_t i = 0; i < area.size(); i++) f[g][i] *= v[grp_of[i] * nxy + pin_of[i]] / old[grp_of[i] * nxy + pin_of[i]];
        else
            for (int z = 0; z < p->nz; z++)
                for (int i = 0; i < nxy; i++) {
                    int j = grp(z) * nxy + i;
                    f[g][z * nxy + i] = old[j] > 0 ? f[g][z * nxy + i] * v[j] / old[j] : v[j];
                }
        return std::sqrt(e) / (moc ? v.size() : 1.0);
    }
};

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 2;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = 4;
    go.max_pins_y = 4;
    go.max_planes = 5;
    Problem p = gen_geom(d, lib, go);
    Mine M;
    M.p = &p;
    M.ng = lib.ng;
    M.nxy = p.nx * p.ny;
    std::string type = d.pick(std::vector<std::string>{"moc", "sn", "2d3d"});
    M.moc = type == "moc";
    bool expose = d.chance(0.5);
    std::string quad = "<ang_quad type=\"ls\" order=\"4\" />", rays = "<rays spacing=\"" + num(p.pitch * 0.2) + "\" />";
    std::string sx = type == "moc" ? "<sweeper type=\"moc\" n_inner=\"1\">" + quad + rays + "</sweeper>"
                   : type == "sn"  ? "<sweeper type=\"sn\" n_inner=\"1\" equation=\"dd\">" + quad + "</sweeper>"
                                   : "<sweeper type=\"2d3d\"" + std::string(expose ? " expose_sn=\"t\"" : "") + ">" + quad +
                                         "<sn_sweeper n_inner=\"1\" equation=\"cdd\" axial=\"dd\" /><moc_sweeper n_inner=\"1\">" + rays + "</moc_sweeper></sweeper>";
    sx = "<solver>" + sx + "</solver>";
    c.desc << lib.text() << p.geom_xml() << sx << "\n";
    auto m = make_mesh(p, c.dir);
    M.bot = group_bottoms(p);
    M.ngrp = M.bot.size();
    for (int k = 0; k < M.ngrp; k++) M.top.push_back(k + 1 < M.ngrp ? M.bot[k + 1] - 1 : p.nz - 1);
    if (type == "moc") {
        auto pm = plane_region_map(p, *m);
        M.pin_of.resize(pm.size());
        M.grp_of.resize(pm.size());
        M.area.resize(pm.size());
        for (auto &e : pm) {
            M.pin_of[e.second] = e.first.py * p.nx + e.first.px;
            M.grp_of[e.second] = M.grp(e.first.pz);
            M.area[e.second] = p.area(e.first);
        }
    }
    Doc doc(sx);
    std::cout.setstate(std::ios::badbit);
    auto sw = mocc::TransportSweeperFactory(doc.doc.child("solver"), *m);
    sw->initialize();
    int n = type == "moc" ? M.area.size() : type == "sn" ? M.nxy * p.nz : 0, ng = M.ng;
    if (type != "2d3d") c.check((int)sw->n_reg() == n, "size", fmt("%d regions expected %d", (int)sw->n_reg(), n));
    M.f.assign(ng, std::vector<double>(n, 1.0));
    bool coupled = type == "2d3d";
    std::map<int, std::vector<double>> last; // imposed on the coupled sweeper
    int steps = d.range(1, 12);
    auto name = [](bool planes) { return planes ? MeshTreatment::PIN : MeshTreatment::PIN_PLANE; };
    bool grouped = M.ngrp < p.nz, changed = false;
    for (int s = 0; s < steps; s++) {
        int op = d.range(0, 4), g = d.range(0, ng - 1);
        bool planes = d.chance(0.5);
        int size = M.nxy * (planes ? p.nz : M.ngrp);
        if (coupled) planes = planes && !grouped, size = M.nxy * (planes ? p.nz : M.ngrp);
        c.desc << "step " << op << " group " << g << (planes ? " per plane" : " grouped") << "\n";
        if (op == 0 && !coupled) { // some other flux
            for (int i = 0; i < n; i++) sw->flux()(i, g) = M.f[g][i] = type == "sn" && d.chance(0.15) ? 0.0 : d.real(0.05, 3.0);
        } else if (op <= 2) {
            std::vector<double> v(size);
            bool same = op == 2 && d.chance(0.3);
            if (same && !coupled) v = planes ? M.each_plane(g) : M.grouped(g);
            else for (double &x : v) x = d.real(0.05, 3.0);
            bool pos = true;
            for (double x : v) pos = pos && x > 0;
            if (!pos) continue; // a flux of zero is refused by the characteristics sweeper
            if (op == 1) {
                mocc::ArrayB1 a(size);
                for (int i = 0; i < size; i++) a(i) = v[i];
                double r = sw->set_pin_flux_1g(g, a, name(planes));
                if (!coupled) c.close(r, M.impose(g, planes, v), 1e-9, 1e-10, "residual", type);
                else last[g] = v;
            } else {
                mocc::ArrayB2 a(size, ng);
                double e = 0;
                for (int h = 0; h < ng; h++) {
                    for (int i = 0; i < size; i++) a(i, h) = v[i] * (1 + 0.1 * h);
                    auto w = v;
                    for (double &x : w) x *= 1 + 0.1 * h;
                    double eh = coupled ? 0.0 : M.impose(h, planes, w);
                    e += eh * eh;
                    last[h] = w;
                }
                double r = sw->set_pin_flux(a, name(planes));
                if (!coupled) c.close(r, std::sqrt(e), 1e-9, 1e-10, "residual", type);
            }
            changed = true;
        }
        // everything it reports must agree with the model
        for (int h = 0; h < ng && !coupled; h++) {
            for (bool pl : {true, false}) {
                auto e = pl ? M.each_plane(h) : M.grouped(h);
                mocc::ArrayB1 a(e.size());
                a = 7.0;
                sw->get_pin_flux_1g(h, a, name(pl));
                for (size_t i = 0; i < e.size(); i++) c.close(a(i), e[i], 1e-9, 1e-12, "reported", type + fmt(" group %d pin %d of %s", h, (int)i, pl ? "plane" : "group of planes"));
                auto b = sw->get_pin_flux(name(pl));
                for (size_t i = 0; i < e.size(); i++) c.close(b((int)i, h), e[i], 1e-9, 1e-12, "reported-all", type + fmt(" group %d pin %d", h, (int)i));
            }
            for (int i = 0; i < n; i++) c.close(sw->flux()(i, h), M.f[h][i], 1e-9, 1e-12, "shape", type + fmt(" group %d region %d", h, i));
        }
        if (coupled)
            for (auto &l : last) {
                mocc::ArrayB1 a(M.nxy * M.ngrp);
                sw->get_pin_flux_1g(l.first, a, MeshTreatment::PIN_PLANE);
                for (size_t i = 0; i < l.second.size(); i++) c.close(a(i), l.second[i], 1e-9, 1e-12, "reported", fmt("coupled group %d pin %d", l.first, (int)i));
            }
    }
    c.nontrivial(changed && M.nxy * p.nz > 1);
    c.label(type);
    if (grouped) c.label("grouped planes");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C25";
    s.fn = go;
    s.rule = "a flux is imposed on more than one pin cell";
    s.oracle = "a model of the flux in each region, averaged and scaled by itself";
    s.quick_cases = 4000;
    s.thorough_cases = 60000;
    s.batch = 1;
    s.assumptions = {"relative tolerance 1e-9"};
    return pbt::pbt_main(argc, argv, s);
}
