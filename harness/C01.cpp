// flavor: opt
// C01: flat-source-region volumes tile the core
#include "mocc_util.hpp"
using namespace model;

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 2;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 6;
    go.max_planes = 5;
    go.max_sub = 5;
    go.max_rings = 3;
    go.max_sub_rad = 4;
    Problem p = gen_geom(d, lib, go);
    c.desc << p.geom_xml();
    c.key = p.geom_xml();
    auto m = make_mesh(p, c.dir);
    auto regs = p.regions();
    int n = p.n_reg();
    bool cyl = false, six = false;
    for (auto &q : p.meshes) { cyl |= q.cyl; six |= q.cyl && q.azi == 6; }
    c.nontrivial(regs.size() > 1 && cyl);
    if (six) c.label("six sectors");
    if (p.nz > 1) c.label("several planes");
    if (!p.asys[0].groups.empty()) c.label("macroplanes");

    c.check((int)m->n_reg(mocc::MeshTreatment::TRUE) == n, "region-count");
    auto v = m->volumes(mocc::MeshTreatment::TRUE);
    c.check((int)v.size() == n, "volume-count");
    auto map = region_map(p, *m);
    std::set<int> seen;
    double tot = 0;
    std::vector<double> pin(p.nx * p.ny * p.nz, 0.0);
    for (auto &r : regs) {
        int i = map[r];
        c.check(i >= 0 && i < n, "region-index", fmt("index %d of %d", i, n));
        c.check(seen.insert(i).second, "region-shared", fmt("region %d used twice", i));
        c.check(v[i] > 0, "volume-positive", fmt("volume %g", v[i]));
        c.close(v[i], p.area(r) * p.dz(r.pz), 1e-9, 0, "region-volume",
                fmt("pin (%d,%d,%d) cell (%d,%d)", r.px, r.py, r.pz, r.a, r.b));
        pin[(r.pz * p.ny + r.py) * p.nx + r.px] += v[i];
        tot += v[i];
    }
    c.close(tot, p.Lx() * p.Ly() * p.Lz(), 1e-11, 0, "core-volume");
    for (int iz = 0; iz < p.nz; iz++)
        for (int i = 0; i < p.nx * p.ny; i++)
            c.close(pin[iz * p.nx * p.ny + i], p.pitch * p.pitch * p.dz(iz), 1e-11, 0, "pin-volume");

    // homogenised treatments
    auto vp = m->volumes(mocc::MeshTreatment::PIN);
    c.check((int)vp.size() == p.nx * p.ny * p.nz && vp.size() == m->n_reg(mocc::MeshTreatment::PIN), "pin-count");
    for (int iz = 0; iz < p.nz; iz++)
        for (int i = 0; i < p.nx * p.ny; i++)
            c.close(vp[iz * p.nx * p.ny + i], p.pitch * p.pitch * p.dz(iz), 1e-11, 0, "pin-treatment-volume");
    auto g   = p.groups();
    auto vpp = m->volumes(mocc::MeshTreatment::PIN_PLANE);
    c.check(vpp.size() == g.size() * p.nx * p.ny && vpp.size() == m->n_reg(mocc::MeshTreatment::PIN_PLANE), "pin-plane-count");
    auto vm = m->volumes(mocc::MeshTreatment::PLANE);
    c.check(vm.size() == m->n_reg(mocc::MeshTreatment::PLANE), "plane-count");
    int iz = 0;
    size_t off = 0, toff = 0;
    for (size_t k = 0; k < g.size(); k++) {
        double h = p.z[iz + g[k]] - p.z[iz];
        for (int i = 0; i < p.nx * p.ny; i++)
            c.close(vpp[k * p.nx * p.ny + i], p.pitch * p.pitch * h, 1e-11, 0, "pin-plane-volume");
        int nr = 0;
        for (int iy = 0; iy < p.ny; iy++)
            for (int ix = 0; ix < p.nx; ix++) nr += p.mesh(ix, iy, iz).nreg();
        c.check(off + nr <= vm.size(), "plane-count");
        double s = 0;
        for (int i = 0; i < nr; i++) {
            c.close(vm[off + i], v[toff + i] / p.dz(iz) * h, 1e-10, 0, "plane-volume");
            s += vm[off + i];
        }
        c.close(s, p.Lx() * p.Ly() * h, 1e-11, 0, "macroplane-volume");
        off += nr;
        for (int j = 0; j < g[k]; j++, iz++)
            for (int iy = 0; iy < p.ny; iy++)
                for (int ix = 0; ix < p.nx; ix++) toff += p.mesh(ix, iy, iz).nreg();
    }
    c.check(off == vm.size(), "plane-count");
    c.check((int)toff == n, "region-count");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C01";
    s.rule = "the core has more than one region and at least one cylindrical pin mesh; distinct geometry texts are counted";
    s.oracle = "closed-form ring/sector/rectangle areas from the input; sums against pin and core boxes";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.batch = 50;
    s.fn = run;
    return pbt::pbt_main(argc, argv, s);
}
