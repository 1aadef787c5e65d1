// flavor: opt
// C02: every point of the core is located in a region that carries the
// material the input describes there
#include "mocc_util.hpp"
#include "core/xs_mesh.hpp"
using namespace model;

static void same(Case &c, const Mat &m, const mocc::XSMeshRegion &x, int ng, const std::string &w) {
    c.check(x.n_group() == ng, "groups", w);
    c.check(x.is_fissile() == m.fissile(), "material", w + " fissile flag");
    for (int g = 0; g < ng; g++) {
        c.close(x.xsmactr(g), m.tr(g), 1e-12, 0, "material", w + " transport");
        c.close(x.xsmacnf(g), m.nuf[g], 1e-12, 0, "material", w + " nu-fission");
        c.close(x.xsmacf(g), m.fis[g], 1e-12, 0, "material", w + " fission");
        c.close(x.xsmacch(g), m.chin(g), 1e-12, 0, "material", w + " chi");
        c.close(x.xsmacrm(g), m.tr(g) - m.sc[g][g], 1e-12, 1e-13, "material", w + " removal");
        auto &row = x.xsmacsc(g);
        for (int f = 0; f < ng; f++) {
            double v = f >= row.min_g && f <= row.max_g ? row[f] : 0.0;
            c.close(v, m.sc[g][f], 1e-12, 0, "material", w + " scattering");
        }
    }
}

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats   = 6;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 6;
    go.max_planes = 5;
    go.max_sub = 4;
    go.max_rings = 3;
    go.max_sub_rad = 3;
    go.allow_fuel_attr = true;
    go.mixed_groups = d.chance(0.15);
    Problem p = gen_geom(d, lib, go);
    if (d.chance(0.15)) { // a core that is switched off
        auto *id = &p.asys[d.range(0, p.asys.size() - 1)].id;
        std::string decoy = "<core nx=\"1\" ny=\"1\" enabled=\"" + d.pick(std::vector<std::string>{"f", "false", "0"}) + "\" north=\"vacuum\" south=\"vacuum\" east=\"vacuum\" west=\"vacuum\" top=\"vacuum\" bottom=\"vacuum\"> " + std::to_string(*id) + " </core>\n";
        (d.chance(0.5) ? p.before_core : p.after_core) = decoy;
        c.label("a core that is not enabled");
    }
    int npt = (int)d.range(1, 40);
    struct Q { Pt p; double al, th, lx = 0, ly = 0; bool inner = false; };
    std::vector<Q> pts;
    for (int i = 0; i < npt; i++) {
        Q q;
        q.p = {d.real(0, 1) * p.Lx(), d.real(0, 1) * p.Ly(), d.real(0, 1) * p.Lz()};
        q.al = d.real(0, 2 * PI_);
        q.th = d.real(0.01, PI_ - 0.01);
        pts.push_back(q);
    }
    // points on boundaries of regions, which belong to the side they are going to
    std::vector<Q> edge;
    for (int i = (int)d.range(0, 12); i > 0; i--) {
        Q q;
        int px = (int)d.range(0, p.nx - 1), py = (int)d.range(0, p.ny - 1), pz = (int)d.range(0, p.nz - 1);
        auto &pm = p.mesh(px, py, pz);
        double x = d.real(-.5, .5) * p.pitch, y = d.real(-.5, .5) * p.pitch, z = d.real(0, 1);
        int kind = (int)d.range(0, 5);
        if (kind == 0) z = d.range(0, 1);
        else if (kind == 1) x = (d.range(0, 1) - .5) * p.pitch;
        else if (kind == 2) y = (d.range(0, 1) - .5) * p.pitch;
        else if (pm.cyl) {
            auto rr = pm.rings();
            double a = kind == 4 ? d.real(0, 2 * PI_) : d.range(0, pm.azi - 1) * 2 * PI_ / pm.azi;
            double r = kind == 5 ? d.real(0.05, 0.5) * p.pitch : rr[d.range(0, rr.size() - 1)];
            x = r * std::cos(a);
            y = r * std::sin(a);
        } else {
            if (kind != 4) x = ((double)d.range(0, pm.nx) / pm.nx - .5) * p.pitch;
            if (kind != 5) y = ((double)d.range(0, pm.ny) / pm.ny - .5) * p.pitch;
        }
        q.inner = kind > 2; // a boundary within the pin
        // whether a number is zero depends on how it was computed
        if (q.inner && !pm.cyl) x = std::fabs(x) < 1e-9 * p.pitch ? .1 * p.pitch : x, y = std::fabs(y) < 1e-9 * p.pitch ? .1 * p.pitch : y;
        q.lx = x;
        q.ly = y;
        q.p = {(px + .5) * p.pitch + x, (py + .5) * p.pitch + y, p.z[pz] + z * p.dz(pz)};
        q.al = d.real(0, 2 * PI_);
        q.th = d.real(0.1, PI_ - 0.1);
        edge.push_back(q);
    }
    c.desc << p.mats_xml() << p.geom_xml();
    for (auto &q : edge) c.desc << fmt("(%.17g %.17g %.17g) towards %.17g %.17g\n", q.p.x, q.p.y, q.p.z, q.al, q.th);
    auto m = make_mesh(p, c.dir);
    int n = p.n_reg(), ng = lib.ng;
    c.check((int)m->n_reg(mocc::MeshTreatment::TRUE) == n, "region-count");

    mocc::XSMesh xs(*m, mocc::MeshTreatment::TRUE);
    c.check((int)xs.n_group() == ng, "groups");
    std::vector<int> owner(n, -1);
    for (size_t i = 0; i < xs.size(); i++)
        for (int r : xs[i].reg()) {
            c.check(r >= 0 && r < n, "xs-index");
            c.check(owner[r] < 0, "xs-shared", fmt("region %d has two materials", r));
            owner[r] = i;
        }
    for (int r = 0; r < n; r++) c.check(owner[r] >= 0, "xs-missing", fmt("region %d has no material", r));

    // every region, through its interior point
    std::map<int, Region> who;
    auto map = region_map(p, *m);
    std::set<int> mats;
    for (auto &kv : map) {
        c.check(kv.second >= 0 && kv.second < n, "region-index");
        c.check(who.insert({kv.second, kv.first}).second, "region-shared",
                fmt("region %d holds two different places", kv.second));
        int s = p.mat_slot_of(kv.first);
        mats.insert(s);
        same(c, p.mat(s), xs[owner[kv.second]], ng,
             fmt("pin (%d,%d,%d) cell (%d,%d)", kv.first.px, kv.first.py, kv.first.pz, kv.first.a, kv.first.b));
    }
    // random points and directions
    int used = 0;
    for (auto &q : pts) {
        if (p.clearance(q.p) < 1e-7 * p.pitch) continue;
        used++;
        auto r = p.region(q.p);
        int i  = code_region(*m, q.p, mocc::Direction(q.al, q.th));
        auto w = fmt("point (%.12g,%.12g,%.12g)", q.p.x, q.p.y, q.p.z);
        c.check(who.count(i) > 0, "region-index", w);
        c.check(who[i] == r, "point-region", w);
        auto info = m->get_location_info(mocc::Point3(q.p.x, q.p.y, q.p.z), mocc::Direction(q.al, q.th));
        c.check(info.pos.x == r.px && info.pos.y == r.py && info.pos.z == r.pz, "pin-position", w);
        auto &b = info.pin_boundary;
        c.close(b[0].x, r.px * p.pitch, 1e-12, 1e-12, "pin-bounds", w);
        c.close(b[1].x, (r.px + 1) * p.pitch, 1e-12, 1e-12, "pin-bounds", w);
        c.close(b[0].y, r.py * p.pitch, 1e-12, 1e-12, "pin-bounds", w);
        c.close(b[1].y, (r.py + 1) * p.pitch, 1e-12, 1e-12, "pin-bounds", w);
        c.close(b[0].z, p.z[r.pz], 1e-12, 1e-12, "pin-bounds", w);
        c.close(b[1].z, p.z[r.pz + 1], 1e-12, 1e-12, "pin-bounds", w);
        c.close(info.local_point.x, q.p.x - (r.px + .5) * p.pitch, 0, 1e-11, "local-point", w);
        c.close(info.local_point.y, q.p.y - (r.py + .5) * p.pitch, 0, 1e-11, "local-point", w);
        // the 2-D interface used by ray tracing
        mocc::Point2 p2(q.p.x, q.p.y);
        int first = m->first_reg_plane(r.pz);
        auto tup  = m->get_pinmesh(p2, m->unique_plane_id(r.pz), first);
        int j = first + tup.pm->find_reg(mocc::Point2(q.p.x - p2.x, q.p.y - p2.y));
        c.check(j == i, "plane-point-region", w);
        c.check(tup.position.x == r.px && tup.position.y == r.py, "pin-position", w);
    }

    int edges = 0;
    for (auto &q : edge) {
        mocc::Direction dir(q.al, q.th);
        auto ahead = [&](double e) { return Pt{q.p.x + e * p.pitch * dir.ox, q.p.y + e * p.pitch * dir.oy, q.p.z + e * p.pitch * dir.oz}; };
        Pt far = ahead(1e-4), near = ahead(1e-11);
        auto in = [&](const Pt &t) { return t.x > 0 && t.y > 0 && t.z > 0 && t.x < p.Lx() && t.y < p.Ly() && t.z < p.Lz(); };
        // not leaving the core, not about to meet another boundary and not going along this one
        if (!in(far) || !in(near) || !(p.region(far) == p.region(near)) || p.clearance(far) < 1e-6 * p.pitch || p.clearance(near) < 1e-12 * p.pitch) continue;
        edges++;
        auto w = fmt("on a boundary, point (%.17g,%.17g,%.17g) direction %.17g %.17g", q.p.x, q.p.y, q.p.z, q.al, q.th);
        auto r = p.region(far);
        int i;
        if (q.inner) {
            Pt mid{(r.px + .5) * p.pitch + .01 * p.pitch, (r.py + .5) * p.pitch + .01 * p.pitch, (p.z[r.pz] + p.z[r.pz + 1]) / 2};
            auto info = m->get_location_info(mocc::Point3(mid.x, mid.y, mid.z), dir);
            if (std::fabs(q.lx) > (.5 - 1e-9) * p.pitch || std::fabs(q.ly) > (.5 - 1e-9) * p.pitch) continue;
            i = info.reg_offset + info.pm->find_reg(mocc::Point2(q.lx, q.ly), dir);
        } else
            i = code_region(*m, q.p, dir);
        c.check(who.count(i) > 0, "edge-region", w);
        c.check(who[i] == r, "edge-region", w);
    }
    if (edges) c.label("points on boundaries");

    // pins in order hold the regions in order
    {
        int ip = 0, reg = 0;
        for (const auto *pin : *m) {
            auto pos = m->pin_position(ip);
            auto w = fmt("pin %d at (%d,%d,%d)", ip, (int)pos.x, (int)pos.y, (int)pos.z);
            for (int k = 0; k < pin->n_reg(); k++, reg++) {
                c.check(who.count(reg) > 0, "pin-regions", w);
                auto &r = who[reg];
                c.check(r.px == pos.x && r.py == pos.y && r.pz == pos.z, "pin-regions", w + fmt(" holds region %d of (%d,%d,%d)", reg, r.px, r.py, r.pz));
            }
            ip++;
        }
        c.check(reg == n && ip == p.nx * p.ny * p.nz, "pin-regions", fmt("%d pins, %d regions", ip, reg));
    }

    c.nontrivial(used > 0 && mats.size() > 1 && n > 3);
    if (p.cnx * p.cny > 1) c.label("several assemblies");
    if (p.nz > 1) c.label("several planes");
    if (!p.asys[0].groups.empty()) c.label("macroplanes");
    if (go.mixed_groups) return; // what a macroplane of different planes is, is not said

    // macroplane treatment
    mocc::XSMesh xp(*m, mocc::MeshTreatment::PLANE);
    int np = m->n_reg(mocc::MeshTreatment::PLANE);
    std::vector<int> own(np, -1);
    for (size_t i = 0; i < xp.size(); i++)
        for (int r : xp[i].reg()) {
            c.check(r >= 0 && r < np, "xs-plane-index");
            c.check(own[r] < 0, "xs-plane-shared");
            own[r] = i;
        }
    int iz = 0, off = 0;
    for (int g : p.groups()) {
        int nr = 0, first = m->first_reg_plane(iz);
        for (int iy = 0; iy < p.ny; iy++)
            for (int ix = 0; ix < p.nx; ix++) nr += p.mesh(ix, iy, iz).nreg();
        for (int i = 0; i < nr; i++) {
            c.check(off + i < np && own[off + i] >= 0, "xs-plane-missing");
            same(c, p.mat(p.mat_slot_of(who[first + i])), xp[own[off + i]], ng, fmt("macroplane region %d", off + i));
        }
        off += nr;
        iz += g;
    }
    c.check(off == np, "xs-plane-index");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C02";
    s.rule = "more than one material is in use, more than three regions, and at least one random point clear of boundaries";
    s.oracle = "reference reading of the input language evaluated at every region and at random points";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.batch = 50;
    s.fn = run;
    return pbt::pbt_main(argc, argv, s);
}
