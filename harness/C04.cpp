// flavor: opt
// C04: the coarse-mesh crossings stored with a ray follow its path
#include "rays.hpp"
#include "sweepers/moc/ray.hpp"
using namespace model;
using mocc::Surface;

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 1;
    lo.max_mats   = 1;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 8;
    go.max_planes = 2;
    go.max_sub = 4;
    go.max_rings = 2;
    go.random_ids = false;
    bool fine = d.chance(0.01); // one very finely divided pin
    if (fine) {
        go.max_pins_x = go.max_pins_y = 2;
        go.max_planes = 1;
        go.cyl = false;
    }
    Problem p = gen_geom(d, lib, go);
    if (fine) {
        auto &mm = p.meshes[p.pins[p.pinmap[0]].mesh];
        mm.nx = (int)d.range(60, 160);
        mm.ny = (int)d.range(60, 160);
        for (auto &q : p.pins) if (&p.meshes[q.mesh] == &mm) q.mats.assign(mm.nx * mm.ny, 0);
        p.finish();
        c.label("very fine pin");
    }
    int nl = (int)d.range(1, 12);
    std::vector<RayLine> ls;
    for (int i = 0; i < nl; i++) ls.push_back(gen_line(d, p, c));
    int iz = (int)d.range(0, p.nz - 1);
    c.desc << p.geom_xml() << "plane " << iz << "\n";
    for (auto &l : ls) c.desc << fmt("ray (%.17g,%.17g) -> (%.17g,%.17g)\n", l.x1, l.y1, l.x2, l.y2);
    auto m = make_mesh(p, c.dir);
    auto map = region_map(p, *m);
    std::map<int, Region> who;
    for (auto &kv : map) who[kv.second] = kv.first;
    int first = m->first_reg_plane(iz);
    double tol = 1e-9 * (1 + p.Lx() + p.Ly());
    int corners = 0, crossings = 0;

    for (auto &l : ls) {
        mocc::moc::Ray ray(mocc::Point2(l.x1, l.y1), mocc::Point2(l.x2, l.y2), {{0, 0}}, m->unique_plane_id(iz), *m);
        int n = ray.nseg();
        double L = std::hypot(l.x2 - l.x1, l.y2 - l.y1);
        for (int back = 0; back < 2; back++) {
            auto w = fmt("ray (%.15g,%.15g)->(%.15g,%.15g) %s", l.x1, l.y1, l.x2, l.y2, back ? "backward" : "forward");
            double ox = back ? l.x2 : l.x1, oy = back ? l.y2 : l.y1;
            double ux = (back ? l.x1 - l.x2 : l.x2 - l.x1) / L, uy = (back ? l.y1 - l.y2 : l.y2 - l.y1) / L;
            int cell = back ? ray.cm_cell_bw() : ray.cm_cell_fw();
            int surf = back ? ray.cm_surf_bw() : ray.cm_surf_fw();
            c.check(cell >= 0 && cell < p.nx * p.ny, "first-cell", w);
            // is a point on the given side of a cell?
            auto on = [&](int cx, int cy, Surface s, double x, double y) {
                double x0 = cx * p.pitch, x1 = x0 + p.pitch, y0 = cy * p.pitch, y1 = y0 + p.pitch;
                switch (s) {
                case Surface::EAST: return std::fabs(x - x1) < tol && y > y0 - tol && y < y1 + tol;
                case Surface::WEST: return std::fabs(x - x0) < tol && y > y0 - tol && y < y1 + tol;
                case Surface::NORTH: return std::fabs(y - y1) < tol && x > x0 - tol && x < x1 + tol;
                case Surface::SOUTH: return std::fabs(y - y0) < tol && x > x0 - tol && x < x1 + tol;
                default: return false;
                }
            };
            int cx = cell % p.nx, cy = cell / p.nx;
            bool found = false;
            for (Surface s : {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH}) {
                bool edge = (s == Surface::EAST && cx == p.nx - 1) || (s == Surface::WEST && cx == 0) ||
                            (s == Surface::NORTH && cy == p.ny - 1) || (s == Surface::SOUTH && cy == 0);
                if (edge && m->coarse_surf(cell, s) == surf && on(cx, cy, s, ox, oy)) {
                    // and the ray goes inwards through it
                    double nrm = s == Surface::EAST ? ux : s == Surface::WEST ? -ux : s == Surface::NORTH ? uy : -uy;
                    found = nrm < 0;
                }
            }
            c.check(found, "first-surface", w);
            int pos = 0;
            double len = 0;
            bool out = false;
            std::vector<std::pair<int, int>> visited;
            for (auto &r : ray.cm_data()) {
                Surface s = back ? r.bw : r.fw;
                int ns    = back ? r.nseg_bw : r.nseg_fw;
                if (s == Surface::INVALID) {
                    c.check(ns == 0, "no-op-entry", w);
                    c.check(out, "no-op-entry", w + " before leaving the core");
                    continue;
                }
                c.check(!out, "past-the-end", w + " crossing after leaving the core");
                if (ns == 0) corners++;
                double len0 = len;
                for (int k = 0; k < ns; k++, pos++) {
                    c.check(pos < n, "segments", w + " more segments than the ray has");
                    int is = back ? n - 1 - pos : pos;
                    auto R = who[first + ray.seg_index(is)];
                    c.check(R.px == cx && R.py == cy, "segment-cell",
                            w + fmt(" segment %d is in pin (%d,%d), walk is in (%d,%d)", is, R.px, R.py, cx, cy));
                    len += ray.seg_len(is);
                }
                double x = ox + ux * len, y = oy + uy * len;
                c.check(on(cx, cy, s, x, y), "crossing", w + fmt(" at (%.15g,%.15g) is not on side %d of cell (%d,%d)", x, y, (int)s, cx, cy));
                // direction of crossing agrees with the direction of flight
                double nrm = s == Surface::EAST ? ux : s == Surface::WEST ? -ux : s == Surface::NORTH ? uy : -uy;
                c.check(nrm > 0, "crossing-direction", w);
                if (ns) visited.push_back({cx, cy});
                (void)len0;
                if (s == Surface::EAST) cx++;
                if (s == Surface::WEST) cx--;
                if (s == Surface::NORTH) cy++;
                if (s == Surface::SOUTH) cy--;
                out = cx < 0 || cy < 0 || cx >= p.nx || cy >= p.ny;
                crossings++;
            }
            c.check(out, "end", w + " does not leave the core");
            c.check(pos == n, "segments", w + fmt(" %d of %d segments used", pos, n));
            c.close(len, L, 1e-11, 0, "length", w);
            // the visited cells are the cells of the reference walk
            auto ps = pieces(p, iz, l.x1, l.y1, l.x2, l.y2);
            if (back) std::reverse(ps.begin(), ps.end());
            std::vector<std::pair<int, int>> ref;
            for (auto &q : ps)
                if ((q.t1 - q.t0) * L > 1e-9 && (ref.empty() || ref.back() != std::make_pair(q.r.px, q.r.py)))
                    ref.push_back({q.r.px, q.r.py});
            c.check(ref == visited, "path", w);
        }
        if (l.special) c.label("special slope");
    }
    c.nontrivial(crossings > 4 * (int)ls.size());
    if (corners) c.label("passes through a corner");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C04";
    s.rule = "the rays of the case cross more than two pin-cell faces each on average; cases with corner crossings are labelled";
    s.oracle = "independent geometric walk: each crossing point must lie on the named side, each segment in the current cell";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.batch = 50;
    s.fn = run;
    return pbt::pbt_main(argc, argv, s);
}
