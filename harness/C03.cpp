// flavor: opt
// C03: a ray is cut into exactly the regions it crosses
#include "rays.hpp"
#include "sweepers/moc/ray.hpp"
using namespace model;

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 1;
    lo.max_mats   = 2;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 7;
    go.max_planes = 3;
    go.max_sub = 5;
    go.max_rings = 3;
    go.max_sub_rad = 3;
    go.random_ids = false;
    Problem p = gen_geom(d, lib, go);
    int nl = (int)d.range(1, 12);
    std::vector<RayLine> ls;
    for (int i = 0; i < nl; i++) ls.push_back(gen_line(d, p, c));
    int iz = (int)d.range(0, p.nz - 1);
    c.desc << p.geom_xml() << "plane " << iz << "\n";
    for (auto &l : ls) c.desc << fmt("ray (%.17g,%.17g) -> (%.17g,%.17g)\n", l.x1, l.y1, l.x2, l.y2);
    auto m = make_mesh(p, c.dir);
    auto map = region_map(p, *m);
    std::map<int, Region> who;
    for (auto &kv : map) who[kv.second] = kv.first;
    int first = m->first_reg_plane(iz), npl = 0;
    for (int iy = 0; iy < p.ny; iy++)
        for (int ix = 0; ix < p.nx; ix++) npl += p.mesh(ix, iy, iz).nreg();
    size_t most = 0;
    for (auto &l : ls) {
        mocc::moc::Ray ray(mocc::Point2(l.x1, l.y1), mocc::Point2(l.x2, l.y2), {{0, 0}}, m->unique_plane_id(iz), *m);
        auto w = fmt("ray (%.17g,%.17g)->(%.17g,%.17g)", l.x1, l.y1, l.x2, l.y2);
        double L = std::hypot(l.x2 - l.x1, l.y2 - l.y1);
        int n = ray.nseg();
        c.check(n > 0 && (int)ray.seg_len().size() == n && (int)ray.seg_index().size() == n, "segment-count", w);
        double tot = 0;
        std::map<Region, double> got, want;
        for (int i = 0; i < n; i++) {
            double s = ray.seg_len(i);
            c.check(s > 0, "segment-positive", w + fmt(" segment %d length %g", i, s));
            int r = ray.seg_index(i);
            c.check(r >= 0 && r < npl, "segment-index", w);
            auto R = who[first + r];
            got[R] += s;
            // three points of the segment lie where the segment says
            for (double f : {0.02, 0.5, 0.98}) {
                double t = (tot + f * s) / L;
                Pt q{l.x1 + t * (l.x2 - l.x1), l.y1 + t * (l.y2 - l.y1), 0.5 * (p.z[iz] + p.z[iz + 1])};
                if (p.clearance(q) < 1e-8 * p.pitch) continue;
                c.check(p.region(q) == R, "segment-region", w + fmt(" segment %d of %d, at (%.15g,%.15g)", i, n, q.x, q.y));
            }
            tot += s;
        }
        c.close(tot, L, 1e-11, 0, "chord", w);
        bool ok = true;
        auto ps = pieces(p, iz, l.x1, l.y1, l.x2, l.y2);
        for (auto &q : ps) { want[q.r] += (q.t1 - q.t0) * L; if (!q.clear && q.t1 - q.t0 > 1e-9) ok = false; }
        if (ok) {
            for (auto &kv : want) c.close(got.count(kv.first) ? got[kv.first] : 0.0, kv.second, 1e-9, 1e-6 * p.pitch, "region-length", w);
            for (auto &kv : got) c.close(kv.second, want.count(kv.first) ? want[kv.first] : 0.0, 1e-9, 1e-6 * p.pitch, "region-length", w);
        } else
            c.label("runs along a surface");
        if (l.special) c.label("special slope");
        most = std::max(most, want.size());
    }
    c.nontrivial(most > 3);
    if (p.ny > p.nx) c.label("taller than wide");
    if (p.nx > p.ny) c.label("wider than tall");
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C03";
    s.rule = "some ray crosses at least four different regions";
    s.oracle = "point location of the reference geometry along the line, exact crossing lengths, chord";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.batch = 50;
    s.fn = run;
    return pbt::pbt_main(argc, argv, s);
}
