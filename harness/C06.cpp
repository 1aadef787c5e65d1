// flavor: opt
// C06: coarse-mesh indices form one consistent Cartesian complex
#include "mocc_util.hpp"
using namespace model;
using mocc::Surface;
using mocc::Normal;
using mocc::Boundary;
using mocc::Position;

static const Surface S6[6] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};

static void check_mesh(Draw &d, Case &c, const mocc::Mesh &m, const std::vector<double> &x, const std::vector<double> &y,
                       const std::vector<double> &z, const std::array<Boundary, 6> &bc) {
    int nx = x.size() - 1, ny = y.size() - 1, nz = z.size() - 1;
    c.check((int)m.nx() == nx && (int)m.ny() == ny && (int)m.nz() == nz, "dims", "cells per axis");
    auto dims = m.dimensions();
    c.check(dims.size() == 3 && dims[0] == nx && dims[1] == ny && dims[2] == nz, "dims", "dimensions()");
    c.check(m.n_pin() == nx * ny * nz, "n-cells", "");
    int per = nx * ny + (nx + 1) * ny + (ny + 1) * nx;
    int ns = per * nz + nx * ny;
    c.check((int)m.n_surf() == ns, "n-surfaces", fmt("%d, expected %d", (int)m.n_surf(), ns));
    c.check((int)m.n_surf_plane() == per && (int)m.n_cell_plane() == nx * ny, "per-plane", "");
    c.close(m.hx_core(), x[nx], 1e-12, 0, "extent", "x");
    c.close(m.hy_core(), y[ny], 1e-12, 0, "extent", "y");
    for (int i = 0; i < 6; i++) c.check(m.boundary_condition(S6[i]) == bc[i], "bc", fmt("%d", i));
    auto ba = m.boundary_array();
    c.check(ba[0][0] == bc[2] && ba[0][1] == bc[0] && ba[1][0] == bc[3] && ba[1][1] == bc[1] && ba[2][0] == bc[5] && ba[2][1] == bc[4],
            "bc-array", "");
    struct Seen { int neg = -1, pos = -1; int norm = -1; double area = -1; };
    std::vector<Seen> seen(ns);
    for (int k = 0; k < nz; k++)
        for (int j = 0; j < ny; j++)
            for (int i = 0; i < nx; i++) {
                int cell = m.coarse_cell(Position(i, j, k));
                auto w = fmt("cell (%d,%d,%d)", i, j, k);
                c.check(cell == (k * ny + j) * nx + i, "cell-order", w);
                auto p = m.coarse_position(cell);
                c.check(p.x == i && p.y == j && p.z == k, "cell-position", w);
                double h[3] = {x[i + 1] - x[i], y[j + 1] - y[j], z[k + 1] - z[k]};
                c.close(m.coarse_volume(cell), h[0] * h[1] * h[2], 1e-11, 0, "volume", w);
                c.close(m.dx(i), h[0], 1e-11, 0, "dx", w);
                c.close(m.dy(j), h[1], 1e-11, 0, "dy", w);
                c.close(m.dz(k), h[2], 1e-11, 0, "dz", w);
                c.close(m.cell_thickness(cell, Normal::X_NORM), h[0], 1e-11, 0, "thickness", w);
                c.close(m.cell_thickness(cell, Normal::Y_NORM), h[1], 1e-11, 0, "thickness", w);
                c.close(m.cell_thickness(cell, Normal::Z_NORM), h[2], 1e-11, 0, "thickness", w);
                c.check(cell >= m.plane_cell_begin(k) && cell < m.plane_cell_end(k), "plane-cells", w);
                c.check(m.coarse_cell_offset(k) == k * nx * ny && m.coarse_surf_offset(k) == k * per, "offsets", w);
                for (int s = 0; s < 6; s++) {
                    auto ws = w + fmt(" side %d", s);
                    int ax = s == 0 || s == 2 ? 0 : s == 1 || s == 3 ? 1 : 2;
                    bool plus = s == 0 || s == 1 || s == 4;
                    int q[3] = {i, j, k}, n[3] = {nx, ny, nz};
                    q[ax] += plus ? 1 : -1;
                    int nb = q[ax] < 0 || q[ax] >= n[ax] ? -1 : (q[2] * ny + q[1]) * nx + q[0];
                    c.check(m.coarse_neighbor(cell, S6[s]) == nb, "neighbour", ws);
                    int sf = m.coarse_surf(cell, S6[s]);
                    c.check(sf >= 0 && sf < ns, "surface-range", ws);
                    double area = h[(ax + 1) % 3] * h[(ax + 2) % 3];
                    c.close(m.coarse_area(cell, S6[s]), area, 1e-11, 0, "area-side", ws);
                    if (!(s == 4 && k == nz - 1)) c.close(m.coarse_area(sf), area, 1e-11, 0, "area-surface", ws);
                    else c.close(m.coarse_area(sf), area, 1e-11, 0, "area-top", ws);
                    c.check((int)m.surface_normal(sf) == ax, "normal", ws);
                    auto &e = seen[sf];
                    c.check(e.norm == -1 || e.norm == ax, "surface-reused", ws);
                    e.norm = ax;
                    int &slot = plus ? e.neg : e.pos; // the cell on the negative side names it its plus surface
                    c.check(slot == -1, "surface-shared", ws);
                    slot = cell;
                    // ranges: the surfaces of a plane, its lower face first
                    if (s != 4) c.check(sf >= m.plane_surf_begin(k) && sf < m.plane_surf_end(k), "plane-surfaces", ws);
                    else c.check(sf >= m.plane_surf_end(k), "plane-surfaces", ws);
                    c.check((ax == 2) == (sf < m.plane_surf_xy_begin(sf / per)), "plane-xy", ws);
                    if (nb >= 0) {
                        auto in = m.coarse_interface(cell, nb);
                        c.check((int)in.first == sf && in.second == S6[s], "interface", ws);
                    }
                }
            }
    for (int s = 0; s < ns; s++) {
        auto w = fmt("surface %d", s);
        c.check(seen[s].norm >= 0, "surface-unused", w);
        auto nb = m.coarse_neigh_cells(s);
        c.check(nb.first == seen[s].neg && nb.second == seen[s].pos, "surface-cells",
                w + fmt(": (%d,%d), expected (%d,%d)", nb.first, nb.second, seen[s].neg, seen[s].pos));
    }
    for (int t = 0; t < 6; t++) {
        int i = d.range(0, nx - 1), j = d.range(0, ny - 1), k = d.range(0, nz - 1);
        double u = d.real(0.001, 0.999), v = d.real(0.001, 0.999), t2 = d.real(0.001, 0.999);
        double px = x[i] + u * (x[i + 1] - x[i]), py = y[j] + v * (y[j + 1] - y[j]), pz = z[k] + t2 * (z[k + 1] - z[k]);
        auto w = fmt("point (%.12g,%.12g,%.12g)", px, py, pz);
        c.check(m.coarse_cell_point(mocc::Point2(px, py)) == j * nx + i, "locate-2d", w);
        c.check(m.coarse_cell_point(mocc::Point3(px, py, pz)) == (k * ny + j) * nx + i, "locate-3d", w);
        c.check(m.plane_index(pz) == k, "locate-plane", w);
        c.check(m.plane_index(pz, -0.3) == k && m.plane_index(pz, 0.3) == k, "locate-plane", w);
        c.check(m.plane_index(z[k], 0.4) == k, "plane-edge-up", w);
        c.check(m.plane_index(z[k + 1], -0.4) == k, "plane-edge-down", w);
        // entry and exit cells of points on the boundary, away from corners
        auto cellb = [&](double a, double b, int oct, int ci, int cj) {
            c.check(m.coarse_boundary_cell(mocc::Point2(a, b), oct) == cj * nx + ci, "boundary-cell",
                    fmt("(%.12g,%.12g) octant %d", a, b, oct));
        };
        for (int oct : {1, 4}) cellb(0.0, py, oct, 0, j);
        for (int oct : {2, 3}) cellb(x[nx], py, oct, nx - 1, j);
        for (int oct : {1, 2}) cellb(px, 0.0, oct, i, 0);
        for (int oct : {3, 4}) cellb(px, y[ny], oct, i, ny - 1);
        // the surface a moving point crosses on a single pin boundary
        for (int oct = 1; oct <= 4; oct++) {
            bool east = oct == 1 || oct == 4, north = oct <= 2;
            Surface s[2];
            int ii = d.range(0, nx), jj = d.range(0, ny);
            // entering the domain reports the boundary face itself
            Surface ex = ii == 0 ? Surface::WEST : ii == nx ? Surface::EAST : east ? Surface::EAST : Surface::WEST;
            size_t n1 = m.coarse_norm_point(mocc::Point2(x[ii], py), oct, s);
            c.check(n1 == 1 && s[0] == ex, "norm-point-x", fmt("octant %d line %d", oct, ii));
            Surface ey = jj == 0 ? Surface::SOUTH : jj == ny ? Surface::NORTH : north ? Surface::NORTH : Surface::SOUTH;
            n1 = m.coarse_norm_point(mocc::Point2(px, y[jj]), oct, s);
            c.check(n1 == 1 && s[0] == ey, "norm-point-y", fmt("octant %d line %d", oct, jj));
        }
        // the surfaces at a point of the bottom plane
        {
            int cell = j * nx + i;
            std::array<int, 2> sp;
            auto pt = [&](double a, double b) { return m.coarse_surf_point(mocc::Point2(a, b), cell, sp); };
            c.check(pt(px, py) == 0, "surf-point", w);
            c.check(pt(x[i], py) == 1 && sp[0] == m.coarse_surf(cell, Surface::WEST), "surf-point", w + " west");
            c.check(pt(x[i + 1], py) == 1 && sp[0] == m.coarse_surf(cell, Surface::EAST), "surf-point", w + " east");
            c.check(pt(px, y[j]) == 1 && sp[0] == m.coarse_surf(cell, Surface::SOUTH), "surf-point", w + " south");
            c.check(pt(px, y[j + 1]) == 1 && sp[0] == m.coarse_surf(cell, Surface::NORTH), "surf-point", w + " north");
            // corners: a way from the cell to the one across, or out of the domain, by way of another
            int e = d.range(0, 1), n = d.range(0, 1);
            bool bx = i + e == 0 || i + e == nx, by = j + n == 0 || j + n == ny;
            Surface cx = e ? Surface::EAST : Surface::WEST, cy = n ? Surface::NORTH : Surface::SOUTH;
            auto ws = w + fmt(" corner %d %d", e, n);
            if (!(bx && by)) {
                int k = pt(x[i + e], y[j + n]);
                int ox = bx ? -1 : cell + (e ? 1 : -1), oy = by ? -1 : cell + (n ? nx : -nx);
                if (!bx && !by) {
                    bool viax = k == 2 && sp[0] == m.coarse_surf(cell, cx) && sp[1] == m.coarse_surf(ox, cy);
                    bool viay = k == 2 && sp[0] == m.coarse_surf(cell, cy) && sp[1] == m.coarse_surf(oy, cx);
                    c.check(viax || viay, "surf-point-corner", ws);
                } else {
                    Surface out = bx ? cx : cy, along = bx ? cy : cx;
                    int other = bx ? oy : ox;
                    bool own = k == 1 && sp[0] == m.coarse_surf(cell, out);
                    bool via = k == 2 && sp[0] == m.coarse_surf(other, out) && sp[1] == m.coarse_surf(cell, along);
                    c.check(own || via, "surf-point-corner", ws);
                }
            }
        }
        // faces of the domain a point on the boundary is leaving through
        int side[3] = {(int)d.range(0, 2), (int)d.range(0, 2), (int)d.range(0, 2)};
        double lo[3] = {0, 0, 0}, hi[3] = {x[nx], y[ny], z[nz]}, in[3] = {px, py, pz}, pt[3], o[3];
        std::multiset<int> want;
        for (int a = 0; a < 3; a++) {
            pt[a] = side[a] == 0 ? in[a] : side[a] == 1 ? lo[a] : hi[a];
            o[a] = (d.chance(0.5) ? -1 : 1) * d.real(0.2, 0.9);
            if (side[a] == 1 && o[a] < 0) want.insert(a == 0 ? 2 : a == 1 ? 3 : 5);
            if (side[a] == 2 && o[a] > 0) want.insert(a == 0 ? 0 : a == 1 ? 1 : 4);
        }
        double nn = std::sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
        auto bs = m.boundary_surface(mocc::Point3(pt[0], pt[1], pt[2]), mocc::Direction(o[0] / nn, o[1] / nn, o[2] / nn));
        std::multiset<int> got;
        for (auto s : bs) if (s != Surface::INTERNAL) got.insert((int)s);
        if (want.size() > 1) c.label("leaves through an edge or corner");
        c.check(got == want, "leaving-faces", fmt("point (%.9g,%.9g,%.9g) direction (%.6g,%.6g,%.6g): %d faces, expected %d", pt[0], pt[1], pt[2],
                                                 o[0], o[1], o[2], (int)got.size(), (int)want.size()));
    }
}

static void run(Draw &d, Case &c) {
    bool core = d.chance(0.3);
    if (core) {
        LibOpts lo;
        lo.max_groups = 1;
        Lib lib = gen_lib(d, lo);
        GeomOpts go;
        go.max_pins_x = go.max_pins_y = 6;
        go.max_planes = 5;
        go.max_sub = 1; go.max_rings = 1; go.max_sub_rad = 1;
        Problem p = gen_geom(d, lib, go);
        c.desc << p.geom_xml();
        auto m = make_mesh(p, c.dir);
        std::vector<double> x, y;
        for (int i = 0; i <= p.nx; i++) x.push_back(i * p.pitch);
        for (int i = 0; i <= p.ny; i++) y.push_back(i * p.pitch);
        std::array<Boundary, 6> bc;
        for (int i = 0; i < 6; i++) bc[i] = p.bc[i] == "vacuum" ? Boundary::VACUUM : Boundary::REFLECT;
        check_mesh(d, c, *m, x, y, p.z, bc);
        c.label("core from input");
        c.nontrivial(p.nx > 1 && p.ny > 1 && p.nz > 1);
        return;
    }
    auto axis = [&](int maxn, const char *nm) {
        int n = d.range(1, maxn);
        std::vector<double> v{0.0};
        bool uni = d.chance(0.3);
        double h0 = d.logreal(0.05, 20);
        for (int i = 0; i < n; i++) v.push_back(v.back() + (uni ? h0 : d.logreal(0.05, 20)));
        c.desc << nm;
        for (double a : v) c.desc << fmt(" %.17g", a);
        c.desc << "\n";
        return v;
    };
    auto x = axis(9, "x"), y = axis(9, "y"), z = axis(6, "z");
    std::array<Boundary, 6> bc;
    for (auto &b : bc) b = d.chance(0.5) ? Boundary::REFLECT : Boundary::VACUUM;
    mocc::Mesh m(x.size() * 3, x.size() * 2, x, y, z, bc);
    check_mesh(d, c, m, x, y, z, bc);
    c.nontrivial(x.size() > 2 && y.size() > 2 && z.size() > 2);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C06";
    s.fn = run;
    s.rule = "at least two cells along each axis";
    s.oracle = "indices, neighbours, areas and volumes recomputed from the list of divisions";
    s.quick_cases = 150000;
    s.thorough_cases = 3000000;
    s.batch = 500;
    s.assumptions = {"points to be located lie inside a cell, at least 0.1 % of its size from its sides"};
    return pbt::pbt_main(argc, argv, s);
}
