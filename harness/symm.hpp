// Symmetries of the box applied to a problem
#pragma once
#include "e2e.hpp"

namespace model {
enum Symm { MIRROR_X, MIRROR_Y, MIRROR_Z, TRANSPOSE };
const char *const symm_name[4] = {"mirror x", "mirror y", "mirror z", "swap x and y"};

template <class T> void reverse_rows(std::vector<T> &v, int nx) { // entries of each row
    for (size_t i = 0; i + nx <= v.size(); i += nx) std::reverse(v.begin() + i, v.begin() + i + nx);
}
template <class T> void reverse_cols(std::vector<T> &v, int nx) { // order of the rows
    std::vector<T> o;
    for (int i = (int)v.size() / nx - 1; i >= 0; i--) o.insert(o.end(), v.begin() + i * nx, v.begin() + (i + 1) * nx);
    v = o;
}
// input order: rows from the north, (x,y) -> (y,x)
template <class T> void transpose(std::vector<T> &v, int nx, int ny) {
    std::vector<T> o(v.size());
    for (int y = 0; y < ny; y++)
        for (int x = 0; x < nx; x++) o[(nx - 1 - x) * ny + y] = v[(ny - 1 - y) * nx + x];
    v = o;
}

inline void transform_pin(const MeshDef &m, std::vector<int> &mats, Symm s) {
    if (m.cyl) return;
    if (s == MIRROR_X) reverse_rows(mats, m.nx);
    if (s == MIRROR_Y) reverse_cols(mats, m.nx);
    if (s == TRANSPOSE) transpose(mats, m.nx, m.ny);
}

inline Problem transform(Problem p, Symm s) {
    for (auto &q : p.pins) transform_pin(p.meshes[q.mesh], q.mats, s);
    for (auto &m : p.meshes)
        if (s == TRANSPOSE) std::swap(m.nx, m.ny);
    for (auto &l : p.lats) {
        if (s == MIRROR_X) reverse_rows(l.pins, l.nx);
        if (s == MIRROR_Y) reverse_cols(l.pins, l.nx);
        if (s == TRANSPOSE) {
            transpose(l.pins, l.nx, l.ny);
            std::swap(l.nx, l.ny);
        }
    }
    if (s == MIRROR_Z)
        for (auto &a : p.asys) {
            std::reverse(a.lats.begin(), a.lats.end());
            std::reverse(a.hz.begin(), a.hz.end());
            std::reverse(a.groups.begin(), a.groups.end());
        }
    if (s == MIRROR_X) reverse_rows(p.core, p.cnx), std::swap(p.bc[EAST], p.bc[WEST]);
    if (s == MIRROR_Y) reverse_cols(p.core, p.cnx), std::swap(p.bc[NORTH], p.bc[SOUTH]);
    if (s == MIRROR_Z) std::swap(p.bc[TOP], p.bc[BOTTOM]);
    if (s == TRANSPOSE) {
        transpose(p.core, p.cnx, p.cny);
        std::swap(p.cnx, p.cny);
        std::swap(p.bc[EAST], p.bc[NORTH]);
        std::swap(p.bc[WEST], p.bc[SOUTH]);
    }
    p.finish();
    return p;
}

// [z][y][x] values on the pins, transformed
inline std::vector<double> transform(const std::vector<double> &v, int nx, int ny, Symm s) {
    if (nx * ny == 0 || v.size() % (nx * ny)) return {};
    int nz = v.size() / (nx * ny);
    std::vector<double> o(v.size());
    for (int z = 0; z < nz; z++)
        for (int y = 0; y < ny; y++)
            for (int x = 0; x < nx; x++) {
                double a = v[(z * ny + y) * nx + x];
                if (s == MIRROR_X) o[(z * ny + y) * nx + nx - 1 - x] = a;
                if (s == MIRROR_Y) o[(z * ny + ny - 1 - y) * nx + x] = a;
                if (s == MIRROR_Z) o[((nz - 1 - z) * ny + y) * nx + x] = a;
                if (s == TRANSPOSE) o[(z * nx + x) * ny + y] = a;
            }
    return o;
}

// quadrature of the transformed problem: only one given by its angles changes
inline std::string transform_quad(const std::string &xml, Symm s) {
    if (s != TRANSPOSE || xml.find("alpha") == std::string::npos) return xml;
    std::string o;
    size_t at = 0;
    for (;;) {
        size_t k = xml.find("alpha=\"", at);
        if (k == std::string::npos) break;
        k += 7;
        size_t e = xml.find('"', k);
        o += xml.substr(at, k - at) + num(PI_ / 2 - atof(xml.substr(k, e - k).c_str()));
        at = e;
    }
    return o + xml.substr(at);
}
} // namespace model

namespace model {
// The core continued by its mirror image beyond its east or top face
inline Problem extend_east(Problem p) {
    Problem m = transform(p, MIRROR_X);
    auto fresh = [](auto &v, auto &w) { // definitions of w after those of v, with new ids
        int top = 0;
        for (auto &e : v) top = std::max(top, e.id);
        for (auto e : w) {
            e.id += top;
            v.push_back(e);
        }
    };
    int np = p.pins.size(), nl = p.lats.size(), na = p.asys.size();
    for (auto &l : m.lats)
        for (int &i : l.pins) i += np;
    for (auto &a : m.asys)
        for (int &i : a.lats) i += nl;
    fresh(p.pins, m.pins);
    fresh(p.lats, m.lats);
    fresh(p.asys, m.asys);
    std::vector<int> core;
    for (int y = 0; y < p.cny; y++) {
        core.insert(core.end(), p.core.begin() + y * p.cnx, p.core.begin() + (y + 1) * p.cnx);
        for (int x = 0; x < p.cnx; x++) core.push_back(m.core[y * p.cnx + x] + na);
    }
    p.core = core;
    p.cnx *= 2;
    p.bc[EAST] = p.bc[WEST];
    p.finish();
    return p;
}
inline Problem extend_top(Problem p) {
    auto twice = [](auto &v) {
        auto w = v;
        std::reverse(v.begin(), v.end());
        v.insert(v.end(), w.begin(), w.end());
    };
    for (auto &a : p.asys) twice(a.lats), twice(a.hz), twice(a.groups);
    p.bc[TOP] = p.bc[BOTTOM];
    p.finish();
    return p;
}
inline Problem extend(const Problem &p, int face) {
    switch (face) {
    case EAST: return extend_east(p);
    case WEST: return transform(extend_east(transform(p, MIRROR_X)), MIRROR_X);
    case NORTH: return transform(extend_east(transform(p, TRANSPOSE)), TRANSPOSE);
    case SOUTH: return transform(transform(extend_east(transform(transform(p, MIRROR_Y), TRANSPOSE)), TRANSPOSE), MIRROR_Y);
    case TOP: return extend_top(p);
    default: return transform(extend_top(transform(p, MIRROR_Z)), MIRROR_Z);
    }
}
// the same for values on the pins, [z][y][x]
inline std::vector<double> extend(const std::vector<double> &v, int nx, int ny, int nz, int face) {
    bool x = face == EAST || face == WEST, y = face == NORTH || face == SOUTH, z = !x && !y, low = face == WEST || face == SOUTH || face == BOTTOM;
    int mx = x ? 2 * nx : nx, my = y ? 2 * ny : ny, mz = z ? 2 * nz : nz;
    auto back = [&](bool on, int i, int n) { return !on ? i : low ? (i < n ? n - 1 - i : i - n) : (i < n ? i : 2 * n - 1 - i); };
    std::vector<double> o;
    for (int k = 0; k < mz; k++)
        for (int j = 0; j < my; j++)
            for (int i = 0; i < mx; i++) o.push_back(v[(back(z, k, nz) * ny + back(y, j, ny)) * nx + back(x, i, nx)]);
    return o;
}
} // namespace model
