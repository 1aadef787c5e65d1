// Glue between the reference model and mocc's classes.
#pragma once
#include "model.hpp"
#include "pugixml.hpp"
#include "core/core_mesh.hpp"
#include "util/error.hpp"
#include <memory>

namespace model {
struct Doc {
    pugi::xml_document doc;
    explicit Doc(const std::string &xml) {
        auto r = doc.load_string(xml.c_str());
        if (!r) throw std::logic_error(std::string("harness produced bad XML: ") + r.description() + "\n" + xml);
    }
};

inline std::unique_ptr<mocc::CoreMesh> make_mesh(const Problem &p, const std::string &dir) {
    p.write_lib(dir);
    Doc d(p.xml());
    return std::unique_ptr<mocc::CoreMesh>(new mocc::CoreMesh(d.doc));
}

// a point well inside a model region
inline Pt inside(const Problem &p, const Region &r) {
    auto &m = p.mesh(r.px, r.py, r.pz);
    double x, y, h = m.pitch / 2;
    if (m.cyl) {
        auto rr = m.rings();
        double da = 2 * PI_ / m.azi, lo = r.b * da, hi = lo + da, a = 0.5 * (lo + hi);
        double in = r.a ? rr[r.a - 1] : 0.0, out;
        if (r.a < (int)rr.size())
            out = rr[r.a];
        else {
            a = lo + 0.2 * da;
            for (int k = 0; k < 4; k++) {
                double q = PI_ / 4 + k * PI_ / 2;
                if (q > lo + 1e-9 && q < hi - 1e-9) { a = q; break; }
                if (std::fabs(q - lo) < 1e-9) { a = lo + 0.2 * da; break; }
                if (std::fabs(q - hi) < 1e-9) { a = hi - 0.2 * da; break; }
            }
            out = h / std::max(std::fabs(std::cos(a)), std::fabs(std::sin(a)));
        }
        double mid = 0.5 * (in + out);
        x = mid * std::cos(a);
        y = mid * std::sin(a);
    } else {
        x = ((r.a + 0.5) / m.nx - 0.5) * m.pitch;
        y = ((r.b + 0.5) / m.ny - 0.5) * m.pitch;
    }
    return {(r.px + 0.5) * p.pitch + x, (r.py + 0.5) * p.pitch + y, 0.5 * (p.z[r.pz] + p.z[r.pz + 1])};
}

// code's region index of a point, using its tracking interface
inline int code_region(const mocc::CoreMesh &m, const Pt &p, mocc::Direction dir) {
    auto info = m.get_location_info(mocc::Point3(p.x, p.y, p.z), dir);
    return info.reg_offset + info.pm->find_reg(info.local_point, dir);
}

// model region -> code region index
inline std::map<Region, int> region_map(const Problem &p, const mocc::CoreMesh &m) {
    std::map<Region, int> out;
    mocc::Direction dir(0.7, 1.1);
    for (auto &r : p.regions()) out[r] = code_region(m, inside(p, r), dir);
    return out;
}

// bottom plane of every group of planes
inline std::vector<int> group_bottoms(const Problem &p) {
    std::vector<int> b;
    int z = 0;
    for (int g : p.groups()) { b.push_back(z); z += g; }
    return b;
}

// model region of a group's bottom plane -> index among the regions counted once per group of planes
inline std::map<Region, int> plane_region_map(const Problem &p, const mocc::CoreMesh &m) {
    auto all = region_map(p, m);
    std::vector<int> n(p.nz + 1, 0), first(p.nz + 1, 0);
    for (auto &e : all) n[e.first.pz]++;
    for (int z = 0; z < p.nz; z++) first[z + 1] = first[z] + n[z];
    std::map<Region, int> out;
    int off = 0;
    for (int b : group_bottoms(p)) {
        for (auto &e : all) if (e.first.pz == b) out[e.first] = e.second - first[b] + off;
        off += n[b];
    }
    return out;
}
} // namespace model
