// Reference model of mocc's input language: what the user wrote, and what it
// means geometrically, written independently of mocc's own classes.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace model {
using pbt::Case;
using pbt::Draw;
using pbt::fmt;

const double PI_ = 3.14159265358979323846;

// shortest text that is exact
inline std::string num(double v) {
    for (int p = 4; p < 18; p++) {
        char b[40];
        snprintf(b, sizeof b, "%.*g", p, v);
        if (strtod(b, nullptr) == v) return b;
    }
    return fmt("%.17g", v);
}
// round to n significant digits
inline double sig(double v, int n) {
    char b[40];
    snprintf(b, sizeof b, "%.*g", n, v);
    return strtod(b, nullptr);
}

struct Mat {
    std::string name;
    std::vector<double> abs, nuf, fis, chi;
    std::vector<std::vector<double>> sc; // [to][from]
    bool fissile() const {
        for (double f : nuf) if (f > 0) return true;
        return false;
    }
    double out(int g) const {
        double s = 0;
        for (auto &r : sc) s += r[g];
        return s;
    }
    double tr(int g) const { return abs[g] + out(g); }
    double chin(int g) const { // normalised
        double s = 0;
        for (double c : chi) s += c;
        return s > 0 ? chi[g] / s : 0.0;
    }
};

struct Lib {
    int ng = 1;
    double e0 = 2.0e7; // highest group bound
    std::vector<Mat> mats;
    std::string text() const {
        std::string s = "generated library\n " + std::to_string(ng) + " " + std::to_string(mats.size()) + "\n";
        for (int g = 0; g < ng; g++) s += " " + num(e0 / std::pow(10.0, g));
        s += "\n!\n";
        for (auto &m : mats) {
            s += "XSMACRO " + m.name + " 0\n";
            for (int g = 0; g < ng; g++)
                s += "  " + num(m.abs[g]) + " " + num(m.nuf[g]) + " " + num(m.fis[g]) + " " + num(m.chi[g]) + "\n";
            for (int t = 0; t < ng; t++) {
                for (int f = 0; f < ng; f++) s += " " + num(m.sc[t][f]);
                s += "\n";
            }
            s += "\n";
        }
        return s;
    }
};

struct MeshDef {
    int id     = 1;
    bool cyl   = false;
    double pitch = 1.0;
    std::vector<double> radii;
    std::vector<int> sub_rad;
    int azi = 4;
    int nx = 1, ny = 1;
    int nxs() const { return cyl ? (int)radii.size() + 1 : nx * ny; }
    std::vector<double> rings() const { // mesh radii, equal volume in each ring
        std::vector<double> r;
        double in = 0;
        for (size_t i = 0; i < radii.size(); i++) {
            for (int k = 1; k <= sub_rad[i]; k++)
                r.push_back(std::sqrt(in * in + (radii[i] * radii[i] - in * in) * k / sub_rad[i]));
            in = radii[i];
        }
        return r;
    }
    int nrings() const {
        int n = 1;
        for (int s : sub_rad) n += s;
        return n;
    }
    int nreg() const { return cyl ? nrings() * azi : nx * ny; }
    // local coordinates relative to the centre -> (a,b): ring,sector or ix,iy(from south)
    std::pair<int, int> cell(double x, double y) const {
        if (cyl) {
            auto r = rings();
            double rr = std::hypot(x, y);
            int ir = 0;
            while (ir < (int)r.size() && rr > r[ir]) ir++;
            double a = std::atan2(y, x);
            if (a < 0) a += 2 * PI_;
            int ia = (int)std::floor(a / (2 * PI_ / azi));
            if (ia >= azi) ia = azi - 1;
            return {ir, ia};
        }
        int ix = (int)std::floor((x / pitch + 0.5) * nx), iy = (int)std::floor((y / pitch + 0.5) * ny);
        return {std::min(std::max(ix, 0), nx - 1), std::min(std::max(iy, 0), ny - 1)};
    }
    // which entry of the pin's material list covers cell (a,b)
    int mat_slot(std::pair<int, int> c) const {
        if (cyl) {
            int r = c.first;
            for (size_t i = 0; i < sub_rad.size(); i++) {
                if (r < sub_rad[i]) return (int)i;
                r -= sub_rad[i];
            }
            return (int)sub_rad.size();
        }
        return (ny - 1 - c.second) * nx + c.first; // first row is north
    }
    // distance of a local point from the nearest internal surface or pin edge
    double clearance(double x, double y) const {
        double h = pitch / 2, d = std::min(h - std::fabs(x), h - std::fabs(y));
        if (cyl) {
            double rr = std::hypot(x, y);
            for (double r : rings()) d = std::min(d, std::fabs(rr - r));
            for (int i = 0; i < azi; i++) {
                double a = i * 2 * PI_ / azi, c = std::cos(a), s = std::sin(a);
                if (x * c + y * s > -1e-9) d = std::min(d, std::fabs(x * s - y * c));
            }
        } else {
            for (int i = 1; i < nx; i++) d = std::min(d, std::fabs(x + h - pitch * i / nx));
            for (int i = 1; i < ny; i++) d = std::min(d, std::fabs(y + h - pitch * i / ny));
        }
        return d;
    }
    // exact area of the part of the square between angles a0<a1
    double square_sector(double a0, double a1) const {
        // antiderivative of 1/2 r(theta)^2, integrated numerically exact per octant
        double h = pitch / 2, tot = 0;
        const double q = PI_ / 4;
        double t = a0;
        while (t < a1 - 1e-14) {
            int k = (int)std::floor((t + 1e-12) / q);
            double e = std::min(a1, (k + 1) * q);
            // octant pairs: edges at x=+h for k=7,0; y=+h for 1,2; x=-h 3,4; y=-h 5,6
            int side = ((k + 1) / 2) % 4;
            double c = side * PI_ / 2; // angle of the edge normal
            tot += 0.5 * h * h * (std::tan(e - c) - std::tan(t - c));
            t = e;
        }
        return tot;
    }
    double area(std::pair<int, int> c) const {
        if (!cyl) return pitch * pitch / nx / ny;
        auto r = rings();
        double in = c.first ? r[c.first - 1] : 0;
        if (c.first < (int)r.size()) return PI_ * (r[c.first] * r[c.first] - in * in) / azi;
        double da = 2 * PI_ / azi;
        return square_sector(c.second * da, (c.second + 1) * da) - PI_ * in * in / azi;
    }
    std::string xml() const {
        std::string s = "<mesh id=\"" + std::to_string(id) + "\" type=\"" + (cyl ? "cyl" : "rect") + "\" pitch=\"" + num(pitch) + "\">\n";
        if (cyl) {
            s += "  <radii>";
            for (size_t i = 0; i < radii.size(); i++) s += (i ? " " : "") + num(radii[i]);
            s += "</radii>\n  <sub_radii>";
            for (size_t i = 0; i < sub_rad.size(); i++) s += (i ? " " : "") + std::to_string(sub_rad[i]);
            s += "</sub_radii>\n  <sub_azi>" + std::to_string(azi) + "</sub_azi>\n";
        } else
            s += "  <sub_x>" + std::to_string(nx) + "</sub_x>\n  <sub_y>" + std::to_string(ny) + "</sub_y>\n";
        return s + "</mesh>\n";
    }
};

struct PinDef { int id; int mesh; std::vector<int> mats; int fuel = -1; };
struct LatDef { int id; int nx, ny; std::vector<int> pins; }; // input order
struct AsyDef {
    int id;
    std::vector<int> lats;    // top to bottom
    std::vector<double> hz;   // top to bottom
    std::vector<int> groups;  // sizes, top to bottom; empty = no braces
    bool scalar_hz = false;
};
enum Face { EAST = 0, NORTH, WEST, SOUTH, TOP, BOTTOM };
const char *const face_name[6] = {"east", "north", "west", "south", "top", "bottom"};

struct Pt { double x, y, z; };

struct Region { // identity of a flat source region in the model
    int px, py, pz, a, b;
    bool operator<(const Region &o) const {
        return std::tie(pz, py, px, a, b) < std::tie(o.pz, o.py, o.px, o.a, o.b);
    }
    bool operator==(const Region &o) const {
        return std::tie(pz, py, px, a, b) == std::tie(o.pz, o.py, o.px, o.a, o.b);
    }
};

struct Problem {
    Lib lib;
    std::vector<int> mat_id;  // input id of each library material used (same order as use_mat)
    std::vector<int> use_mat; // library index
    std::vector<MeshDef> meshes;
    std::vector<PinDef> pins;
    std::vector<LatDef> lats;
    std::vector<AsyDef> asys;
    int cnx = 1, cny = 1;
    std::vector<int> core; // input order, indices into asys
    std::string bc[6] = {"reflect", "reflect", "reflect", "reflect", "reflect", "reflect"};
    std::string libfile = "xs.xsl";
    // extra whole-document text (solver etc.)
    std::string before_core, after_core; // text around the core tag
    std::string extra;

    // derived
    double pitch = 1;
    int nx = 0, ny = 0, nz = 0; // pins
    std::vector<double> z;      // plane boundaries from the bottom
    std::vector<int> col_asy, col_in, row_asy, row_in; // pin column -> assembly, local index (row from south)
    std::vector<int> pinmap; // [iz][iy][ix] from bottom/south/west

    const Mat &mat(int slot) const { return lib.mats[use_mat[slot]]; }
    double Lx() const { return nx * pitch; }
    double Ly() const { return ny * pitch; }
    double Lz() const { return z.back(); }
    double dz(int iz) const { return z[iz + 1] - z[iz]; }
    int asy_at(int ax, int ay) const { return core[(cny - 1 - ay) * cnx + ax]; } // ay from south
    std::vector<int> groups() const { // bottom to top, sizes
        auto g = asys[core[0]].groups;
        if (g.empty()) g.assign(nz, 1);
        else std::reverse(g.begin(), g.end());
        return g;
    }

    void finish() {
        pitch = meshes[pins[lats[asys[core[0]].lats[0]].pins[0]].mesh].pitch;
        col_asy.clear(); col_in.clear(); row_asy.clear(); row_in.clear();
        for (int ax = 0; ax < cnx; ax++) {
            int n = lats[asys[asy_at(ax, 0)].lats[0]].nx;
            for (int i = 0; i < n; i++) { col_asy.push_back(ax); col_in.push_back(i); }
        }
        for (int ay = 0; ay < cny; ay++) {
            int n = lats[asys[asy_at(0, ay)].lats[0]].ny;
            for (int i = 0; i < n; i++) { row_asy.push_back(ay); row_in.push_back(i); }
        }
        nx = col_asy.size();
        ny = row_asy.size();
        auto &a = asys[core[0]];
        nz = a.lats.size();
        z.assign(1, 0.0);
        for (int i = 0; i < nz; i++) z.push_back(z.back() + a.hz[nz - 1 - i]);
        pinmap.clear();
        for (int iz = 0; iz < nz; iz++)
            for (int iy = 0; iy < ny; iy++)
                for (int ix = 0; ix < nx; ix++) {
                    auto &as = asys[asy_at(col_asy[ix], row_asy[iy])];
                    auto &l  = lats[as.lats[nz - 1 - iz]];
                    pinmap.push_back(l.pins[(l.ny - 1 - row_in[iy]) * l.nx + col_in[ix]]);
                }
    }
    const PinDef &pin(int ix, int iy, int iz) const { return pins[pinmap[(iz * ny + iy) * nx + ix]]; }
    const MeshDef &mesh(int ix, int iy, int iz) const { return meshes[pin(ix, iy, iz).mesh]; }
    int n_reg() const {
        int n = 0;
        for (int p : pinmap) n += meshes[pins[p].mesh].nreg();
        return n;
    }
    Region region(const Pt &p) const {
        Region r;
        r.px = std::min(std::max((int)std::floor(p.x / pitch), 0), nx - 1);
        r.py = std::min(std::max((int)std::floor(p.y / pitch), 0), ny - 1);
        r.pz = 0;
        while (r.pz < nz - 1 && p.z >= z[r.pz + 1]) r.pz++;
        auto c = mesh(r.px, r.py, r.pz).cell(p.x - (r.px + 0.5) * pitch, p.y - (r.py + 0.5) * pitch);
        r.a = c.first;
        r.b = c.second;
        return r;
    }
    int mat_slot_of(const Region &r) const { // index into use_mat
        auto &pd = pin(r.px, r.py, r.pz);
        return pd.mats[meshes[pd.mesh].mat_slot({r.a, r.b})];
    }
    double clearance(const Pt &p) const {
        auto r = region(p);
        double d = mesh(r.px, r.py, r.pz).clearance(p.x - (r.px + 0.5) * pitch, p.y - (r.py + 0.5) * pitch);
        for (double zz : z) d = std::min(d, std::fabs(p.z - zz));
        return d;
    }
    double area(const Region &r) const { return mesh(r.px, r.py, r.pz).area({r.a, r.b}); }
    std::vector<Region> regions() const {
        std::vector<Region> v;
        for (int iz = 0; iz < nz; iz++)
            for (int iy = 0; iy < ny; iy++)
                for (int ix = 0; ix < nx; ix++) {
                    auto &m = mesh(ix, iy, iz);
                    int na = m.cyl ? m.nrings() : m.nx, nb = m.cyl ? m.azi : m.ny;
                    for (int a = 0; a < na; a++)
                        for (int b = 0; b < nb; b++) v.push_back({ix, iy, iz, a, b});
                }
        return v;
    }
    bool any_fissile() const {
        for (int p : pinmap)
            for (int m : pins[p].mats) if (mat(m).fissile()) return true;
        return false;
    }

    std::string mats_xml() const {
        std::string s = "<material_lib path=\"" + libfile + "\">\n";
        for (size_t i = 0; i < use_mat.size(); i++)
            s += "  <material id=\"" + std::to_string(mat_id[i]) + "\" name=\"" + lib.mats[use_mat[i]].name + "\" />\n";
        return s + "</material_lib>\n";
    }
    std::string geom_xml() const {
        std::string s;
        for (auto &m : meshes) s += m.xml();
        for (auto &p : pins) {
            s += "<pin id=\"" + std::to_string(p.id) + "\" mesh=\"" + std::to_string(meshes[p.mesh].id) + "\"";
            if (p.fuel >= 0) s += std::string(" fuel=\"") + (p.fuel ? "t" : "f") + "\"";
            s += ">\n ";
            auto &m = meshes[p.mesh];
            for (size_t i = 0; i < p.mats.size(); i++)
                s += " " + std::to_string(mat_id[p.mats[i]]) + (!m.cyl && (int)(i + 1) % m.nx == 0 ? "\n " : "");
            s += "\n</pin>\n";
        }
        for (auto &l : lats) {
            s += "<lattice id=\"" + std::to_string(l.id) + "\" nx=\"" + std::to_string(l.nx) + "\" ny=\"" + std::to_string(l.ny) + "\">\n";
            for (int i = 0; i < l.nx * l.ny; i++) s += " " + std::to_string(pins[l.pins[i]].id) + ((i + 1) % l.nx == 0 ? "\n" : "");
            s += "</lattice>\n";
        }
        for (auto &a : asys) {
            s += "<assembly id=\"" + std::to_string(a.id) + "\" np=\"" + std::to_string(a.lats.size()) + "\"";
            if (a.scalar_hz) s += " hz=\"" + num(a.hz[0]) + "\"";
            s += ">\n";
            if (!a.scalar_hz) {
                s += "  <hz>";
                for (size_t i = 0; i < a.hz.size(); i++) s += (i ? " " : "") + num(a.hz[i]);
                s += "</hz>\n";
            }
            s += "  <lattices>\n";
            if (a.groups.empty()) {
                for (int l : a.lats) s += "    " + std::to_string(lats[l].id) + "\n";
            } else {
                size_t k = 0;
                for (int g : a.groups) {
                    s += "    {";
                    for (int i = 0; i < g; i++) s += (i ? " " : "") + std::to_string(lats[a.lats[k++]].id);
                    s += "}\n";
                }
            }
            s += "  </lattices>\n</assembly>\n";
        }
        s += before_core;
        s += "<core nx=\"" + std::to_string(cnx) + "\" ny=\"" + std::to_string(cny) + "\"";
        for (int f = 0; f < 6; f++) s += std::string("\n    ") + face_name[f] + "=\"" + bc[f] + "\"";
        s += ">\n";
        for (size_t i = 0; i < core.size(); i++) s += " " + std::to_string(asys[core[i]].id) + ((int)(i + 1) % cnx == 0 ? "\n" : "");
        s += "</core>\n" + after_core;
        return s;
    }
    std::string xml() const { return extra + mats_xml() + geom_xml(); }
    void write_lib(const std::string &dir) const {
        std::ofstream os(dir + "/" + libfile);
        os << lib.text();
    }
};

//
// Generators
//
struct LibOpts {
    int max_groups = 4, max_mats = 4;
    int fissile    = 1;  // 0: none, 1: some (material 0 always), 2: all
    bool upscatter = true;
    double tmin = 0.15, tmax = 2.0; // transport cross section
    double cmin = 0.3, cmax = 0.95; // scattering ratio
    double max_optical = 1e9;
    bool sparse = true;
    int digits = 5;
};

inline Mat gen_mat(Draw &d, int ng, bool fissile, const LibOpts &o, const std::string &name) {
    Mat m;
    m.name = name;
    m.sc.assign(ng, std::vector<double>(ng, 0.0));
    for (int g = 0; g < ng; g++) {
        double tot = d.logreal(o.tmin, o.tmax);
        double c   = d.real(o.cmin, o.cmax);
        double s = tot * c, a = sig(tot * (1 - c), o.digits);
        m.abs.push_back(a);
        double f = fissile ? sig(a * d.real(0.1, 0.9), o.digits) : 0.0;
        m.fis.push_back(f);
        m.nuf.push_back(fissile ? sig(f * d.real(1.5, 3.0), o.digits) : 0.0);
        // distribute the scattering
        std::vector<double> w(ng, 0.0);
        double tw = 0;
        for (int t = 0; t < ng; t++) {
            if (t < g && !o.upscatter) continue;
            if (o.sparse && t != g && d.chance(0.3)) continue;
            w[t] = d.real(0.05, 1.0) * (t == g ? 2.0 : 1.0) * (t < g ? 0.3 : 1.0);
            tw += w[t];
        }
        for (int t = 0; t < ng; t++) if (w[t] > 0) m.sc[t][g] = sig(s * w[t] / tw, o.digits);
    }
    if (fissile) {
        double left = 1.0;
        for (int g = 0; g < ng; g++) {
            double c = g == 0 ? d.real(0.4, 1.0) : (d.chance(0.3) ? 0.0 : d.real(0.0, 0.6));
            m.chi.push_back(sig(c, o.digits));
        }
        (void)left;
    } else
        m.chi.assign(ng, 0.0);
    return m;
}

// Make every group reachable from fission: chi>0 somewhere is guaranteed (group 0),
// downscatter g->g+1 is forced so that no group has a structurally zero flux.
inline void connect(Mat &m, int digits = 5) {
    int ng = m.abs.size();
    for (int g = 0; g + 1 < ng; g++)
        if (m.sc[g + 1][g] <= 0) m.sc[g + 1][g] = sig(0.05 * m.abs[g] + 0.01, digits);
}

inline Lib gen_lib(Draw &d, const LibOpts &o) {
    Lib l;
    l.ng = (int)d.range(1, o.max_groups);
    int nm = (int)d.range(1, o.max_mats);
    for (int i = 0; i < nm; i++) {
        bool f = o.fissile == 2 || (o.fissile == 1 && (i == 0 || d.chance(0.4)));
        l.mats.push_back(gen_mat(d, l.ng, f, o, fmt("mat-%c%d", 'a' + i, i)));
        connect(l.mats.back(), o.digits);
    }
    return l;
}

struct GeomOpts {
    int max_pins_x = 4, max_pins_y = 4; // of the whole core, roughly
    int max_planes = 3;
    int min_planes = 1;
    bool cyl = true, rect = true;
    int max_sub = 3;      // rectangular subdivisions
    int max_rings = 2, max_sub_rad = 2;
    bool six = true;      // allow six sectors
    bool touching = true; // allow a radius of exactly half the pitch
    bool multi_asy = true;
    bool braces = true;   // macroplane groups
    bool mixed_groups = false; // planes of a macroplane may differ
    bool random_ids = true;
    bool vacuum = true;   // allow vacuum boundaries
    bool allow_fuel_attr = false;
    double pmin = 0.4, pmax = 2.5;
    double hmin = 0.3, hmax = 4.0;
    std::vector<double> pitch_choices; // if not empty
};

inline std::vector<int> gen_ids(Draw &d, int n, bool random) {
    std::vector<int> v(n);
    if (!random || !d.chance(0.6)) {
        for (int i = 0; i < n; i++) v[i] = i + 1;
        return v;
    }
    std::set<int> used;
    for (int i = 0; i < n; i++) {
        int k = (int)d.range(1, 60);
        while (used.count(k)) k = k % 999 + 1;
        used.insert(k);
        v[i] = k;
    }
    return v;
}

inline MeshDef gen_mesh(Draw &d, const GeomOpts &o, double pitch, int id) {
    MeshDef m;
    m.id    = id;
    m.pitch = pitch;
    m.cyl   = o.cyl && (!o.rect || d.chance(0.55));
    if (m.cyl) {
        int n = (int)d.range(1, o.max_rings);
        double rmax = pitch / 2 * d.real(0.35, 0.98);
        bool touch = o.touching && d.chance(0.06); // circle touches the sides of the pin
        double r = 0;
        for (int i = 0; i < n; i++) {
            double f = (i + 1.0) / n;
            double rr = sig(rmax * (n == 1 ? 1.0 : f * d.real(0.8, 1.0)), 4);
            if (i == n - 1) rr = sig(rmax, 4);
            if (rr <= r * 1.02) rr = sig(r * 1.05, 4);
            if (rr > pitch / 2) rr = sig(pitch / 2 * 0.99, 6);
            if (touch && i == n - 1) rr = pitch / 2;
            if (rr <= r) break;
            m.radii.push_back(rr);
            m.sub_rad.push_back((int)d.range(1, o.max_sub_rad));
            r = rr;
        }
        std::vector<int> az = {4, 2, 8};
        if (o.six) az.push_back(6);
        m.azi = d.pick(az);
    } else {
        m.nx = (int)d.range(1, o.max_sub);
        m.ny = (int)d.range(1, o.max_sub);
    }
    return m;
}

inline Problem gen_geom(Draw &d, const Lib &lib, const GeomOpts &o) {
    Problem p;
    p.lib = lib;
    int nm = lib.mats.size();
    p.use_mat = d.chance(0.5) ? d.shuffle(nm) : std::vector<int>();
    if (p.use_mat.empty()) for (int i = 0; i < nm; i++) p.use_mat.push_back(i);
    p.mat_id = gen_ids(d, nm, o.random_ids);
    double pitch = o.pitch_choices.empty()
                       ? (d.chance(0.5) ? sig(d.real(o.pmin, o.pmax), 3) : d.pick(std::vector<double>{1.0, 1.26, 0.5, 2.0}))
                       : d.pick(o.pitch_choices);
    int nmesh = (int)d.range(1, 3);
    auto mids = gen_ids(d, nmesh, o.random_ids);
    for (int i = 0; i < nmesh; i++) p.meshes.push_back(gen_mesh(d, o, pitch, mids[i]));
    int npin = (int)d.range(1, 4);
    auto pids = gen_ids(d, npin, o.random_ids);
    for (int i = 0; i < npin; i++) {
        PinDef q;
        q.id   = pids[i];
        q.mesh = (int)d.range(0, nmesh - 1);
        for (int k = 0; k < p.meshes[q.mesh].nxs(); k++) q.mats.push_back((int)d.range(0, nm - 1));
        if (o.allow_fuel_attr && d.chance(0.1)) q.fuel = (int)d.range(0, 1);
        p.pins.push_back(q);
    }
    // core layout: column widths and row heights
    if (o.multi_asy) {
        p.cnx = (int)d.range(1, std::min(3, o.max_pins_x));
        p.cny = (int)d.range(1, std::min(3, o.max_pins_y));
    }
    std::vector<int> cw, rh;
    int left = o.max_pins_x;
    for (int i = 0; i < p.cnx; i++) {
        int w = (int)d.range(1, std::max(1, left - (p.cnx - 1 - i)));
        if (p.cnx > 1) w = std::min(w, 3);
        cw.push_back(w);
        left -= w;
    }
    left = o.max_pins_y;
    for (int i = 0; i < p.cny; i++) {
        int w = (int)d.range(1, std::max(1, left - (p.cny - 1 - i)));
        if (p.cny > 1) w = std::min(w, 3);
        rh.push_back(w);
        left -= w;
    }
    int nz = (int)d.range(o.min_planes, o.max_planes);
    std::vector<double> hz;
    bool uniform = d.chance(0.3);
    for (int i = 0; i < nz; i++) hz.push_back(i && uniform ? hz[0] : sig(d.real(o.hmin, o.hmax), 3));
    std::vector<int> groups;
    bool braces = o.braces && nz > 1 && d.chance(0.4);
    if (braces) {
        int l = nz;
        while (l) {
            int g = (int)d.range(1, l);
            groups.push_back(g);
            l -= g;
        }
    }
    // shapes -> lattices, assemblies
    std::map<std::pair<int, int>, std::vector<int>> lat_of, asy_of;
    for (int r = 0; r < p.cny; r++)
        for (int c = 0; c < p.cnx; c++) lat_of[{cw[c], rh[r]}];
    int nlat = 0, nasy = 0;
    for (auto &kv : lat_of) {
        int n = (int)d.range(1, nz > 1 ? 3 : 2);
        for (int i = 0; i < n; i++) {
            LatDef l;
            l.id = ++nlat;
            l.nx = kv.first.first;
            l.ny = kv.first.second;
            for (int k = 0; k < l.nx * l.ny; k++) l.pins.push_back((int)d.range(0, npin - 1));
            kv.second.push_back(p.lats.size());
            p.lats.push_back(l);
        }
    }
    for (auto &kv : lat_of) {
        int n = (int)d.range(1, 2);
        for (int i = 0; i < n; i++) {
            AsyDef a;
            a.id     = ++nasy;
            a.hz     = hz;
            a.groups = groups;
            a.scalar_hz = uniform && d.chance(0.5);
            if (groups.empty()) {
                for (int k = 0; k < nz; k++) a.lats.push_back(d.pick(kv.second));
            } else
                for (int g : groups) {
                    int l = d.pick(kv.second);
                    for (int k = 0; k < g; k++) a.lats.push_back(o.mixed_groups ? d.pick(kv.second) : l);
                }
            asy_of[kv.first].push_back(p.asys.size());
            p.asys.push_back(a);
        }
    }
    auto lids = gen_ids(d, nlat, o.random_ids), aids = gen_ids(d, nasy, o.random_ids);
    for (int i = 0; i < nlat; i++) p.lats[i].id = lids[i];
    for (int i = 0; i < nasy; i++) p.asys[i].id = aids[i];
    for (int r = p.cny - 1; r >= 0; r--) // input order: north first
        for (int c = 0; c < p.cnx; c++) p.core.push_back(d.pick(asy_of[{cw[c], rh[r]}]));
    if (o.vacuum)
        for (int f = 0; f < 6; f++) if (d.chance(0.4)) p.bc[f] = "vacuum";
    p.finish();
    return p;
}

// make sure the core has fuel: put a fissile material somewhere if there is none
inline void ensure_fuel(Problem &p) {
    if (p.any_fissile()) return;
    int slot = 0;
    for (size_t i = 0; i < p.use_mat.size(); i++) if (p.mat(i).fissile()) slot = i;
    p.pins[p.pinmap[0]].mats[0] = slot;
}
} // namespace model
