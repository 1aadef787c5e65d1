// Generated lines across a plane and their exact crossings in the model.
#pragma once
#include "mocc_util.hpp"

namespace model {
struct RayLine {
    double x1, y1, x2, y2;
    int octant;   // 1: towards +x, 2: towards -x; always towards +y
    bool special; // built from small integer ratios of the pitch
};

// A line from one boundary point to another, never starting or ending in a
// corner of the core (the generated ray sets never do).
inline RayLine gen_line(Draw &d, const Problem &p, Case &c) {
    RayLine r;
    r.octant  = (int)d.range(1, 2);
    r.special = d.chance(0.5);
    double hx = p.Lx(), hy = p.Ly();
    bool side = d.chance(0.5); // enter through W/E
    double s, t;               // entry coordinate, slope dy/dx
    if (r.special) {
        int q = d.pick(std::vector<int>{1, 2, 3, 4, 6});
        int n = (side ? p.ny : p.nx) * q;
        s = (double)d.range(1, std::max(1, n - 1)) / q * p.pitch;
        t = (double)d.range(1, 6) / d.range(1, 6);
    } else {
        s = d.real(1e-4, 1 - 1e-4) * (side ? hy : hx);
        t = std::tan(d.real(0.02, PI_ / 2 - 0.02));
    }
    double L = side ? hy : hx;
    if (s <= 1e-9 || s >= L - 1e-9) c.discard("corner");
    // work in octant 1, mirror afterwards
    double x1 = side ? 0.0 : s, y1 = side ? s : 0.0, x2, y2;
    if (r.octant == 2 && !side) x1 = hx - s;
    double ye = y1 + t * (hx - x1), xe = x1 + (hy - y1) / t;
    if (std::fabs(ye - hy) < 1e-9 * hy) c.discard("corner");
    if (ye < hy) { x2 = hx; y2 = ye; }
    else { x2 = xe; y2 = hy; }
    if (y2 - y1 < 1e-6 || x2 - x1 < 1e-6) c.discard("short");
    if (r.octant == 2) { x1 = hx - x1; x2 = hx - x2; }
    r.x1 = x1; r.y1 = y1; r.x2 = x2; r.y2 = y2;
    return r;
}

// lengths in each region of plane iz along the line, exactly
struct Piece { double t0, t1; Region r; bool clear; };
inline std::vector<Piece> pieces(const Problem &p, int iz, double x1, double y1, double x2, double y2) {
    double dx = x2 - x1, dy = y2 - y1, L = std::hypot(dx, dy);
    std::vector<double> t = {0.0, 1.0};
    auto add = [&](double v) { if (v > 0 && v < 1) t.push_back(v); };
    for (int i = 0; i <= p.nx; i++) if (dx != 0) add((i * p.pitch - x1) / dx);
    for (int i = 0; i <= p.ny; i++) if (dy != 0) add((i * p.pitch - y1) / dy);
    for (int iy = 0; iy < p.ny; iy++)
        for (int ix = 0; ix < p.nx; ix++) {
            double cx = (ix + .5) * p.pitch, cy = (iy + .5) * p.pitch;
            // skip pins far from the line
            double dist = std::fabs((cx - x1) * dy - (cy - y1) * dx) / L;
            if (dist > p.pitch) continue;
            auto &m = p.mesh(ix, iy, iz);
            auto in = [&](double v) {
                double x = x1 + v * dx - cx, y = y1 + v * dy - cy;
                if (std::fabs(x) <= p.pitch * .5 && std::fabs(y) <= p.pitch * .5) add(v);
            };
            if (m.cyl) {
                double ux = dx / L, uy = dy / L, b = (x1 - cx) * ux + (y1 - cy) * uy;
                double d2 = (x1 - cx) * (x1 - cx) + (y1 - cy) * (y1 - cy) - b * b;
                for (double r : m.rings()) {
                    double q = r * r - d2;
                    if (q <= 0) continue;
                    in((-b - std::sqrt(q)) / L);
                    in((-b + std::sqrt(q)) / L);
                }
                for (int k = 0; k < m.azi; k++) {
                    double a = k * 2 * PI_ / m.azi, c = std::cos(a), s = std::sin(a);
                    // (x,y) x (c,s) = 0
                    double den = dx * s - dy * c;
                    if (std::fabs(den) < 1e-14 * L) continue;
                    double v = -((x1 - cx) * s - (y1 - cy) * c) / den;
                    if ((x1 + v * dx - cx) * c + (y1 + v * dy - cy) * s > -1e-9) in(v);
                }
            } else {
                for (int k = 1; k < m.nx; k++) if (dx != 0) in((cx + (k / (double)m.nx - .5) * p.pitch - x1) / dx);
                for (int k = 1; k < m.ny; k++) if (dy != 0) in((cy + (k / (double)m.ny - .5) * p.pitch - y1) / dy);
            }
        }
    std::sort(t.begin(), t.end());
    std::vector<Piece> out;
    double zm = 0.5 * (p.z[iz] + p.z[iz + 1]);
    for (size_t i = 0; i + 1 < t.size(); i++) {
        if (t[i + 1] - t[i] < 1e-13) continue;
        double v = 0.5 * (t[i] + t[i + 1]);
        Pt q{x1 + v * dx, y1 + v * dy, zm};
        out.push_back({t[i], t[i + 1], p.region(q), p.clearance(q) > 1e-9});
    }
    return out;
}
} // namespace model
