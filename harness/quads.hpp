// Generated angular quadratures
#pragma once
#include "mocc_util.hpp"
#include "core/angular_quadrature.hpp"

namespace model {
struct QuadDef {
    std::string type;
    int order = 4, nazi = 1, npol = 1;
    std::string xml;
};
struct QuadOpts {
    int max_ls = 16, max_azi = 8, max_pol = 4;
    bool ls = true, cg = true, cy = true, user = true;
    int max_user = 6;
};
inline QuadDef gen_quad(Draw &d, const QuadOpts &o) {
    QuadDef q;
    std::vector<std::string> t;
    if (o.ls) t.push_back("ls");
    if (o.cg) t.push_back("cg");
    if (o.cy) t.push_back("cy");
    if (o.user) t.push_back("user");
    q.type = d.pick(t);
    if (q.type == "ls") {
        q.order = 2 * (int)d.range(1, o.max_ls / 2);
        q.xml = "<ang_quad type=\"ls\" order=\"" + std::to_string(q.order) + "\" />";
    } else if (q.type == "cg") {
        q.nazi = (int)d.range(1, o.max_azi);
        q.npol = (int)d.range(1, o.max_pol);
    } else if (q.type == "cy") {
        q.nazi = (int)d.range(1, o.max_azi);
        q.npol = 3;
    } else {
        int n = (int)d.range(1, o.max_user);
        std::vector<double> w;
        double tot = 0;
        for (int i = 0; i < n; i++) { w.push_back(d.real(0.1, 1.0)); tot += w.back(); }
        q.xml = "<ang_quad type=\"user\">";
        double left = 1.0;
        for (int i = 0; i < n; i++) {
            double wi = i + 1 < n ? w[i] / tot : left;
            left -= wi;
            q.xml += "<angle alpha=\"" + num(d.real(0.06, PI_ / 2 - 0.06)) + "\" theta=\"" + num(d.real(0.15, PI_ / 2 - 0.05)) +
                     "\" weight=\"" + num(wi) + "\" />";
        }
        q.xml += "</ang_quad>";
    }
    if (q.type == "cg" || q.type == "cy")
        q.xml = "<ang_quad type=\"" + q.type + "\" n_azimuthal=\"" + std::to_string(q.nazi) + "\" n_polar=\"" + std::to_string(q.npol) + "\" />";
    return q;
}
} // namespace model
