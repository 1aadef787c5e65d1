// Whole runs of the program: a forked child calls the driver in its own directory, the parent reads what it wrote.
#pragma once
#include "mocc_util.hpp"
#include "quads.hpp"
#include "core/constants.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <hdf5.h>
#include <omp.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int run(const std::vector<std::string> &args); // the driver

namespace model {
struct Result {
    int status = -1; // exit status, or 1000 + signal
    std::string dir, text, err, h5; // text: both streams, err: the error stream alone
    bool ok() const { return status == 0; }
    // dataset as doubles, row major; empty if it is not there
    std::vector<double> get(const std::string &name, std::vector<int> *dims = nullptr) const {
        std::vector<double> v;
        hid_t f = H5Fopen(h5.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) return v;
        hid_t d = H5Dopen2(f, name.c_str(), H5P_DEFAULT);
        if (d >= 0) {
            hid_t s = H5Dget_space(d);
            hsize_t n[8];
            int nd = H5Sget_simple_extent_dims(s, n, nullptr);
            v.resize(H5Sget_simple_extent_npoints(s));
            if (dims) dims->assign(n, n + nd);
            if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) v.clear();
            H5Sclose(s);
            H5Dclose(d);
        }
        H5Fclose(f);
        return v;
    }
    static herr_t visit(hid_t, const char *name, const H5O_info_t *info, void *v) {
        if (info->type == H5O_TYPE_DATASET) static_cast<std::vector<std::string> *>(v)->push_back(name);
        return 0;
    }
    // every numeric dataset except timings
    std::map<std::string, std::vector<double>> all() const {
        std::vector<std::string> names;
        hid_t f = H5Fopen(h5.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) return {};
        H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, visit, &names);
        H5Fclose(f);
        std::map<std::string, std::vector<double>> m;
        for (auto &n : names)
            if (n.find("time") == std::string::npos && n.find("abscissae") == std::string::npos) {
                auto v = get(n);
                if (!v.empty()) m[n] = v;
            }
        return m;
    }
    std::string str(const std::string &name) const {
        std::string s;
        hid_t f = H5Fopen(h5.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) return s;
        hid_t d = H5Dopen2(f, name.c_str(), H5P_DEFAULT);
        if (d >= 0) {
            hid_t t = H5Dget_type(d);
            if (H5Tis_variable_str(t) > 0) {
                char *p = nullptr;
                if (H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &p) >= 0 && p) s = p;
            } else {
                s.resize(H5Tget_size(t));
                if (H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &s[0]) < 0) s.clear();
                s.resize(std::strlen(s.c_str()));
            }
            H5Tclose(t);
            H5Dclose(d);
        }
        H5Fclose(f);
        return s;
    }
    double k() const {
        auto v = get("convergence/k");
        return v.empty() ? std::nan("") : v.back();
    }
    int iterations() const { return get("convergence/k").size(); }
    // [group][value]
    std::vector<std::vector<double>> groups(const std::string &name, int ng) const {
        std::vector<std::vector<double>> v;
        for (int g = 0; g < ng; g++) v.push_back(get(name + pbt::fmt("/%03d", g + 1)));
        return v;
    }
    // the program warns that its rays miss a region, whose flux then means nothing
    bool missed() const { return text.find("No rays passed") != std::string::npos; }
    // negative fluxes of discrete ordinates are set to zero, after which the result depends on how the iteration went
    bool clipped() const {
        for (auto &e : all())
            if (e.first.find("flux/") != std::string::npos)
                for (double x : e.second)
                    if (x <= 0) return true;
        return false;
    }
    // reported on the way
    bool negative() const { return text.find("negative fluxes") != std::string::npos || text.find("negative MoC") != std::string::npos; }
    std::string tail(size_t n = 400) const { return text.size() > n ? text.substr(text.size() - n) : text; }
};

// files: written into the run's directory besides in.xml
inline Result run_case(const std::string &dir, const std::string &tag, const std::string &xml, const std::map<std::string, std::string> &files,
                       int threads = 1, std::vector<std::string> args = {}, int cpu_s = 50, const std::string &input = "in.xml") {
    static bool quiet = (H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr), true);
    (void)quiet;
    Result r;
    r.dir = dir + "/" + tag;
    mkdir(r.dir.c_str(), 0700);
    if (DIR *d = opendir(r.dir.c_str())) { // nothing left over from an earlier case
        while (dirent *e = readdir(d))
            if (e->d_type == DT_REG) unlinkat(dirfd(d), e->d_name, 0);
        closedir(d);
    }
    for (auto &f : files) std::ofstream(r.dir + "/" + f.first) << f.second;
    std::ofstream(r.dir + "/in.xml") << xml;
    r.h5 = r.dir + "/in.h5";
    std::vector<std::string> a = {"mocc"};
    a.insert(a.end(), args.begin(), args.end());
    a.push_back(input);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(r.dir.c_str())) _exit(120);
        int o = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int e = open("err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(o, 1);
        dup2(e, 2);
        rlimit rl = {(rlim_t)cpu_s, (rlim_t)cpu_s + 1};
        setrlimit(RLIMIT_CPU, &rl);
        omp_set_num_threads(threads);
        int st = 125;
        try {
            st = ::run(a);
        } catch (...) {
            fflush(stdout);
            std::cout.flush();
            std::terminate();
        }
        std::cout.flush();
        _exit(st);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    std::ifstream is(r.dir + "/out.txt"), es(r.dir + "/err.txt");
    r.text.assign(std::istreambuf_iterator<char>(is), {});
    r.err.assign(std::istreambuf_iterator<char>(es), {});
    r.text += r.err;
    return r;
}

inline Result run_problem(const std::string &dir, const std::string &tag, const Problem &p, const std::string &solver, int threads = 1,
                          std::vector<std::string> args = {}) {
    return run_case(dir, tag, solver + p.mats_xml() + p.geom_xml(), {{p.libfile, p.lib.text()}}, threads, args);
}

//
// Solvers
//
struct SweepOpts {
    bool moc = true, sn = true, coupled = false;
    bool cdd = true;         // corrected schemes (with their neutral factors)
    double smin = 0.08, smax = 0.3; // ray spacing over pitch
    bool fsr = true;         // ask for region fluxes
    bool user_quad = true;
};

struct SweepDef {
    std::string type; // moc, sn, 2d3d
    std::string quad, rays, eq = "dd", axial = "dd", upd;
    int inner = 2, sn_inner = 2;
    std::string more; // attributes of the coupled sweeper
    double spacing = 0.1;
    std::string xml() const {
        std::string u = upd.empty() ? "" : " boundary_update=\"" + upd + "\"";
        std::string m = " n_inner=\"" + std::to_string(inner) + "\"" + u;
        std::string s = " n_inner=\"" + std::to_string(sn_inner) + "\" equation=\"" + eq + "\" axial=\"" + axial + "\"" + u;
        if (type == "moc") return "<sweeper type=\"moc\" dump_fsr_flux=\"t\"" + m + ">" + quad + rays + "</sweeper>";
        if (type == "sn") return "<sweeper type=\"sn\"" + s + ">" + quad + "</sweeper>";
        return "<sweeper type=\"2d3d\"" + more + ">" + quad + "<sn_sweeper" + s + " /><moc_sweeper dump_fsr_flux=\"t\"" + m + ">" + rays +
               "</moc_sweeper></sweeper>";
    }
};

inline SweepDef gen_sweeper(Draw &d, const Problem &p, const SweepOpts &o) {
    SweepDef s;
    std::vector<std::string> types;
    if (o.moc) types.push_back("moc");
    if (o.sn) types.push_back("sn");
    if (o.coupled) types.push_back("2d3d");
    s.type = d.pick(types);
    QuadOpts qo;
    qo.max_ls = 6;
    qo.max_azi = 3;
    qo.max_pol = 2;
    qo.max_user = 3;
    qo.user = o.user_quad;
    s.quad = gen_quad(d, qo).xml;
    s.spacing = d.logreal(o.smin, o.smax) * p.pitch;
    s.rays = "<rays spacing=\"" + num(s.spacing) + "\"";
    std::string corr = d.pick(std::vector<std::string>{"", "flat", "angle"});
    if (!corr.empty()) s.rays += " volume_correction=\"" + corr + "\"";
    s.rays += " />";
    s.upd = d.pick(std::vector<std::string>{"", "gs", "jacobi"});
    s.inner = d.range(1, 4);
    s.sn_inner = d.range(1, 4);
    if (s.type == "sn") {
        s.eq = o.cdd && d.chance(0.4) ? "cdd" : "dd";
        s.axial = s.eq == "cdd" ? d.pick(std::vector<std::string>{"dd", "dd_ff", "sc", "fw", "pmb"}) : d.pick(std::vector<std::string>{"dd", "sc"});
    } else if (s.type == "2d3d") {
        s.eq = "cdd";
        s.axial = d.pick(std::vector<std::string>{"dd", "dd_ff", "sc", "fw"});
    }
    return s;
}

struct EigenOpts {
    double k_tol = 1e-8, psi_tol = 1e-7;
    int max_iter = 1500, min_iter = 0;
    int cmfd = -1; // -1: not given, 0: off, 1: on
    std::string cmfd_xml;
};

inline std::string eigen_xml(const SweepDef &s, const EigenOpts &o) {
    std::string x = "<solver type=\"eigenvalue\" k_tol=\"" + num(o.k_tol) + "\" psi_tol=\"" + num(o.psi_tol) + "\" max_iter=\"" + std::to_string(o.max_iter) + "\"";
    if (o.min_iter) x += " min_iter=\"" + std::to_string(o.min_iter) + "\"";
    if (o.cmfd >= 0) x += std::string(" cmfd=\"") + (o.cmfd ? "t" : "f") + "\"";
    return x + ">\n<source scattering=\"P0\" />\n" + s.xml() + "\n" + o.cmfd_xml + "</solver>\n";
}

// Dense linear solve, partial pivoting
inline std::vector<double> solve(std::vector<std::vector<double>> a, std::vector<double> b) {
    int n = b.size();
    for (int i = 0; i < n; i++) {
        int p = i;
        for (int j = i + 1; j < n; j++) if (std::fabs(a[j][i]) > std::fabs(a[p][i])) p = j;
        std::swap(a[i], a[p]);
        std::swap(b[i], b[p]);
        for (int j = i + 1; j < n; j++) {
            double f = a[j][i] / a[i][i];
            for (int k = i; k < n; k++) a[j][k] -= f * a[i][k];
            b[j] -= f * b[i];
        }
    }
    for (int i = n - 1; i >= 0; i--) {
        for (int k = i + 1; k < n; k++) b[i] -= a[i][k] * b[k];
        b[i] /= a[i][i];
    }
    return b;
}

// infinite medium: removal operator, spectrum for a unit fission source, k
inline std::vector<std::vector<double>> removal(const Mat &m, int ng) {
    std::vector<std::vector<double>> a(ng, std::vector<double>(ng));
    for (int g = 0; g < ng; g++)
        for (int h = 0; h < ng; h++) a[g][h] = (g == h ? m.tr(g) : 0.0) - m.sc[g][h];
    return a;
}
inline double k_inf(const Mat &m, int ng, std::vector<double> &spectrum) {
    std::vector<double> chi(ng);
    for (int g = 0; g < ng; g++) chi[g] = m.chin(g);
    spectrum = solve(removal(m, ng), chi);
    double k = 0;
    for (int g = 0; g < ng; g++) k += m.nuf[g] * spectrum[g];
    return k;
}
} // namespace model
