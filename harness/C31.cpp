// flavor: san
// C31: a fission bank keeps its population
#include "mocc_util.hpp"
#include "sweepers/mc/fission_bank.hpp"
using namespace model;
using mocc::mc::FissionBank;
using mocc::mc::Particle;

struct Site {
    double x, y, z, w;
    int g;
    unsigned id;
    bool operator<(const Site &o) const { return std::tie(x, y, z, w, g, id) < std::tie(o.x, o.y, o.z, o.w, o.g, o.id); }
    bool operator==(const Site &o) const { return !(*this < o) && !(o < *this); }
};
static Site of(const Particle &p) { return {p.location_global.x, p.location_global.y, p.location_global.z, p.weight, p.group, p.id}; }

struct Model {
    std::vector<Site> s; // sorted
    double total = 0;
};

static std::vector<Site> sites(const FissionBank &b) {
    std::vector<Site> v;
    for (int i = 0; i < b.size(); i++) v.push_back(of(b[i]));
    std::sort(v.begin(), v.end());
    return v;
}

// resized over and over from the same sites, no site is preferred
static void fair(Draw &d, Case &c, FissionBank &b, mocc::RNG_LCG &rng, const Problem &p) {
    int m = d.range(2, 12), n = d.range(1, 24), trials = 1500;
    if (n == m) n = m + 1;
    c.desc << "resize " << m << " sites to " << n << ", " << trials << " times\n";
    c.label(n > m ? "repeated growth" : "repeated shrinking");
    std::vector<double> sum(m, 0);
    double pairs = 0;
    for (int t = 0; t < trials; t++) {
        b.clear();
        for (int i = 0; i < m; i++) {
            Particle q(mocc::Point3(0.5 * p.Lx(), 0.5 * p.Ly(), 0.5 * p.Lz()), mocc::Direction::Isotropic(0.3, 0.6), 0, i);
            b.push_back(q);
        }
        b.resize(n, rng);
        std::vector<int> k(m, 0);
        for (int i = 0; i < b.size(); i++) {
            c.check((int)b[i].id < m, "foreign-site", "");
            k[b[i].id]++;
        }
        for (int i = 0; i < m; i++) {
            if (n > m) c.check(k[i] >= 1, "lost-site", "");
            else c.check(k[i] <= 1, "invented-site", "");
            sum[i] += k[i];
            if (n > m) pairs += 0.5 * (k[i] - 1) * (k[i] - 2); // of added sites that are the same
        }
    }
    double q = 1.0 / m, add = n - m;
    double mean = n > m ? 1 + add * q : (double)n / m;
    double var = n > m ? add * q * (1 - q) : mean * (1 - mean);
    for (int i = 0; i < m; i++)
        c.close(sum[i] / trials, mean, 0, 7 * std::sqrt(var / trials) + 1e-9, "preferred-site", fmt("site %d of %d resized to %d", i, m, n));
    if (n > m && add > 1) {
        // the additional sites are drawn independently of one another
        double np = 0.5 * add * (add - 1);
        // pairs sharing a drawn site are uncorrelated when sites are equally likely
        c.close(pairs / trials, np * q, 0, 7 * std::sqrt(np * q * (1 - q) / trials) + 1e-9, "clustered-sites", fmt("%d sites resized to %d", m, n));
    }
    b.clear();
    c.nontrivial(true);
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 2;
    Lib lib = gen_lib(d, lo);
    GeomOpts gopt;
    gopt.max_pins_x = 4;
    gopt.max_pins_y = 4;
    gopt.max_planes = 4;
    Problem p = gen_geom(d, lib, gopt);
    c.desc << p.geom_xml();
    auto m = make_mesh(p, c.dir);
    mocc::XSMesh xs(*m, mocc::MeshTreatment::TRUE);
    uint64_t seed = 2 * d.range(0, 1000000) + 1;
    mocc::RNG_LCG rng(seed);
    // a bank sampled in a box
    double lim[3] = {p.Lx(), p.Ly(), p.Lz()}, lo3[3], hi3[3];
    for (int i = 0; i < 3; i++) {
        lo3[i] = d.chance(0.4) ? 0.0 : lim[i] * d.range(0, 50) / 100;
        hi3[i] = d.chance(0.4) ? lim[i] : lim[i] * d.range(60, 100) / 100;
    }
    int n0 = d.range(1, 60);
    std::string bx = "<fission_box x_min=\"" + num(lo3[0]) + "\" x_max=\"" + num(hi3[0]) + "\" y_min=\"" + num(lo3[1]) + "\" y_max=\"" + num(hi3[1]) +
                     "\" z_min=\"" + num(lo3[2]) + "\" z_max=\"" + num(hi3[2]) + "\"" + (d.chance(0.5) ? " fissile_rejection=\"f\"" : "") + " />";
    c.desc << bx << " n " << n0 << " seed " << seed << "\n";
    Doc doc(bx);
    std::cout.setstate(std::ios::badbit);
    FissionBank A(doc.doc.child("fission_box"), n0, *m, xs, rng);
    Model M[2];
    c.check(A.size() == n0, "initial-size", fmt("%d of %d", A.size(), n0));
    bool spread[3] = {false, false, false};
    for (int i = 0; i < A.size(); i++) {
        auto &q = A[i].location_global;
        double x[3] = {q.x, q.y, q.z};
        for (int a = 0; a < 3; a++) {
            c.check(x[a] >= lo3[a] && x[a] <= hi3[a], "outside-box", fmt("axis %d: %.12g in %.12g %.12g", a, x[a], lo3[a], hi3[a]));
            spread[a] = spread[a] || (x[a] - lo3[a]) * 2 > hi3[a] - lo3[a];
        }
        auto &o = A[i].direction;
        c.close(o.ox * o.ox + o.oy * o.oy + o.oz * o.oz, 1, 1e-10, 0, "direction", "");
        c.check(A[i].group >= 0 && A[i].group < lib.ng, "group", fmt("%d of %d", A[i].group, lib.ng));
        c.check(A[i].weight == 1, "weight", "");
    }
    if (n0 >= 50)
        for (int a = 0; a < 3; a++) c.check(spread[a], "box-not-filled", fmt("axis %d", a));
    for (int i = 0; i < A.size(); i++) M[0].s.push_back(of(A[i]));
    std::sort(M[0].s.begin(), M[0].s.end());
    FissionBank B(*m);
    if (d.chance(0.02)) return fair(d, c, B, rng, p);
    FissionBank *bank[2] = {&A, &B};
    int ops = d.range(2, 14), did = 0;
    unsigned id = 1000;
    for (int o = 0; o < ops; o++) {
        int k = d.range(0, 1);
        auto &b = *bank[k];
        switch (d.weighted({5, 4, 1, 2, 2})) {
        case 0: { // sites from several histories, possibly on several threads
            int n = d.range(1, 25), threads = d.chance(0.25) ? 3 : 1;
            std::vector<Particle> v;
            bool weights = d.chance(0.3);
            for (int i = 0; i < n; i++) {
                auto in = [&](double L) { return d.chance(0.1) ? L : L * d.range(1, 9999) / 10000; };
                mocc::Point3 q(in(p.Lx()), in(p.Ly()), in(p.Lz()));
                Particle t(q, mocc::Direction::Isotropic(0.3, 0.6), d.range(0, lib.ng - 1), id++);
                if (weights) t.weight = d.range(1, 64) / 16.0;
                v.push_back(t);
                M[k].s.push_back(of(t));
                M[k].total += t.weight;
            }
            c.desc << "push " << n << " into " << k << "\n";
#pragma omp parallel for num_threads(threads) schedule(dynamic, 1)
            for (int i = 0; i < n; i++) b.push_back(v[i]);
            std::sort(M[k].s.begin(), M[k].s.end());
        } break;
        case 1: {
            if (M[k].s.empty()) break;
            int n = d.range(1, 60);
            c.desc << "resize " << k << " to " << n << "\n";
            auto old = M[k].s;
            b.resize(n, rng);
            auto now = sites(b);
            c.check((int)now.size() == n, "resize", fmt("%d sites instead of %d", (int)now.size(), n));
            if (n >= (int)old.size()) // nothing may be lost, only sites of the bank may be added
                c.check(std::includes(now.begin(), now.end(), old.begin(), old.end()), "lost-site", "");
            else // no site more often than before
                c.check(std::includes(old.begin(), old.end(), now.begin(), now.end()), "invented-site", "");
            for (auto &s : now) c.check(std::binary_search(old.begin(), old.end(), s), "foreign-site", "");
            M[k].s = now;
            did++;
        } break;
        case 2:
            c.desc << "clear " << k << "\n";
            b.clear();
            M[k] = Model();
            break;
        case 3:
            c.desc << "swap\n";
            if (d.chance(0.5)) A.swap(B);
            else B.swap(A);
            std::swap(M[0], M[1]);
            did++;
            break;
        default: {
            if (M[k].s.empty()) break;
            bool unit = true;
            std::map<int, double> pop;
            for (auto &s : M[k].s) {
                unit = unit && s.w == 1;
                auto cell = [](double x, double h, int n) { return std::min(n - 1, (int)std::floor(x / h)); };
                int ix = cell(s.x, p.pitch, p.nx), iy = cell(s.y, p.pitch, p.ny), iz = 0;
                while (iz + 1 < p.nz && s.z > p.z[iz + 1]) iz++;
                double e = 1e-9; // on a face: either side
                if (std::fabs(s.x / p.pitch - std::round(s.x / p.pitch)) < e && s.x < p.Lx() * (1 - e)) unit = false;
                if (std::fabs(s.y / p.pitch - std::round(s.y / p.pitch)) < e && s.y < p.Ly() * (1 - e)) unit = false;
                for (int z = 1; z < p.nz; z++) if (std::fabs(s.z - p.z[z]) < e) unit = false;
                if (s.x == 0 || s.y == 0 || s.z == 0) unit = false;
                pop[(iz * p.ny + iy) * p.nx + ix] += 1.0 / M[k].s.size();
            }
            if (!unit) break;
            double h = 0;
            for (auto &e : pop) h -= e.second * std::log2(e.second);
            c.close(b.shannon_entropy(), h, 1e-9, 1e-9, "entropy", fmt("%d sites", (int)M[k].s.size()));
            c.label(pop.size() > 1 ? "entropy of several cells" : "entropy of one cell");
        }
        }
        for (int j = 0; j < 2; j++) {
            c.check(bank[j]->size() == (int)M[j].s.size(), "size", fmt("bank %d: %d instead of %d", j, bank[j]->size(), (int)M[j].s.size()));
            c.check(sites(*bank[j]) == M[j].s, "sites", fmt("bank %d", j));
            int n = 0;
            for (auto &q : *bank[j]) { (void)q; n++; }
            c.check(n == bank[j]->size(), "iteration", "");
            c.close(bank[j]->total_fission(), M[j].total, 1e-12, 1e-12, "total-weight", fmt("bank %d", j));
        }
    }
    c.nontrivial(did > 0);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C31";
    s.fn = go;
    s.rule = "the history has a resize or a swap, or is a resize repeated 1500 times";
    s.oracle = "a multiset of sites";
    s.quick_cases = 15000;
    s.thorough_cases = 60000;
    s.batch = 20;
    s.assumptions = {"entropy is judged for sites of unit weight off the cell faces"};
    return pbt::pbt_main(argc, argv, s);
}
