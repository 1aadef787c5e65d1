// flavor: opt
// C09: boundary exchange sends each outgoing flux to its mirror image
#include "quads.hpp"
#include "core/boundary_condition.hpp"
using namespace model;
using mocc::Boundary;
using mocc::Normal;

static const Normal NRM[3] = {Normal::X_NORM, Normal::Y_NORM, Normal::Z_NORM};

struct State { // [group][angle][axis][point]
    std::vector<std::vector<std::array<std::vector<double>, 3>>> v;
};

static void run(Draw &d, Case &c) {
    QuadOpts qo;
    qo.max_azi = 4;
    qo.max_pol = 2;
    qo.max_ls = 8;
    QuadDef qd = gen_quad(d, qo);
    Doc doc(qd.xml);
    mocc::AngularQuadrature q(doc.doc.child("ang_quad"));
    bool half = d.chance(0.4); // only the upper half-space, as the 2-D sweepers keep
    int dim = d.chance(0.5) ? 2 : 3;
    int na = half ? q.ndir() / 2 : q.ndir(), no = q.ndir_oct();
    int ng = d.range(1, 4);
    std::array<Boundary, 6> bc;
    int nrefl = 0, nvac = 0, npre = 0;
    for (int i = 0; i < 6; i++) {
        int k = d.weighted({4, 3, 2});
        bc[i] = k == 0 ? Boundary::REFLECT : k == 1 ? Boundary::VACUUM : Boundary::PRESCRIBED;
        (k == 0 ? nrefl : k == 1 ? nvac : npre)++;
    }
    // points per face: the same for every image of an angle
    bool uniform = d.chance(0.3);
    bool flat = half || d.chance(0.3);
    std::vector<mocc::BC_Size_t> size(na);
    for (int i = 0; i < no; i++) {
        mocc::BC_Size_t s{{(int)d.range(1, 7), (int)d.range(1, 7), flat ? 0 : (int)d.range(1, 7)}};
        if (uniform && i) s = size[0];
        for (int a = i; a < na; a += no) size[a] = s;
    }
    c.desc << qd.xml << "\nangles " << na << " groups " << ng << " dim " << dim << " bc";
    for (auto b : bc) c.desc << ' ' << (b == Boundary::REFLECT ? "reflect" : b == Boundary::VACUUM ? "vacuum" : "prescribed");
    c.desc << "\nsizes";
    for (int i = 0; i < no; i++) c.desc << fmt(" %d/%d/%d", size[i][0], size[i][1], size[i][2]);
    c.desc << "\n";
    bool vector_ctor = half || !uniform || d.chance(0.5);
    mocc::BoundaryCondition in = vector_ctor ? mocc::BoundaryCondition(ng, q, bc, size, dim) : mocc::BoundaryCondition(ng, q, bc, size[0], dim);
    mocc::BoundaryCondition out = vector_ctor ? mocc::BoundaryCondition(1, q, bc, size, dim) : mocc::BoundaryCondition(1, q, bc, size[0], dim);
    int tot = 0;
    for (auto &s : size) tot += s[0] + s[1] + s[2];
    c.check(in.size() == tot * ng && out.size() == tot, "size", "");

    auto mirror = [&](int a, int ax) {
        double v[3] = {q[a].ox, q[a].oy, q[a].oz};
        v[ax] = -v[ax];
        // several user angles may share a direction; keep the position in the octant
        for (int b = a % no; b < q.ndir(); b += no)
            if (v[0] * q[b].ox > 0 && v[1] * q[b].oy > 0 && v[2] * q[b].oz > 0) return b;
        return -1;
    };
    auto entering_face = [&](int a, int ax) { // face through which direction a enters along axis ax
        double v[3] = {q[a].ox, q[a].oy, q[a].oz};
        static const int F[3][2] = {{2, 0}, {3, 1}, {5, 4}};
        return F[ax][v[ax] > 0 ? 0 : 1];
    };
    State m, o;
    m.v.resize(ng);
    for (auto &g : m.v) {
        g.resize(na);
        for (int a = 0; a < na; a++) for (int k = 0; k < 3; k++) g[a][k].assign(size[a][k], 0.0);
    }
    o.v.resize(1);
    o.v[0] = m.v[0];
    auto compare = [&](const mocc::BoundaryCondition &b, const State &s, const char *what) {
        for (size_t g = 0; g < s.v.size(); g++)
            for (int a = 0; a < na; a++) {
                auto all = b.get_boundary(g, a);
                c.check(all.first == size[a][0] + size[a][1] + size[a][2], "angle-size", what);
                int pos = 0;
                for (int k = 0; k < 3; k++) {
                    if (!size[a][k]) continue;
                    auto f = b.get_face(g, a, NRM[k]);
                    c.check(f.first == size[a][k], "face-size", what);
                    for (int i = 0; i < f.first; i++, pos++) {
                        c.check(f.second[i] == s.v[g][a][k][i], what,
                                fmt("group %d angle %d axis %d point %d: %.17g, expected %.17g", (int)g, a, k, i, f.second[i], s.v[g][a][k][i]));
                        c.check(all.second[pos] == f.second[i], "angle-view", what);
                    }
                }
            }
    };
    auto fill = [&](mocc::BoundaryCondition &b, State &s) {
        for (size_t g = 0; g < s.v.size(); g++)
            for (int a = 0; a < na; a++)
                for (int k = 0; k < 3; k++) {
                    if (!size[a][k]) continue;
                    auto f = b.get_face(g, a, NRM[k]);
                    for (int i = 0; i < f.first; i++) f.second[i] = s.v[g][a][k][i] = d.real(0, 10);
                }
    };
    // start from a scalar: zero at vacuum faces, the value at reflecting ones
    double val = d.real(0, 5);
    auto scalar = [&](mocc::BoundaryCondition &b, State &s, double x) {
        b.initialize_scalar(x);
        for (auto &g : s.v)
            for (int a = 0; a < na; a++)
                for (int k = 0; k < 3; k++) {
                    auto t = bc[entering_face(a, k)];
                    double y = t == Boundary::VACUUM ? 0.0 : t == Boundary::REFLECT ? x : 1.0 / (4 * PI_) * (dim == 2 ? 2.0 : 1.0);
                    for (auto &e : g[a][k]) e = y;
                }
        // prescribed values up to rounding of the constant
        for (size_t g = 0; g < s.v.size(); g++)
            for (int a = 0; a < na; a++)
                for (int k = 0; k < 3; k++) {
                    if (!size[a][k] || bc[entering_face(a, k)] != Boundary::PRESCRIBED) continue;
                    auto f = b.get_face(g, a, NRM[k]);
                    for (int i = 0; i < f.first; i++) {
                        c.close(f.second[i], s.v[g][a][k][i], 1e-14, 0, "prescribed-value", "");
                        s.v[g][a][k][i] = f.second[i];
                    }
                }
    };
    scalar(in, m, val);
    compare(in, m, "initial-scalar");
    scalar(out, o, 0.0);
    auto upd = [&](int g, int a) {
        for (int k = 0; k < 3; k++) {
            if (!size[a][k]) continue;
            int b = mirror(a, k);
            auto t = bc[entering_face(b, k)];
            for (int i = 0; i < size[a][k]; i++) {
                if (t == Boundary::VACUUM) m.v[g][b][k][i] = 0;
                if (t == Boundary::REFLECT) m.v[g][b][k][i] = o.v[0][a][k][i];
            }
        }
    };
    int nops = d.range(1, 8);
    bool bulk = false, single = false;
    for (int t = 0; t < nops; t++) {
        switch (d.weighted({3, 3, 3, 2, 1, 1})) {
        case 0: fill(out, o); c.desc << "set outgoing\n"; break;
        case 1: {
            int g = d.range(0, ng - 1);
            c.desc << "update group " << g << "\n";
            in.update(g, out);
            for (int a = 0; a < na; a++) upd(g, a);
            bulk = true;
            compare(in, m, "update-group");
            break;
        }
        case 2: { // a permutation of all angles, fluxes set as it goes along
            int g = d.range(0, ng - 1);
            c.desc << "update group " << g << " angle by angle\n";
            auto ord = d.shuffle(na);
            for (int a : ord) {
                if (d.chance(0.3))
                    for (int k = 0; k < 3; k++) {
                        if (!size[a][k]) continue;
                        auto f = out.get_face(0, a, NRM[k]);
                        for (int i = 0; i < f.first; i++) f.second[i] = o.v[0][a][k][i] = d.real(0, 10);
                    }
                in.update(g, a, out);
                upd(g, a);
            }
            single = true;
            compare(in, m, "update-angles");
            // every angle has been updated: the same as a fresh update of all
            in.update(g, out);
            compare(in, m, "update-all-after-angles");
            break;
        }
        case 3: {
            int g = d.range(0, ng - 1), a = d.range(0, na - 1);
            c.desc << "update group " << g << " angle " << a << "\n";
            in.update(g, a, out);
            upd(g, a);
            single = true;
            compare(in, m, "update-angle");
            break;
        }
        case 4: fill(in, m); c.desc << "set incoming\n"; break;
        case 5: {
            mocc::ArrayB1 sp(ng);
            for (int g = 0; g < ng; g++) sp(g) = d.real(0, 3);
            in.initialize_spectrum(sp);
            c.desc << "spectrum\n";
            for (int g = 0; g < ng; g++)
                for (int a = 0; a < na; a++)
                    for (int k = 0; k < 3; k++) {
                        if (!size[a][k]) continue;
                        auto f = in.get_face(g, a, NRM[k]);
                        for (int i = 0; i < f.first; i++)
                            m.v[g][a][k][i] = bc[entering_face(a, k)] == Boundary::REFLECT ? sp(g) : f.second[i];
                    }
            compare(in, m, "initial-spectrum");
        }
        }
        // copy_face copies one face
        int g = d.range(0, ng - 1), a = d.range(0, na - 1), k = d.range(0, flat ? 1 : 2);
        std::vector<mocc::real_t> buf(size[a][k] + 1, -7);
        in.copy_face(g, a, NRM[k], buf.data());
        for (int i = 0; i < size[a][k]; i++) c.check(buf[i] == m.v[g][a][k][i], "copy-face", "");
        c.check(buf[size[a][k]] == -7, "copy-face", "wrote past the face");
        compare(out, o, "outgoing-changed");
    }
    if (bulk) c.label("whole update");
    if (single) c.label("angle by angle");
    if (npre) c.label("prescribed faces");
    c.nontrivial(nrefl && nvac && (bulk || single) && no > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C09";
    s.fn = run;
    s.rule = "more than one angle per octant, both reflecting and vacuum faces, at least one update";
    s.oracle = "a model of the boundary state kept per face and point, mirrored by direction vectors, compared after every operation";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.batch = 200;
    s.assumptions = {"faces normal to x and y have at least one point", "the images of an angle have equally many points on a face"};
    return pbt::pbt_main(argc, argv, s);
}
