// flavor: opt
// C13: exported data read back unchanged
#include "mocc_util.hpp"
#include "core/xs_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "sweepers/cmdo/correction_data.hpp"
#include "util/h5file.hpp"
using namespace model;

// everything exported about one cell of one (group of) plane(s)
struct Data {
    std::vector<double> eub;
    std::vector<std::vector<double>> xs;  // [cell of np*ny*nx][values]
    std::vector<std::vector<double>> cor; // [cell][angle][group][3]
};

static std::vector<double> values(const mocc::XSMeshRegion &r, int ng) {
    std::vector<double> v;
    for (int g = 0; g < ng; g++) {
        for (double x : {r.xsmactr(g), r.xsmacnf(g), r.xsmacf(g), r.xsmacch(g)}) v.push_back(x);
        auto &row = r.xsmacsc(g);
        for (int f = 0; f < ng; f++) v.push_back(f >= row.min_g && f <= row.max_g ? row[f] : 0.0);
    }
    for (int g = 0; g < ng; g++) { v.push_back(r.xsmacsc().out(g)); v.push_back(r.xsmacrm(g)); }
    return v;
}

// cell index (group of planes, row, column) of each homogenised region
static std::vector<int> cell_of(const Problem &p, const mocc::XSMeshHomogenized &x) {
    auto bot = group_bottoms(p);
    int nxy = p.nx * p.ny;
    std::vector<int> out;
    for (auto &r : x) {
        int cell = *std::min_element(r.reg().begin(), r.reg().end());
        int mp = std::find(bot.begin(), bot.end(), cell / nxy) - bot.begin();
        out.push_back(mp * nxy + cell % nxy);
    }
    return out;
}

static Data collect(const Problem &p, const mocc::XSMeshHomogenized &x, const mocc::CorrectionData &cd, int nang) {
    Data d;
    int n = p.nx * p.ny * p.groups().size();
    d.xs.resize(n);
    d.cor.resize(n);
    auto co = cell_of(p, x);
    for (int i = 0; i < (int)x.size(); i++) d.xs.at(co[i]) = values(x[i], p.lib.ng);
    d.eub = x.eubounds();
    for (int i = 0; i < n; i++)
        for (int a = 0; a < nang; a++)
            for (int g = 0; g < p.lib.ng; g++) {
                d.cor[i].push_back(cd.alpha(i, a, g, mocc::Normal::X_NORM));
                d.cor[i].push_back(cd.alpha(i, a, g, mocc::Normal::Y_NORM));
                d.cor[i].push_back(cd.beta(i, a, g));
            }
    return d;
}

// same core, some other reactor data, written to a file
static Data make_file(Draw &d, Case &c, const Problem &p, int nang, const std::string &name) {
    auto m = make_mesh(p, c.dir);
    mocc::XSMeshHomogenized x(*m);
    mocc::ArrayB2 flux((int)m->n_reg(mocc::MeshTreatment::PLANE), p.lib.ng);
    bool weigh = d.chance(0.7);
    if (weigh) {
        uint64_t s = d.raw(1000000);
        for (auto &v : flux) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; v = 0.1 + (s >> 40) * 1e-6; }
        x.set_flux(flux);
        x.update();
    }
    mocc::CorrectionData cd(*m, nang, p.lib.ng);
    uint64_t s = d.raw(1000000);
    int n = p.nx * p.ny * p.groups().size();
    auto rnd = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (double)(s >> 11) * (1.0 / (1ULL << 53)); };
    for (int i = 0; i < n; i++)
        for (int a = 0; a < nang; a++)
            for (int g = 0; g < p.lib.ng; g++) {
                cd.alpha(i, a, g, mocc::Normal::X_NORM) = rnd();
                cd.alpha(i, a, g, mocc::Normal::Y_NORM) = rnd();
                cd.beta(i, a, g)                        = 0.5 + rnd();
            }
    {
        mocc::H5Node h(c.dir + "/" + name, mocc::H5Access::WRITE);
        x.output(h);
        cd.output(h);
    }
    return collect(p, x, cd, nang);
}

// the same radial layout with one plane, using the lattices of the given one
static Problem one_plane(const Problem &p, int iz) {
    Problem q = p;
    for (auto &a : q.asys) {
        a.lats = {a.lats[p.nz - 1 - iz]};
        a.hz = {a.hz[p.nz - 1 - iz]};
        a.groups.clear();
    }
    q.finish();
    return q;
}

static Lib other_lib(Draw &d, const Lib &l) { // same groups, other numbers
    Lib o = l;
    double f = d.real(0.3, 3.0);
    o.e0 = sig(l.e0 * d.real(0.5, 2), 4);
    for (auto &m : o.mats)
        for (int g = 0; g < l.ng; g++) {
            m.abs[g] *= f * (1 + 0.1 * g);
            m.nuf[g] *= f;
            m.fis[g] *= f;
            for (auto &r : m.sc) r[g] *= 2 - f / 3;
        }
    return o;
}

static void run(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 4;
    lo.max_mats = 3;
    Lib lib = gen_lib(d, lo);
    GeomOpts go;
    go.max_planes = 5;
    go.max_pins_x = 4;
    go.max_pins_y = 4;
    go.max_rings = 2;
    go.max_sub_rad = 1;
    Problem p = gen_geom(d, lib, go);
    int np = p.groups().size(), nang = 2 * d.range(1, 4), ng = lib.ng, nxy = p.nx * p.ny;
    auto m = make_mesh(p, c.dir);
    mocc::XSMeshHomogenized base(*m);
    mocc::CorrectionData cbase(*m, nang, ng);
    Data expect = collect(p, base, cbase, nang);

    std::string tags;
    bool refuse = false, xs_only = false, cor_only = false; // which reader must refuse
    int kind = np == 1 ? (d.chance(0.3) ? 0 : 2) : d.weighted({4, 6, 6});
    auto tag = [&](const std::string &f, int b, int t, bool wb, bool wt) {
        std::string s = "<data file=\"" + f + "\"";
        if (wb) s += " bottom_plane=\"" + std::to_string(b) + "\"";
        if (wt) s += " top_plane=\"" + std::to_string(t) + "\"";
        return s + "/>\n";
    };
    Problem src = p;
    src.lib = other_lib(d, lib);
    if (kind == 0) { // one file, whole core
        auto f = make_file(d, c, src, nang, "whole.h5");
        bool b = d.chance(0.3), t = d.chance(0.3);
        tags = tag("whole.h5", 0, np - 1, b, t);
        expect = f;
        c.label("whole core");
    } else if (kind == 1) { // a file for each range of planes
        std::vector<std::string> parts;
        int z = 0, k = 0;
        bool first = true;
        while (z < np) {
            int len = d.range(1, np - z);
            if (np > 1 && z == 0 && len == np && d.chance(0.7)) len = np - 1;
            if (d.chance(0.15)) { z += len; c.label("planes left alone"); continue; }
            auto one = one_plane(src, d.range(0, p.nz - 1));
            one.lib = other_lib(d, lib);
            std::string name = fmt("part%d.h5", k++);
            auto f = make_file(d, c, one, nang, name);
            for (int q = z; q < z + len; q++)
                for (int i = 0; i < nxy; i++) {
                    expect.xs[q * nxy + i] = f.xs[i];
                    expect.cor[q * nxy + i] = f.cor[i];
                }
            parts.push_back(tag(name, z, z + len - 1, z > 0 || d.chance(0.5), true));
            expect.eub = f.eub;
            z += len;
            first = false;
        }
        if (parts.empty()) c.discard("no planes covered");
        for (int i : d.shuffle(parts.size())) tags += parts[i];
        if (parts.size() > 1) expect.eub.clear(); // files may disagree; each holds its own
        c.label(fmt("%d files", (int)std::min<size_t>(parts.size(), 3)));
    } else { // a file that does not fit
        refuse = true;
        int why = d.range(0, 7);
        Problem q = one_plane(src, 0);
        int b = d.range(0, np - 1), t = d.range(b, np - 1);
        if (why == 0) { // different number of pins
            int ax = d.range(0, 1);
            for (auto &l : q.lats) {
                int o = l.pins[0];
                if (ax) { l.pins.resize(l.pins.size() + l.nx, o); l.ny++; }
                else { std::vector<int> v; for (int y = 0; y < l.ny; y++) { for (int x = 0; x < l.nx; x++) v.push_back(l.pins[y * l.nx + x]); v.push_back(o); } l.pins = v; l.nx++; }
            }
            q.finish();
            c.label("other pin count");
        } else if (why == 1) { // as many pins, laid out differently
            if (p.nx == p.ny) c.discard("square");
            Problem r = q;
            r.lats.assign(1, q.lats[0]);
            r.lats[0].nx = p.ny;
            r.lats[0].ny = p.nx;
            r.lats[0].pins.assign(nxy, q.lats[0].pins[0]);
            r.asys.assign(1, q.asys[0]);
            r.asys[0].lats = {0};
            r.cnx = r.cny = 1;
            r.core = {0};
            r.finish();
            q = r;
            c.label("transposed");
        } else if (why == 2) { // fewer or more energy groups
            LibOpts l2;
            int want = ng;
            while (want == ng) want = d.range(1, 5);
            Lib g2;
            g2.ng = want;
            for (auto &mt : src.lib.mats) {
                Mat n = mt;
                n.abs.resize(want, 0.5); n.nuf.resize(want, 0.0); n.fis.resize(want, 0.0); n.chi.resize(want, 0.0);
                if (n.fissile()) n.chi[0] = 1;
                n.sc.assign(want, std::vector<double>(want, 0.0));
                for (int g = 0; g < want; g++) n.sc[g][g] = 0.1;
                g2.mats.push_back(n);
            }
            if (np > 1 && d.chance(0.5)) { q = src; b = 0; t = np - 1; }
            q.lib = g2;
            c.label(want > ng ? "more groups" : "fewer groups");
        } else if (why == 3) { // planes that do not exist
            if (d.chance(0.5)) t = np + d.range(0, 2); else b = -d.range(1, 2);
            c.label("no such plane");
        } else if (why == 4) { // two files for the same plane
            make_file(d, c, one_plane(src, 0), nang, "second.h5");
            int t2 = d.range(b, np - 1);
            tags = tag("second.h5", d.range(b, std::min(t, t2)), t2, true, true);
            c.label("overlap");
        } else if (why == 5) { // a number of planes that is not the core's
            if (np == 1) {
                for (auto &a : q.asys) { a.lats.push_back(a.lats[0]); a.hz.push_back(a.hz[0]); }
                q.finish();
            } else {
                if (np < 3) c.discard("planes");
                auto s2 = src;
                for (auto &a : s2.asys) {
                    a.groups.clear();
                    a.lats.assign(np - 1, a.lats[0]);
                    a.hz.assign(np - 1, a.hz[0]);
                }
                s2.finish();
                q = s2;
                b = 0; t = np - 1;
            }
            c.label("other plane count");
        } else if (why == 7) { // range upside down
            if (np == 1) c.discard("planes");
            t = d.range(0, np - 2);
            b = d.range(t + 1, np - 1);
            c.label("upside down");
        } else { // other number of angles: concerns correction factors only
            cor_only = true;
            c.label("other angle count");
        }
        int na2 = nang;
        if (cor_only) while (na2 == nang) na2 = 2 * d.range(1, 5);
        make_file(d, c, q, na2, "bad.h5");
        bool explicit_range = np > 1 || why == 3 || why == 4 || d.chance(0.5);
        tags = (d.chance(0.5) ? tags + tag("bad.h5", b, t, explicit_range, explicit_range) : tag("bad.h5", b, t, explicit_range, explicit_range) + tags);
    }
    c.desc << p.geom_xml() << "groups " << ng << " angles " << nang << "\n" << tags;
    Doc doc("<sweeper>" + tags + "</sweeper>");
    // cross sections
    Data got = expect;
    if (!cor_only) {
        bool threw = false;
        std::string why;
        try {
            mocc::XSMeshHomogenized x(*m, doc.doc.child("sweeper"));
            mocc::CorrectionData none(*m, nang, ng);
            auto g = collect(p, x, none, nang);
            got.xs = g.xs;
            got.eub = g.eub;
            if (!refuse) {
                // same cells as before reading
                auto a = cell_of(p, x), b = cell_of(p, base);
                c.check(a == b, "xs-cells", "reading changes which cells a region covers");
            }
        } catch (mocc::Exception &e) { threw = true; why = e.what(); }
        if (refuse) c.check(threw, "xs-not-refused", "cross sections that do not fit are accepted");
        else c.check(!threw, "xs-refused", why);
    }
    {
        bool threw = false;
        std::string why;
        try {
            mocc::CorrectionData cd(*m, nang, ng);
            cd.from_data(doc.doc.child("sweeper"));
            got.cor = collect(p, base, cd, nang).cor;
        } catch (mocc::Exception &e) { threw = true; why = e.what(); }
        if (refuse) c.check(threw, "cor-not-refused", "correction factors that do not fit are accepted");
        else c.check(!threw, "cor-refused", why);
    }
    if (!refuse) {
        for (int i = 0; i < (int)expect.xs.size(); i++) {
            c.check(got.xs[i].size() == expect.xs[i].size(), "xs-count", "");
            for (size_t k = 0; k < expect.xs[i].size(); k++)
                c.close(got.xs[i][k], expect.xs[i][k], 1e-14, 1e-300, "xs", fmt("plane group %d cell %d value %d", i / nxy, i % nxy, (int)k));
            c.check(got.cor[i] == expect.cor[i], "cor", fmt("plane group %d cell %d", i / nxy, i % nxy));
        }
        if (!expect.eub.empty()) c.check(got.eub == expect.eub, "bounds", "energy group bounds");
    }
    c.nontrivial(refuse || (nxy > 1 && ng > 1 && np > 1));
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C13";
    s.fn = run;
    s.rule = "several pins, energy groups and planes, or a file that must be refused";
    s.oracle = "the data that was written";
    s.quick_cases = 15000;
    s.thorough_cases = 120000;
    s.batch = 50;
    s.assumptions = {"planes joined in a group are identical", "every data tag names both ends of its range of planes, or covers the whole core"};
    return pbt::pbt_main(argc, argv, s);
}
