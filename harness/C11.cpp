// flavor: opt
// C11: cross-section libraries are read as written
#include "mocc_util.hpp"
#include "core/material_lib.hpp"
#include "util/file_scrubber.hpp"
#include <fstream>
using namespace model;

struct Layout { // how a library is laid out as text; every choice keeps the meaning
    Draw &d;
    int style; // how wild
    std::string eol;
    explicit Layout(Draw &d) : d(d) {
        style = d.range(0, 3);
        eol = style && d.chance(0.2) ? "\r\n" : "\n";
    }
    std::string gap() {
        if (!style) return " ";
        static const std::vector<std::string> g{" ", "  ", "\t", "     ", " \t "};
        return d.pick(g);
    }
    std::string junk() { // lines that carry nothing
        std::string s;
        if (style < 2) return s;
        while (d.chance(0.12)) {
            static const std::vector<std::string> j{"", "   ", "\t", "! XSMACRO fake 0", "!", "  ! 1.0 2.0 3.0 4.0", "! a comment", "!! 1 2"};
            s += d.pick(j) + eol;
        }
        return s;
    }
    std::string line(const std::string &t) {
        std::string s = junk();
        if (style && d.chance(0.2)) s += gap();
        s += t;
        if (style && d.chance(0.15)) s += gap();
        if (style > 1 && d.chance(0.1)) s += d.chance(0.5) ? "! trailing remark 9.9" : " !7";
        return s + eol;
    }
    std::string n(double v) {
        switch (style < 3 ? 0 : (int)d.range(0, 5)) {
        case 1: return fmt("%.17g", v);
        case 2: return fmt("%.16e", v);
        case 3: return fmt("%.16E", v);
        case 4: return "+" + num(v);
        case 5: { // exact decimal
            auto s = fmt("%.60f", v);
            return strtod(s.c_str(), nullptr) == v ? s : num(v);
        }
        default: return num(v);
        }
    }
};

static std::string text(const Lib &lib, const std::vector<int> &order, const std::vector<double> &bounds, Layout &l) {
    std::string s = l.line("Generated " + std::to_string(lib.mats.size()) + " materials");
    s += l.line(std::to_string(lib.ng) + l.gap() + std::to_string(lib.mats.size()));
    std::string b;
    for (double v : bounds) b += (b.empty() ? "" : l.gap()) + l.n(v);
    s += l.line(b);
    for (int i : order) {
        auto &m = lib.mats[i];
        s += l.line("XSMACRO" + l.gap() + m.name + l.gap() + std::to_string(l.style ? l.d.range(0, 3) : 0));
        for (int g = 0; g < lib.ng; g++)
            s += l.line(l.n(m.abs[g]) + l.gap() + l.n(m.nuf[g]) + l.gap() + l.n(m.fis[g]) + l.gap() + l.n(m.chi[g]));
        for (int t = 0; t < lib.ng; t++) {
            std::string r;
            for (int f = 0; f < lib.ng; f++) r += (f ? l.gap() : "") + l.n(m.sc[t][f]);
            s += l.line(r);
        }
    }
    s += l.junk();
    if (l.style > 1 && l.d.chance(0.2) && !s.empty()) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    return s;
}

static void compare(Case &c, const mocc::Material &m, const Mat &w, int ng, const std::string &who) {
    c.check((int)m.xsab().size() == ng && (int)m.xstr().size() == ng && (int)m.xsch().size() == ng, "groups", who);
    c.check(m.is_fissile() == w.fissile(), "fissile", who);
    const auto &sc = m.xssc();
    c.check(sc.n_group() == ng, "scattering-groups", who);
    auto dense = sc.as_vector();
    c.check((int)dense.size() == ng * ng, "scattering-size", who);
    int rows = 0;
    for (auto &r : sc) { (void)r; rows++; }
    c.check(rows == ng, "scattering-rows", who);
    for (int g = 0; g < ng; g++) {
        auto wg = who + fmt(" group %d", g);
        c.check(m.xsab(g) == w.abs[g] && m.xsab()(g) == w.abs[g], "absorption", wg + fmt(": %.17g, written %.17g", m.xsab(g), w.abs[g]));
        c.check(m.xsnf(g) == w.nuf[g] && m.xsnf()(g) == w.nuf[g], "nu-fission", wg);
        c.check(m.xsf(g) == w.fis[g] && m.xsf()(g) == w.fis[g], "fission", wg);
        c.close(m.xsch(g), w.chin(g), 1e-14, 1e-300, "chi", wg);
        c.close(m.xstr(g), w.tr(g), 1e-14, 1e-300, "transport", wg);
        c.close(sc.out(g), w.out(g), 1e-14, 1e-300, "outscatter", wg);
        c.check(sc.self_scat(g) == w.sc[g][g], "self-scatter", wg);
        const auto &row = sc.to(g);
        c.check(row.min_g >= 0 && row.min_g <= g && row.max_g >= g && row.max_g < ng, "row-bounds", wg + fmt(" [%d,%d]", row.min_g, row.max_g));
        c.check(row.end() - row.begin() == row.max_g - row.min_g + 1, "row-length", wg);
        for (int f = 0; f < ng; f++) {
            auto wf = wg + fmt(" from %d", f);
            c.check(dense[g * ng + f] == w.sc[g][f], "scattering", wf);
            if (f >= row.min_g && f <= row.max_g)
                c.check(row[f] == w.sc[g][f] && row.begin()[f - row.min_g] == w.sc[g][f], "row-value", wf);
            else
                c.check(w.sc[g][f] == 0.0, "row-misses", wf);
        }
        if (w.out(g) > 0) {
            auto cdf = sc.out_cdf(g);
            c.check((int)cdf.size() == ng, "cdf-size", wg);
            double prev = 0;
            for (int t = 0; t < ng; t++) {
                c.check(cdf[t] >= prev, "cdf-order", wg);
                c.check(std::abs(cdf[t] - prev - w.sc[t][g] / w.out(g)) < 1e-13, "cdf", wg + fmt(" to %d", t));
                prev = cdf[t];
            }
            c.check(std::abs(prev - 1) < 1e-13, "cdf-end", wg);
        }
    }
}

static void run(Draw &d, Case &c) {
    Lib lib;
    lib.ng = d.range(1, d.chance(0.1) ? 30 : 8);
    int nm = d.range(1, 6);
    std::set<std::string> names;
    bool empty_row = false, up = false;
    auto val = [&]() {
        if (d.chance(0.15)) return 0.0;
        double v = d.chance(0.2) ? d.logreal(1e-12, 1e3) : d.real(0, 2);
        return d.chance(0.7) ? sig(v, d.range(1, 7)) : v;
    };
    for (int i = 0; i < nm; i++) {
        Mat m;
        do {
            static const std::string al = "abcXYZ019-_.+/(),:;#*=";
            m.name.clear();
            if (d.chance(0.2) && !names.empty()) m.name = *names.begin(); // names that begin alike
            int n = d.range(1, 8);
            for (int k = 0; k < n; k++) m.name += al[d.range(0, al.size() - 1)];
        } while (!names.insert(m.name).second);
        bool fiss = d.chance(0.5), inert = d.chance(0.1);
        int pat = d.range(0, 4); // dense, lower triangular, banded, random sparse, diagonal
        m.sc.assign(lib.ng, std::vector<double>(lib.ng, 0.0));
        for (int g = 0; g < lib.ng; g++) {
            m.abs.push_back(inert ? 0.0 : val());
            m.nuf.push_back(fiss ? val() : 0.0);
            m.fis.push_back(fiss ? val() : 0.0);
            m.chi.push_back(fiss || d.chance(0.1) ? val() : 0.0);
            for (int f = 0; f < lib.ng; f++) {
                bool on = pat == 0 ? true : pat == 1 ? f <= g : pat == 2 ? std::abs(f - g) <= 1 : pat == 3 ? d.chance(0.3) : f == g;
                if (on) m.sc[g][f] = val();
            }
            bool e = true;
            for (int f = 0; f < lib.ng; f++) { e = e && m.sc[g][f] == 0; up = up || (f > g && m.sc[g][f] > 0); }
            empty_row = empty_row || e;
        }
        lib.mats.push_back(m);
    }
    std::vector<double> bounds;
    double b = 2e7;
    for (int g = 0; g < lib.ng; g++) { bounds.push_back(sig(b, 6)); b *= d.real(0.1, 0.9); }
    // requested materials: some of them, some twice, any ids
    struct Req { int id, mat; };
    std::vector<Req> req;
    std::set<int> ids;
    int nr = d.range(1, nm + 1);
    for (int i = 0; i < nr; i++) {
        int id;
        do id = d.chance(0.5) ? i + 1 : (int)d.range(1, 100000); while (!ids.insert(id).second);
        req.push_back({id, (int)d.range(0, nm - 1)});
    }
    std::string first;
    for (int pass = 0; pass < 2; pass++) {
        Layout l(d);
        auto order = d.shuffle(nm);
        std::string t = text(lib, order, bounds, l);
        std::string fn = c.dir + "/lib.xsl";
        { std::ofstream o(fn, std::ios::binary); o << t; }
        c.desc << "--- layout " << pass << "\n" << t;
        std::string xml = "<material_lib path=\"" + fn + "\">";
        for (auto &r : req) xml += fmt("<material id=\"%d\" name=\"", r.id) + lib.mats[r.mat].name + "\" />";
        xml += "</material_lib>";
        c.desc << xml << "\n";
        Doc doc(xml);
        std::unique_ptr<mocc::MaterialLib> ml;
        bool scrub = d.chance(0.3);
        if (scrub) {
            mocc::FileScrubber fs(fn.c_str(), "!");
            ml.reset(new mocc::MaterialLib(fs));
            for (auto &r : req) ml->assignID(r.id, lib.mats[r.mat].name);
            c.label("read from an open file");
        } else
            ml.reset(new mocc::MaterialLib(doc.doc.child("material_lib")));
        c.check(ml->n_group() == lib.ng, "n-group", "");
        c.check((int)ml->g_bounds().size() == lib.ng, "bounds", "");
        for (int g = 0; g < lib.ng; g++) c.check(ml->g_bounds()[g] == bounds[g], "bounds", fmt("%d", g));
        c.check(ml->n_materials() == nr, "n-requested", fmt("%d, expected %d", ml->n_materials(), nr));
        c.check((int)ml->materials().size() == nm, "n-library", "");
        for (int i = 0; i < nm; i++) compare(c, ml->materials()[i], lib.mats[order[i]], lib.ng, "library entry " + lib.mats[order[i]].name);
        std::set<int> dense;
        for (auto &r : req) {
            auto who = fmt("id %d ", r.id) + lib.mats[r.mat].name;
            c.check(ml->has(r.id), "has", who);
            compare(c, ml->get_material_by_id(r.id), lib.mats[r.mat], lib.ng, who);
            compare(c, (*ml)[r.id], lib.mats[r.mat], lib.ng, who);
            int k = ml->get_index_by_id(r.id);
            c.check(k >= 0 && k < nr && dense.insert(k).second, "dense-index", who);
            compare(c, *(ml->begin() + k), lib.mats[r.mat], lib.ng, who + " by dense index");
        }
        c.check(ml->end() - ml->begin() == nr, "iteration", "");
        for (int t2 = 0; t2 < 3; t2++) {
            int id = d.range(1, 100000);
            c.check(ml->has(id) == (ids.count(id) > 0), "has", fmt("%d", id));
        }
        bool refused = false;
        try {
            std::string wrong = lib.mats[0].name + "~";
            mocc::MaterialLib copy(*ml);
            copy.assignID(100001, wrong);
        } catch (mocc::Exception &) { refused = true; }
        c.check(refused, "unknown-name-accepted", "");
        if (pass == 1) c.label(l.style == 0 ? "plain layout" : l.style == 1 ? "spacing" : l.style == 2 ? "comments" : "comments and number formats");
    }
    if (up) c.label("upscatter");
    if (empty_row) c.label("empty scattering row");
    c.nontrivial(lib.ng > 1 && nm > 1);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C11";
    s.fn = run;
    s.rule = "several groups and several materials; every library is written in two layouts and orders";
    s.oracle = "the generated numbers themselves (exact, chi and sums within 1e-14)";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.batch = 200;
    s.assumptions = {"non-negative data; material names contain no blanks, '!' or XML markup and are distinct"};
    return pbt::pbt_main(argc, argv, s);
}
