// flavor: san
// C33: bad input is refused with a diagnosis, never executed or crashed on
#include "e2e.hpp"
#include <climits>
using namespace model;
typedef pugi::xml_node Node;
typedef std::vector<std::string> Words;

struct Input {
    Doc doc;
    std::string lib, libfile;
    bool has_lib = true;
    std::vector<std::string> args;
    std::string raw; // text instead of the document
    bool no_file = false;
    int ng = 1;
    std::string solver;
    int nreg = 0; // of the fixed source
    explicit Input(const std::string &x) : doc(x) {}
    std::vector<Node> all(const char *name) { // anywhere
        std::vector<Node> v;
        std::function<void(Node)> rec = [&](Node n) {
            for (auto c : n.children()) {
                if (std::string(c.name()) == name) v.push_back(c);
                rec(c);
            }
        };
        rec(doc.doc);
        return v;
    }
    Node one(Draw &d, const char *name) {
        auto v = all(name);
        return v.empty() ? Node() : v[d.range(0, v.size() - 1)];
    }
    Node solve() { return doc.doc.child("solver"); }
    Node sweep() { return solve().child("sweeper"); }
};

static bool set(Node n, const char *a, const std::string &v) {
    if (n.empty() || n.attribute(a).empty()) return false;
    return n.attribute(a).set_value(v.c_str());
}
static bool del(Node n, const char *a) { return !n.empty() && n.remove_attribute(a); }
static bool text(Node n, const std::string &v) {
    if (n.empty()) return false;
    Node t = n.first_child();
    for (; t && t.type() != pugi::node_pcdata; t = t.next_sibling()) {}
    if (!t) return false;
    return t.set_value(v.c_str());
}
static std::string text(Node n) { return n.child_value(); }
static Words words(const std::string &s) {
    std::stringstream i(s);
    Words v;
    std::string w;
    while (i >> w) v.push_back(w);
    return v;
}
static std::string join(const Words &w) {
    std::string s;
    for (auto &x : w) s += (s.empty() ? "" : " ") + x;
    return s;
}
static bool drop_word(Draw &d, Node n) {
    auto w = words(text(n));
    if (w.empty()) return false;
    w.erase(w.begin() + d.range(0, w.size() - 1));
    return text(n, join(w) + " ");
}
static bool add_word(Draw &d, Node n) {
    auto w = words(text(n));
    if (w.empty()) return false;
    w.insert(w.begin() + d.range(0, w.size()), w[d.range(0, w.size() - 1)]);
    return text(n, join(w));
}
static bool put_word(Draw &d, Node n, const std::string &v) {
    auto w = words(text(n));
    if (w.empty()) return false;
    w[d.range(0, w.size() - 1)] = v;
    return text(n, join(w));
}
static bool dup(Node n) { // a second definition of the same identifier
    if (n.empty()) return false;
    n.parent().insert_copy_after(n, n);
    return true;
}
static std::string unused(Draw &d) { return std::to_string(d.range(1001, 1009)); }
static std::string junk(Draw &d) { return d.pick(Words{"abc", "x1", "?", "two", "-", "#"}); }
static std::string nonpos(Draw &d) { return d.pick(Words{"0", "-1", "-2.5", "-0.001", "0.0"}); }
static std::string neg(Draw &d) { return d.pick(Words{"-1", "-7", "-100"}); }
static std::string nonposint(Draw &d) { return d.pick(Words{"0", "-1", "-3"}); }
// first line at or after which the test holds
static std::vector<std::string> lines(const std::string &s) {
    std::stringstream i(s);
    std::vector<std::string> v;
    std::string l;
    while (std::getline(i, l)) v.push_back(l);
    return v;
}
static std::string unlines(const std::vector<std::string> &v) {
    std::string s;
    for (auto &l : v) s += l + "\n";
    return s;
}

struct Mistake {
    const char *name;
    std::function<bool(Draw &, Input &)> make; // false: does not apply here
};

static Node cyl(Draw &d, Input &i) {
    std::vector<Node> v;
    for (auto n : i.all("mesh")) if (std::string(n.attribute("type").value()) == "cyl") v.push_back(n);
    return v.empty() ? Node() : v[d.range(0, v.size() - 1)];
}
static Node rect(Draw &d, Input &i) {
    std::vector<Node> v;
    for (auto n : i.all("mesh")) if (std::string(n.attribute("type").value()) == "rect") v.push_back(n);
    return v.empty() ? Node() : v[d.range(0, v.size() - 1)];
}
static bool libline(Draw &d, Input &i, std::function<bool(std::vector<std::string> &, std::vector<int> &)> f) {
    auto l = lines(i.lib);
    std::vector<int> head; // lines with XSMACRO
    for (size_t k = 0; k < l.size(); k++) if (l[k].find("XSMACRO") != std::string::npos && l[k].find("XSMACRO") < l[k].find('!')) head.push_back(k);
    if (head.empty() || !f(l, head)) return false;
    i.lib = unlines(l);
    return true;
}
// data lines after one of the headers, comments and blank lines aside
static std::vector<int> data_lines(const std::vector<std::string> &l, int from, int n) {
    std::vector<int> v;
    for (size_t k = from + 1; k < l.size() && (int)v.size() < n; k++) {
        std::string s = l[k].substr(0, l[k].find('!'));
        if (!words(s).empty()) v.push_back(k);
    }
    return v;
}

#define M(name, ...) {name, [](Draw &d, Input &i) -> bool { (void)d; __VA_ARGS__ }}
static const std::vector<Mistake> mistakes = {
    // command line and file
    M("no such input file", i.no_file = true; return true;),
    M("truncated XML", std::stringstream s; i.doc.doc.save(s); std::string t = s.str(); i.raw = t.substr(0, t.rfind("</")); return true;),
    M("XML tag not closed", std::stringstream s; i.doc.doc.save(s); i.raw = s.str() + "<pin id=\"3\">"; return true;),
    M("empty input file", i.raw = " "; return true;),
    M("amendment of nothing", i.args = {"-a", "solver/nothing/here=3"}; return true;),
    M("amendment without value", i.args = {"-a", "solver/max_iter"}; return true;),
    M("two input files", i.args = {"other.xml"}; return true;),
    // pin meshes
    M("mesh without id", return del(i.one(d, "mesh"), "id");),
    M("mesh with id that is no number", return set(i.one(d, "mesh"), "id", junk(d));),
    M("mesh with negative id", return set(i.one(d, "mesh"), "id", neg(d));),
    M("mesh defined twice", return dup(i.one(d, "mesh"));),
    M("unknown mesh type", return set(i.one(d, "mesh"), "type", d.pick(Words{"hex", "cylinder", "", "Cyl2"}));),
    M("mesh without type", return del(i.one(d, "mesh"), "type");),
    M("mesh without pitch", return del(i.one(d, "mesh"), "pitch");),
    M("pitch not positive", return set(i.one(d, "mesh"), "pitch", nonpos(d));),
    M("pitch that is no number", return set(i.one(d, "mesh"), "pitch", junk(d));),
    M("radii that are no numbers", return put_word(d, cyl(d, i).child("radii"), junk(d));),
    M("radii missing", return cyl(d, i).remove_child("radii");),
    M("radii empty", return text(cyl(d, i).child("radii"), " ");),
    M("radius beyond the pitch", auto n = cyl(d, i); if (!n) return false; auto w = words(text(n.child("radii"))); w.back() = num(n.attribute("pitch").as_double() * d.real(0.51, 2.0)); return text(n.child("radii"), join(w));),
    M("radii out of order", auto n = cyl(d, i); if (!n) return false; auto w = words(text(n.child("radii"))); if (w.size() < 2) return false; std::swap(w[0], w[1]); return text(n.child("radii"), join(w));),
    M("radius not positive", auto n = cyl(d, i); if (!n) return false; auto w = words(text(n.child("radii"))); w[0] = nonpos(d); return text(n.child("radii"), join(w));),
    M("same radius twice", auto n = cyl(d, i); if (!n) return false; auto w = words(text(n.child("radii"))); if (w.size() < 2) return false; w[0] = w[1]; return text(n.child("radii"), join(w));),
    M("sub_azi odd", return text(cyl(d, i).child("sub_azi"), d.pick(Words{"1", "3", "5", "7"}));),
    M("sub_azi too large", return text(cyl(d, i).child("sub_azi"), d.pick(Words{"10", "16", "100"}));),
    M("sub_azi not positive", return text(cyl(d, i).child("sub_azi"), d.pick(Words{"0", "-2", "-4"}));),
    M("sub_azi that is no number", return text(cyl(d, i).child("sub_azi"), junk(d));),
    M("sub_azi missing", return cyl(d, i).remove_child("sub_azi");),
    M("sub_radii missing", return cyl(d, i).remove_child("sub_radii");),
    M("sub_radii too many", return add_word(d, cyl(d, i).child("sub_radii"));),
    M("sub_radii too few", return drop_word(d, cyl(d, i).child("sub_radii"));),
    M("sub_radii not positive", return put_word(d, cyl(d, i).child("sub_radii"), nonposint(d));),
    M("sub_radii that are no numbers", return put_word(d, cyl(d, i).child("sub_radii"), junk(d));),
    M("sub_x not positive", return text(rect(d, i).child("sub_x"), nonposint(d));),
    M("sub_y not positive", return text(rect(d, i).child("sub_y"), nonposint(d));),
    M("sub_x missing", return rect(d, i).remove_child("sub_x");),
    M("sub_y missing", return rect(d, i).remove_child("sub_y");),
    M("sub_x that is no number", return text(rect(d, i).child("sub_x"), junk(d));),
    M("no meshes", bool any = false; while (i.doc.doc.remove_child("mesh")) any = true; return any;),
    // pins
    M("pin without id", return del(i.one(d, "pin"), "id");),
    M("pin with id that is no number", return set(i.one(d, "pin"), "id", junk(d));),
    M("pin defined twice", return dup(i.one(d, "pin"));),
    M("pin without mesh", return del(i.one(d, "pin"), "mesh");),
    M("pin of unknown mesh", return set(i.one(d, "pin"), "mesh", unused(d));),
    M("pin with too many materials", return add_word(d, i.one(d, "pin"));),
    M("pin with too few materials", return drop_word(d, i.one(d, "pin"));),
    M("pin of unknown material", return put_word(d, i.one(d, "pin"), unused(d));),
    M("pin of a material that is no number", return put_word(d, i.one(d, "pin"), junk(d));),
    M("no pins", bool any = false; while (i.doc.doc.remove_child("pin")) any = true; return any;),
    // lattices
    M("lattice without id", return del(i.one(d, "lattice"), "id");),
    M("lattice defined twice", return dup(i.one(d, "lattice"));),
    M("lattice without nx", return del(i.one(d, "lattice"), "nx");),
    M("lattice without ny", return del(i.one(d, "lattice"), "ny");),
    M("lattice dimension not positive", return set(i.one(d, "lattice"), d.chance(0.5) ? "nx" : "ny", nonposint(d));),
    M("lattice dimensions both negative", auto n = i.one(d, "lattice"); int a = n.attribute("nx").as_int(); int b = n.attribute("ny").as_int(); return set(n, "nx", std::to_string(-a)) && set(n, "ny", std::to_string(-b));),
    M("lattice dimension that is no number", return set(i.one(d, "lattice"), d.chance(0.5) ? "nx" : "ny", junk(d));),
    M("lattice dimension larger than its pins", auto n = i.one(d, "lattice"); return set(n, "nx", std::to_string(n.attribute("nx").as_int() + d.range(1, 3)));),
    M("lattice with too many pins", return add_word(d, i.one(d, "lattice"));),
    M("lattice with too few pins", return drop_word(d, i.one(d, "lattice"));),
    M("lattice of unknown pin", return put_word(d, i.one(d, "lattice"), unused(d));),
    M("lattice of pin that is no number", return put_word(d, i.one(d, "lattice"), junk(d));),
    M("no lattices", bool any = false; while (i.doc.doc.remove_child("lattice")) any = true; return any;),
    M("pins of different pitch in a lattice", auto n = i.one(d, "lattice"); auto w = words(text(n)); if (w.size() < 2 || n.attribute("nx").as_int() < 2 || n.attribute("ny").as_int() < 2) return false; if (i.all("mesh").empty()) return false; auto m = i.all("mesh")[0]; auto c = m.parent().insert_copy_after(m, m); c.attribute("id").set_value(2001); c.attribute("pitch").set_value(m.attribute("pitch").as_double() * 1.5);
      Node p; for (auto q : i.all("pin")) if (q.attribute("mesh").as_int() == m.attribute("id").as_int()) p = q; if (!p) return false; auto q = p.parent().insert_copy_after(p, p); q.attribute("id").set_value(2001); q.attribute("mesh").set_value(2001); return put_word(d, n, "2001");),
    // assemblies
    M("assembly without id", return del(i.one(d, "assembly"), "id");),
    M("assembly defined twice", return dup(i.one(d, "assembly"));),
    M("assembly without np", return del(i.one(d, "assembly"), "np");),
    M("np not positive", return set(i.one(d, "assembly"), "np", nonposint(d));),
    M("np too large", auto n = i.one(d, "assembly"); return set(n, "np", std::to_string(n.attribute("np").as_int() + d.range(1, 2)));),
    M("np that is no number", return set(i.one(d, "assembly"), "np", junk(d));),
    M("np negative with as many planes", auto n = i.one(d, "assembly"); return set(n, "np", std::to_string(-n.attribute("np").as_int()));),
    M("no plane heights", auto n = i.one(d, "assembly"); bool a = n.remove_attribute("hz"), b = n.remove_child("hz"); return a || b;),
    M("plane height not positive", auto n = i.one(d, "assembly"); return n.child("hz") ? put_word(d, n.child("hz"), nonpos(d)) : set(n, "hz", nonpos(d));),
    M("plane height that is no number", auto n = i.one(d, "assembly"); return n.child("hz") ? put_word(d, n.child("hz"), junk(d)) : set(n, "hz", junk(d));),
    M("too many plane heights", return add_word(d, i.one(d, "assembly").child("hz"));),
    M("too few plane heights", return drop_word(d, i.one(d, "assembly").child("hz"));),
    M("heights given twice", auto n = i.one(d, "assembly"); if (n.child("hz")) n.append_attribute("hz") = "1.0"; else { auto h = n.append_child("hz"); std::string s; for (int k = 0; k < n.attribute("np").as_int(); k++) s += "1.0 "; h.text().set(s.c_str()); } return true;),
    M("no lattices in assembly", return i.one(d, "assembly").remove_child("lattices");),
    M("assembly of unknown lattice", auto n = i.one(d, "assembly").child("lattices"); std::string t = text(n); size_t a = t.find_first_of("0123456789"); if (a == t.npos) return false; size_t b = t.find_first_not_of("0123456789", a); return text(n, t.substr(0, a) + unused(d) + (b == t.npos ? "" : t.substr(b)));),
    M("assembly of too many lattices", return add_word(d, i.one(d, "assembly").child("lattices")) && text(i.one(d, "assembly").child("lattices")).find('{') == std::string::npos;),
    M("brace not closed", auto n = i.one(d, "assembly").child("lattices"); return text(n, "{ " + text(n));),
    M("brace not opened", auto n = i.one(d, "assembly").child("lattices"); return text(n, text(n) + " }");),
    M("empty braces", auto n = i.one(d, "assembly").child("lattices"); return text(n, text(n) + " { }");),
    M("lattices of different shape in an assembly", auto n = i.one(d, "assembly").child("lattices"); std::string t = text(n); std::string plain; for (char ch : t) plain += (ch == '{' || ch == '}') ? ' ' : ch; auto l = words(plain); if (l.size() < 2) return false; auto m = i.one(d, "lattice"); auto q = m.parent().insert_copy_after(m, m); q.attribute("id").set_value(2001); auto w = words(text(m)); bool x = d.chance(0.5); int nx = m.attribute("nx").as_int(); int ny = m.attribute("ny").as_int(); Words v; for (int r = 0; r < (x ? ny : ny + 1); r++) for (int k = 0; k < (x ? nx + 1 : nx); k++) v.push_back(w[d.range(0, w.size() - 1)]);
      set(q, x ? "nx" : "ny", std::to_string(x ? nx + 1 : ny + 1)); text(q, join(v)); Words ids; for (auto o : i.all("lattice")) ids.push_back(o.attribute("id").value()); l[d.range(0, l.size() - 1)] = "2001"; bool same = true; for (auto &o : l) same = same && o == l[0]; if (same) return false; for (auto o : i.all("lattice")) if (o != q && std::find(l.begin(), l.end(), std::string(o.attribute("id").value())) != l.end() && o.attribute("nx").as_int() == q.attribute("nx").as_int() && o.attribute("ny").as_int() == q.attribute("ny").as_int()) return false; return text(n, join(l));),
    M("no assemblies", bool any = false; while (i.doc.doc.remove_child("assembly")) any = true; return any;),
    M("assemblies of different heights", if (i.all("assembly").size() < 2) return false; auto n = i.one(d, "assembly"); bool used = false; auto w = words(text(i.doc.doc.child("core"))); bool other = false; for (auto &x : w) { if (x == n.attribute("id").value()) used = true; else other = true; } if (!used || !other) return false;
      auto other_height = [&](const std::string &h) { return d.chance(0.3) ? std::string("17.5") : num(atof(h.c_str()) * d.pick(std::vector<double>{0.999, 1.001, 0.99, 1.02, 1.1, 0.9})); };
      if (n.child("hz")) { auto h = words(text(n.child("hz"))); auto &x = h[d.range(0, h.size() - 1)]; x = other_height(x); return text(n.child("hz"), join(h)); } return set(n, "hz", other_height(n.attribute("hz").value()));),
    M("assemblies of different grouping", if (i.all("assembly").size() < 2) return false; auto n = i.one(d, "assembly"); bool used = false; auto w = words(text(i.doc.doc.child("core"))); bool other = false; for (auto &x : w) { if (x == n.attribute("id").value()) used = true; else other = true; } if (!used || !other) return false;
      std::string t = text(n.child("lattices")); std::string plain; for (char ch : t) plain += (ch == '{' || ch == '}') ? ' ' : ch; auto l = words(plain); if (l.size() < 2) return false; bool grouped = false; for (size_t b = t.find('{'); b != t.npos; b = t.find('{', b + 1)) grouped = grouped || words(t.substr(b + 1, t.find('}', b) - b - 1)).size() > 1; if (grouped) return text(n.child("lattices"), join(l)); size_t k = d.range(0, l.size() - 2); l[k] = "{ " + l[k]; l[k + 1] += " }"; return text(n.child("lattices"), join(l));),
    M("assemblies grouped in another order", if (i.all("assembly").size() < 2) return false; auto w = words(text(i.doc.doc.child("core"))); Words u; for (auto &x : w) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x); if (u.size() < 2) return false;
      int np = i.one(d, "assembly").attribute("np").as_int(); if (np < 3) return false; int ka = d.range(0, np - 2); int kb = d.range(0, np - 3); kb += kb >= ka; for (auto n : i.all("assembly")) { std::string t = text(n.child("lattices")); std::string plain; for (char ch : t) plain += (ch == '{' || ch == '}') ? ' ' : ch; auto l = words(plain); if ((int)l.size() != np) return false; bool a = n.attribute("id").value() == u[0]; for (auto &x : l) x = l[0]; size_t k = a ? ka : kb; l[k] = "{ " + l[k]; l[k + 1] += " }"; text(n.child("lattices"), join(l)); } return true;),
    // core
    M("no core", return i.doc.doc.remove_child("core");),
    M("core without nx", return del(i.doc.doc.child("core"), "nx");),
    M("core dimension not positive", return set(i.doc.doc.child("core"), d.chance(0.5) ? "nx" : "ny", nonposint(d));),
    M("core dimensions both negative", auto n = i.doc.doc.child("core"); int a = n.attribute("nx").as_int(); int b = n.attribute("ny").as_int(); return set(n, "nx", std::to_string(-a)) && set(n, "ny", std::to_string(-b));),
    M("core with too many assemblies", return add_word(d, i.doc.doc.child("core"));),
    M("core with too few assemblies", return drop_word(d, i.doc.doc.child("core"));),
    M("core of unknown assembly", return put_word(d, i.doc.doc.child("core"), unused(d));),
    M("core of assembly that is no number", return put_word(d, i.doc.doc.child("core"), junk(d));),
    M("boundary missing", return del(i.doc.doc.child("core"), d.pick(Words{"north", "south", "east", "west", "top", "bottom"}).c_str());),
    M("unknown boundary", return set(i.doc.doc.child("core"), d.pick(Words{"north", "south", "east", "west", "top", "bottom"}).c_str(), d.pick(Words{"reflective", "void", "", "periodic", "1"}));),
    M("core not enabled", i.doc.doc.child("core").append_attribute("enabled") = d.pick(Words{"f", "false", "0"}).c_str(); return true;),
    M("two cores", return dup(i.doc.doc.child("core"));),
    // materials
    M("no material library", return i.doc.doc.remove_child("material_lib");),
    M("material library without path", return del(i.doc.doc.child("material_lib"), "path");),
    M("missing library file", i.has_lib = false; return true;),
    M("unknown material name", return set(i.one(d, "material"), "name", "no-such-material");),
    M("material without name", return del(i.one(d, "material"), "name");),
    M("identifier of a used material that is no number", auto n = i.one(d, "material"); bool used = false; for (auto p : i.all("pin")) for (auto &w : words(text(p))) if (w == n.attribute("id").value()) used = true; return used && set(n, "id", junk(d));),
    M("material identifier defined twice", return dup(i.one(d, "material"));),
    M("two materials of one identifier", if (i.all("material").size() < 2) return false; auto v = i.all("material"); return set(v[0], "id", v[1].attribute("id").value());),
    M("no materials", bool any = false; while (i.doc.doc.child("material_lib").remove_child("material")) any = true; return any;),
    M("library empty", i.lib = ""; return true;),
    M("library cut off", auto l = lines(i.lib); std::vector<int> full; for (size_t k = 0; k < l.size(); k++) if (!words(l[k].substr(0, l[k].find('!'))).empty()) full.push_back(k); l.resize(full[d.range(0, full.size() - 1)]); i.lib = unlines(l); return true;),
    M("library line removed", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { auto v = data_lines(l, h[d.range(0, h.size() - 1)], 2 * i.ng); if (v.empty()) return false; l.erase(l.begin() + v[d.range(0, v.size() - 1)]); return i.ng != 4 || true; });),
    M("library number that is no number", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { auto v = data_lines(l, h[d.range(0, h.size() - 1)], 2 * i.ng); int k = v[d.range(0, v.size() - 1)]; auto w = words(l[k].substr(0, l[k].find('!'))); w[d.range(0, w.size() - 1)] = junk(d); l[k] = join(w); return true; });),
    M("library line with a number too few", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { auto v = data_lines(l, h[d.range(0, h.size() - 1)], 2 * i.ng); int k = v[d.range(0, v.size() - 1)]; auto w = words(l[k].substr(0, l[k].find('!'))); if (w.size() < 2) return false; w.pop_back(); l[k] = join(w); return true; });),
    M("library line with a number too many", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { auto v = data_lines(l, h[d.range(0, h.size() - 1)], 2 * i.ng); int k = v[d.range(0, v.size() - 1)]; l[k] = l[k].substr(0, l[k].find('!')) + " 0.25"; return true; });),
    M("scattering row with a number too many", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { auto v = data_lines(l, h[d.range(0, h.size() - 1)], 2 * i.ng); if ((int)v.size() < 2 * i.ng) return false; int k = v[d.range(i.ng, 2 * i.ng - 1)]; l[k] = l[k].substr(0, l[k].find('!')) + " 0.0"; return true; });),
    M("library header misspelt", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { int k = h[d.range(0, h.size() - 1)]; l[k].replace(l[k].find("XSMACRO"), 7, d.pick(Words{"XSMICRO", "MACRO", "XS"})); return true; });),
    M("library has fewer materials than it says", i.lib.size(); auto l = lines(i.lib); auto v = data_lines(l, -1, 2); if (v.size() < 2) return false; auto w = words(l[v[1]].substr(0, l[v[1]].find('!'))); if (w.size() < 2) return false; w[1] = std::to_string(atoi(w[1].c_str()) + d.range(1, 3)); l[v[1]] = join(w); i.lib = unlines(l); return true;),
    M("library group count that is no number", auto l = lines(i.lib); auto v = data_lines(l, -1, 2); if (v.size() < 2) return false; auto w = words(l[v[1]].substr(0, l[v[1]].find('!'))); w[d.range(0, 1)] = junk(d); l[v[1]] = join(w); i.lib = unlines(l); return true;),
    M("library group count not positive", auto l = lines(i.lib); auto v = data_lines(l, -1, 2); if (v.size() < 2) return false; auto w = words(l[v[1]].substr(0, l[v[1]].find('!'))); w[0] = nonposint(d); l[v[1]] = join(w); i.lib = unlines(l); return true;),
    M("library group count too large", auto l = lines(i.lib); auto v = data_lines(l, -1, 2); if (v.size() < 2) return false; auto w = words(l[v[1]].substr(0, l[v[1]].find('!'))); w[0] = std::to_string(i.ng + d.range(1, 3)); l[v[1]] = join(w); i.lib = unlines(l); return true;),
    M("material twice in the library", return libline(d, i, [&](std::vector<std::string> &l, std::vector<int> &h) { if (h.size() < 2) return false; l[h[0]] = l[h[1]]; return true; });),
    // solver
    M("no solver", return i.doc.doc.remove_child("solver");),
    M("unknown solver", return set(i.solve(), "type", d.pick(Words{"eigen", "", "fixed", "keff"}));),
    M("solver without type", return del(i.solve(), "type");),
    M("k_tol missing", return i.solver == "eigenvalue" && del(i.solve(), "k_tol");),
    M("k_tol not positive", return i.solver == "eigenvalue" && set(i.solve(), "k_tol", nonpos(d));),
    M("k_tol that is no number", return i.solver == "eigenvalue" && set(i.solve(), "k_tol", junk(d));),
    M("psi_tol missing", return i.solver == "eigenvalue" && del(i.solve(), "psi_tol");),
    M("psi_tol not positive", return i.solver == "eigenvalue" && set(i.solve(), "psi_tol", nonpos(d));),
    M("max_iter missing", return del(i.solve(), "max_iter");),
    M("max_iter negative", return set(i.solve(), "max_iter", neg(d));),
    M("min_iter above max_iter", if (i.solver != "eigenvalue") return false; i.solve().append_attribute("min_iter") = i.solve().attribute("max_iter").as_int() + 5; return true;),
    M("min_iter negative", if (i.solver != "eigenvalue") return false; i.solve().append_attribute("min_iter") = -3; return true;),
    M("flux_tol not positive", return i.solver == "fixed_source" && set(i.solve(), "flux_tol", nonpos(d));),
    M("flux_tol missing", return i.solver == "fixed_source" && del(i.solve(), "flux_tol");),
    M("source file missing", return i.solver == "fixed_source" && set(i.solve().child("source"), "file", "nothing.h5");),
    M("no source tag", return i.solver != "eigenvalue_mc" && i.solve().remove_child("source");),
    M("unknown scattering", return set(i.solve().child("source"), "scattering", d.pick(Words{"P9", "", "iso", "Q0"}));),
    M("scattering missing", return del(i.solve().child("source"), "scattering");),
    M("no sweeper", return i.solve().remove_child("sweeper");),
    M("unknown sweeper", return set(i.sweep(), "type", d.pick(Words{"MOC3", "", "diffusion", "snn"}));),
    M("sweeper without type", return del(i.sweep(), "type");),
    M("n_inner missing", Node n = i.sweep().attribute("n_inner") ? i.sweep() : i.sweep().child(d.chance(0.5) ? "sn_sweeper" : "moc_sweeper"); return del(n, "n_inner");),
    M("n_inner negative", Node n = i.sweep().attribute("n_inner") ? i.sweep() : i.sweep().child(d.chance(0.5) ? "sn_sweeper" : "moc_sweeper"); return set(n, "n_inner", neg(d));),
    M("unknown boundary update", Node n = i.sweep().attribute("n_inner") ? i.sweep() : i.sweep().child("moc_sweeper"); if (!n) return false; n.remove_attribute("boundary_update"); n.append_attribute("boundary_update") = "sometimes"; return true;),
    M("no quadrature", return i.sweep().remove_child("ang_quad");),
    M("unknown quadrature", return set(i.sweep().child("ang_quad"), "type", d.pick(Words{"lss", "", "gauss", "7"}));),
    M("quadrature order not available", auto q = i.sweep().child("ang_quad"); return set(q, "order", d.pick(Words{"0", "-2", "3", "7", "100", "abc", "5"}));),
    M("quadrature order missing", return del(i.sweep().child("ang_quad"), "order");),
    M("number of angles not positive", return set(i.sweep().child("ang_quad"), d.chance(0.5) ? "n_azimuthal" : "n_polar", nonposint(d));),
    M("number of angles missing", return del(i.sweep().child("ang_quad"), d.chance(0.5) ? "n_azimuthal" : "n_polar");),
    M("user angle outside of the octant", auto q = i.one(d, "angle"); return set(q, d.chance(0.5) ? "alpha" : "theta", d.pick(Words{"-0.3", "1.9", "4.0"}));),
    M("user angle missing", auto q = i.one(d, "angle"); return del(q, d.chance(0.5) ? "alpha" : "theta");),
    M("user weight missing", auto q = i.one(d, "angle"); return del(q, "weight");),
    M("user quadrature without angles", auto q = i.sweep().child("ang_quad"); bool any = false; while (q.remove_child("angle")) any = true; return any;),
    M("ray spacing not positive", return set(i.one(d, "rays"), "spacing", nonpos(d));),
    M("ray spacing missing", return del(i.one(d, "rays"), "spacing");),
    M("ray spacing that is no number", return set(i.one(d, "rays"), "spacing", junk(d));),
    M("no rays", auto r = i.one(d, "rays"); return r && r.parent().remove_child(r);),
    M("unknown volume correction", auto r = i.one(d, "rays"); if (!r) return false; r.remove_attribute("volume_correction"); r.append_attribute("volume_correction") = "some"; return true;),
    M("unknown modularity", auto r = i.one(d, "rays"); if (!r) return false; r.append_attribute("modularity") = "some"; return true;),
    M("unknown modularization", auto r = i.one(d, "rays"); if (!r) return false; r.append_attribute("modularization") = "some"; return true;),
    M("unknown equation", Node n = i.sweep().attribute("equation") ? i.sweep() : Node(); return set(n, "equation", d.pick(Words{"ddd", "", "step2"}));),
    M("unknown axial treatment", Node n = i.sweep().attribute("equation") ? i.sweep() : i.sweep().child("sn_sweeper"); if (std::string(n.attribute("equation").value()) != "cdd") return false; return set(n, "axial", d.pick(Words{"ddd", "nothing", "step2"}));),
    M("cmfd tolerance not positive", auto n = i.solve().child("cmfd"); return set(n, d.chance(0.5) ? "k_tol" : "psi_tol", nonpos(d));),
    M("cmfd iterations negative", return set(i.solve().child("cmfd"), "max_iter", neg(d));),
    M("coupled sweeper without acceleration", return std::string(i.sweep().attribute("type").value()) == "2d3d" && del(i.solve(), "cmfd");),
    M("unknown cycle of the coupled sweeper", if (std::string(i.sweep().attribute("type").value()) != "2d3d") return false; i.sweep().append_attribute("cycle") = "w"; return true;),
    M("missing correction file", Node n = i.sweep(); if (std::string(n.attribute("equation").value()) != "cdd") return false; n.append_child("data").append_attribute("file") = "nothing.h5"; return true;),
    // Monte Carlo
    M("even seed", return i.solver == "eigenvalue_mc" && set(i.solve(), "seed", d.pick(Words{"2", "0", "88"}));),
    M("cycles missing", return i.solver == "eigenvalue_mc" && del(i.solve(), "cycles");),
    M("cycles negative", return i.solver == "eigenvalue_mc" && set(i.solve(), "cycles", neg(d));),
    M("inactive cycles negative", return i.solver == "eigenvalue_mc" && set(i.solve(), "inactive_cycles", neg(d));),
    M("inactive cycles missing", return i.solver == "eigenvalue_mc" && del(i.solve(), "inactive_cycles");),
    M("particles missing", return i.solver == "eigenvalue_mc" && del(i.solve(), "particles_per_cycle");),
    M("particles negative", return i.solver == "eigenvalue_mc" && set(i.solve(), "particles_per_cycle", neg(d));),
    M("no fission box", return i.solver == "eigenvalue_mc" && i.solve().remove_child("fission_box");),
    M("fission box outside of the core", return i.solver == "eigenvalue_mc" && set(i.solve().child("fission_box"), d.pick(Words{"x_max", "y_max", "z_max"}).c_str(), "100000.0");),
    M("fission box that is no number", return i.solver == "eigenvalue_mc" && set(i.solve().child("fission_box"), d.pick(Words{"x_max", "y_max", "z_max"}).c_str(), junk(d));),
    // other parts
    M("empty case name", i.doc.doc.append_child("case_name"); return true;),
    M("threads negative", auto n = i.doc.doc.append_child("parallel"); n.append_attribute("num_threads") = -2; return true;),
    M("geometry output of a plane that is not there", auto n = i.doc.doc.append_child("geometry_output"); n.append_attribute("plane") = 500; n.append_attribute("file") = "geo.py"; return true;),
};

// Mistakes of one section could cancel each other (one pin too many, one too few).
static int section(int k) {
    static const Words first = {"mesh without id", "pin without id", "lattice without id", "assembly without id", "no core", "no material library", "no solver", "even seed", "empty case name"};
    int s = 0;
    for (int j = 0; j <= k; j++) s += std::find(first.begin(), first.end(), mistakes[j].name) != first.end();
    return s;
}

static std::unique_ptr<Input> base(Draw &d, Case &c, int want = -1) {
    LibOpts lo;
    lo.max_groups = 3;
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 3;
    go.max_planes = 4;
    Lib lib = gen_lib(d, lo);
    Problem p = gen_geom(d, lib, go);
    ensure_fuel(p);
    p.finish();
    int kind = want >= 0 ? want : d.weighted({5, 1, 1});
    std::string sx, name, s_type;
    if (kind == 0) {
        name = "eigenvalue";
        SweepOpts so;
        so.coupled = true;
        auto s = gen_sweeper(d, p, so);
        EigenOpts eo;
        eo.max_iter = 2;
        eo.cmfd = s.type == "2d3d" || d.chance(0.4);
        if (eo.cmfd) eo.cmfd_xml = "<cmfd k_tol=\"1e-6\" psi_tol=\"1e-5\" max_iter=\"20\" />";
        sx = eigen_xml(s, eo);
    } else if (kind == 1) {
        name = "fixed_source";
        SweepOpts so;
        auto s = gen_sweeper(d, p, so);
        s_type = s.type;
        sx = "<solver type=\"fixed_source\" max_iter=\"2\" flux_tol=\"1e-5\">\n<source scattering=\"P0\" file=\"src.h5\" />\n" + s.xml() + "</solver>\n";
    } else {
        name = "eigenvalue_mc";
        sx = fmt("<solver type=\"eigenvalue_mc\" cycles=\"2\" inactive_cycles=\"1\" particles_per_cycle=\"20\" seed=\"3\">\n<fission_box x_min=\"0.0\" y_min=\"0.0\" z_min=\"0.0\" x_max=\"%.17g\" y_max=\"%.17g\" z_max=\"%.17g\" /></solver>\n", p.Lx(), p.Ly(), p.Lz());
    }
    int nreg = s_type == "sn" ? p.nx * p.ny * p.nz : 0;
    if (s_type == "moc")
        for (int z : group_bottoms(p))
            for (auto &r : p.regions()) nreg += r.pz == z;
    std::unique_ptr<Input> i(new Input(sx + p.mats_xml() + p.geom_xml()));
    i->lib = p.lib.text();
    i->libfile = p.libfile;
    i->ng = p.lib.ng;
    i->solver = name;
    i->nreg = nreg;
    return i;
}

static void write_source(const std::string &path, const std::vector<double> &v, int ng, int n) {
    hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hsize_t dims[2] = {(hsize_t)ng, (hsize_t)n};
    hid_t s = H5Screate_simple(2, dims, nullptr);
    hid_t d = H5Dcreate2(f, "source", H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(d);
    H5Sclose(s);
    H5Fclose(f);
}

static Result go(Input &i, const std::string &dir) {
    std::map<std::string, std::string> files;
    mkdir((dir + "/run").c_str(), 0700);
    for (auto f : {"in.h5", "src.h5", i.libfile.c_str()}) unlink((dir + "/run/" + f).c_str());
    if (i.has_lib) files[i.libfile] = i.lib;
    if (i.solver == "fixed_source") write_source(dir + "/run/src.h5", std::vector<double>(i.ng * i.nreg, 1.0), i.ng, i.nreg);
    std::stringstream s;
    i.doc.doc.save(s);
    if (i.no_file) // the name of a file that is not there
        return run_case(dir, "run", s.str(), files, 1, {}, 20, "none.xml");
    return run_case(dir, "run", i.raw.empty() ? s.str() : i.raw, files, 1, i.args, 20);
}

static std::string verdict(const Result &r) {
    if (r.status == 0) return "success";
    if (r.status == 1000 + SIGXCPU || r.status == 1000 + SIGKILL) return "hang";
    if (r.status >= 1000 || r.status > 100) return "crash";
    if (words(r.err).empty()) return "silent";
    if (access(r.h5.c_str(), F_OK) == 0) return "solved";
    return "";
}

static void fn(Draw &d, Case &c) {
    std::cout.setstate(std::ios::badbit);
    std::unique_ptr<Input> i;
    int n = d.chance(0.2) ? 2 : 1, made = 0;
    std::string what;
    int sec = -1;
    // half of the time the mistake comes first, so that those few inputs allow are met too
    int wish = d.chance(0.5) ? d.range(0, mistakes.size() - 1) : -1;
    for (int tries = 0; tries < 8 && wish >= 0 && !made; tries++) {
        i = base(d, c);
        try {
            made = mistakes[wish].make(d, *i);
        } catch (std::logic_error &e) {
        }
        if (made) {
            sec = section(wish);
            what = mistakes[wish].name;
        }
    }
    if (!made) i = base(d, c);
    for (int k = made; k < n; k++) {
        for (int tries = 0; tries < 8; tries++) {
            int j = d.range(0, mistakes.size() - 1);
            auto &m = mistakes[j];
            if (section(j) == sec) continue;
            try {
                if (!m.make(d, *i)) continue;
            } catch (std::logic_error &e) { // nothing left to choose from
                continue;
            }
            sec = section(j);
            what += (what.empty() ? "" : " + ") + std::string(m.name);
            made++;
            break;
        }
    }
    if (!made) c.discard("no applicable mistake");
    std::stringstream s;
    i->doc.doc.save(s);
    c.desc << "mistake: " << what << "\n" << (i->raw.empty() ? s.str() : i->raw) << "\n" << (i->has_lib ? i->lib : std::string("no library"));
    c.label(what.substr(0, what.find(" + ")));
    c.nontrivial();
    Result r = go(*i, c.dir);
    std::string v = verdict(r);
    c.check(v.empty(), v.empty() ? "" : v.c_str(), what + fmt(": status %d; ", r.status) + r.tail());
}

int main(int argc, char **argv) {
    if (argc > 1 && std::string(argv[1]) == "--survey") {
        std::vector<uint64_t> rec(1 << 20);
        volatile uint32_t n = 0;
        mkdir("/tmp/c33s", 0700);
        std::map<std::string, int> valid;
        for (int t = 0; t < 60; t++) {
            Draw d(pbt::mix64(t * 977 + 5), rec.data(), rec.size(), &n, 1.0);
            Case c;
            c.dir = "/tmp/c33s";
            auto i = base(d, c);
            Result r = go(*i, c.dir);
            valid[i->solver + " " + verdict(r)]++;
            if (r.status) printf("%s\n", r.tail().c_str());
        }
        for (auto &v : valid) printf("unchanged inputs, %s: %d\n", v.first.c_str(), v.second);
        for (auto &m : mistakes) {
            std::map<std::string, int> count;
            std::map<std::string, std::string> ex;
            int done = 0;
            for (int t = 0; t < 60 && done < 12; t++) {
                Draw d(pbt::mix64(t * 977 + 5), rec.data(), rec.size(), &n, 1.0);
                Case c;
                c.dir = "/tmp/c33s";
                auto i = base(d, c);
                if (!m.make(d, *i)) continue;
                done++;
                Result r = go(*i, c.dir);
                std::string v = verdict(r);
                if (unlink(r.h5.c_str())) {}
                count[v]++;
                ex[v] = r.tail(200);
            }
            if (count[""] != done || !done) {
                printf("%-45s %d:", m.name, done);
                for (auto &k : count) if (k.second && !k.first.empty()) printf(" %s=%d", k.first.c_str(), k.second);
                printf("\n");
                if (argc > 2) for (auto &k : ex) if (!k.first.empty()) printf("-----%s\n%s\n", k.first.c_str(), k.second.c_str());
            }
        }
        return 0;
    }
    pbt::Spec s;
    s.id = "C33";
    s.rule = "every case: one mistake from the catalogue (two in 20% of the cases) in an otherwise valid input";
    s.oracle = "exit status of the program (nonzero, no signal), text on its error stream, no result file, time limit; built with address and undefined-behaviour sanitizers";
    s.quick_cases = 6000;
    s.thorough_cases = 30000;
    s.batch = 25;
    s.fn = fn;
    return pbt::pbt_main(argc, argv, s);
}
