// flavor: san
// C35: lists, groups and ranges in text are parsed as written
#include "mocc_util.hpp"
#include "util/string_utils.hpp"
#include <climits>
using namespace model;

static std::string ws(Draw &d, bool some) {
    static const std::vector<std::string> one = {" ", "\n", "\t", "  ", "\r\n", "\n\n\t ", "\v", "\f"};
    if (!some && d.chance(0.5)) return "";
    std::string s;
    int n = d.range(some ? 1 : 0, 3);
    for (int i = 0; i < n; i++) s += d.pick(one);
    return s;
}

static std::string show(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c == '\v') o += "\\v";
        else if (c == '\f') o += "\\f";
        else o += c;
    }
    return o + "\"";
}

static int integer(Draw &d, bool sign = true) {
    switch (d.weighted({6, 3, 1, 1})) {
    case 0: return d.range(0, 20);
    case 1: return d.range(0, 100000) * (sign && d.chance(0.4) ? -1 : 1);
    case 2: return sign && d.chance(0.5) ? INT_MIN : INT_MAX;
    default: return sign ? -(int)d.range(1, 9) : (int)d.range(100, 999);
    }
}

static std::string real_text(Draw &d) {
    double v = d.chance(0.2) ? d.range(0, 50) : d.logreal(1e-12, 1e12);
    if (d.chance(0.3)) v = -v;
    switch (d.range(0, 6)) {
    case 0: return fmt("%.17g", v);
    case 1: return fmt("%g", v);
    case 2: return fmt("%.5e", v);
    case 3: return fmt("%.3E", v);
    case 4: return fmt("%.4f", v);
    case 5: return fmt(".%d", (int)d.range(0, 9999));
    default: return fmt("%d.", (int)d.range(0, 9999));
    }
}

// a list of ints, or nothing if it is not one
template <class T> static bool parse(Case &c, const std::string &text, std::vector<T> &out) {
    try {
        out = explode_string<T>(text);
        return true;
    } catch (mocc::Exception &e) {
        return false;
    }
}

template <class T> static std::string list(const std::vector<T> &v) {
    std::string s = "[";
    for (auto x : v) s += fmt(" %.17g", (double)x);
    return s + " ]";
}

static void ints(Draw &d, Case &c) {
    std::vector<int> v(d.range(0, 12));
    for (auto &x : v) x = integer(d);
    std::string t = ws(d, false);
    for (size_t i = 0; i < v.size(); i++) t += (i ? ws(d, true) : "") + fmt("%d", v[i]);
    t += ws(d, false);
    c.desc << "integers " << show(t) << "\n";
    c.nontrivial(v.size() > 1);
    std::vector<int> got;
    c.check(parse(c, t, got), "int.refused", "a list of integers was refused");
    c.check(got == v, "int.values", "got " + list(got) + " expected " + list(v));
}

static void reals(Draw &d, Case &c) {
    std::vector<double> v;
    std::string t = ws(d, false);
    int n = d.range(0, 12);
    for (int i = 0; i < n; i++) {
        std::string s = real_text(d);
        v.push_back(strtod(s.c_str(), nullptr));
        t += (i ? ws(d, true) : "") + s;
    }
    t += ws(d, false);
    c.desc << "reals " << show(t) << "\n";
    c.nontrivial(v.size() > 1);
    std::vector<double> got;
    c.check(parse(c, t, got), "real.refused", "a list of numbers was refused");
    c.check(got == v, "real.values", "got " + list(got) + " expected " + list(v));
}

// one entry that is not a number among others that are
static void bad(Draw &d, Case &c) {
    bool real = d.chance(0.5);
    static const std::vector<std::string> any = {"x", "abc", "1,2", "3-4", "1;", "--1", "5a", "a5", "{1", "1}", "1/2", "-", "#", "1_000", "1 ,2", ",", "3*2", "1:4", "(1)", "1+", "2'"};
    static const std::vector<std::string> notint = {"1.5", "1e3", ".5", "99999999999", "-99999999999", "1.", "2147483648"};
    static const std::vector<std::string> notreal = {"1.5.5", "1e", "1e5e5", "1.0-2.0", "1.0f0", "1e999", ".", "1..2", "1.0d", "e5", "1.2.3"};
    int n = d.range(1, 6), at = d.range(0, n - 1);
    std::string t = ws(d, false), w;
    if (d.chance(0.5)) w = d.pick(any);
    else w = real ? d.pick(notreal) : d.pick(notint);
    for (int i = 0; i < n; i++) t += (i ? ws(d, true) : "") + (i == at ? w : real ? real_text(d) : fmt("%d", integer(d)));
    t += ws(d, false);
    c.desc << (real ? "not reals " : "not integers ") << show(t) << "\n";
    c.nontrivial();
    if (real) {
        std::vector<double> got;
        c.check(!parse(c, t, got), "real.accepted", "text that is no list of numbers was read as " + list(got));
    } else {
        std::vector<int> got;
        c.check(!parse(c, t, got), "int.accepted", "text that is no list of integers was read as " + list(got));
    }
}

// --- braces ---------------------------------------------------------------
typedef std::vector<std::vector<int>> Groups;

static bool space(char c) { return c && strchr(" \t\n\r\f\v", c); }

// grammar: (space | number | '{' space* number (space+ number)* space* '}')*
static bool reference(const std::string &t, Groups &out) {
    out.clear();
    bool in = false;
    for (size_t i = 0; i < t.size();) {
        char c = t[i];
        if (space(c)) i++;
        else if (c == '{') {
            if (in) return false;
            in = true;
            out.push_back({});
            i++;
        } else if (c == '}') {
            if (!in || out.back().empty()) return false;
            in = false;
            i++;
        } else if (c >= '0' && c <= '9') {
            long v = 0;
            for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) {
                v = v * 10 + (t[i] - '0');
                if (v > INT_MAX) return false;
            }
            if (in) out.back().push_back(v);
            else out.push_back({(int)v});
        } else
            return false;
    }
    return !in;
}

static std::string show(const Groups &g) {
    std::string s;
    for (auto &v : g) s += list(v);
    return s;
}

static void braces(Draw &d, Case &c) {
    Groups g(d.range(0, 7));
    std::string t = ws(d, false);
    bool prev = false; // text ends in a digit
    for (auto &v : g) {
        v.resize(d.chance(0.4) ? 1 : d.range(1, 5));
        for (auto &x : v) x = integer(d, false);
        bool br = v.size() > 1 || d.chance(0.4);
        if (br) {
            t += (prev ? ws(d, false) : ws(d, false)) + "{" + ws(d, false);
            for (size_t i = 0; i < v.size(); i++) t += (i ? ws(d, true) : "") + fmt("%d", v[i]);
            t += ws(d, false) + "}";
        } else
            t += (prev ? ws(d, true) : ws(d, false)) + fmt("%d", v[0]);
        prev = !br;
    }
    t += ws(d, false);
    int mutate = d.chance(0.4) ? d.range(1, 3) : 0;
    static const std::vector<std::string> ins = {"{", "}", "{}", "1", " ", "x", "-", "{ }", ".", "99999999999", "}{", "} {", "{{"};
    for (int k = 0; k < mutate; k++) {
        size_t at = d.range(0, (long)t.size());
        if (d.chance(0.4) && at < t.size()) t.erase(at, 1);
        else t.insert(at, d.pick(ins));
    }
    Groups want, got;
    bool ok = reference(t, want);
    if (!mutate) c.check(ok && want == g, "reference", "the reference parser is wrong");
    c.desc << "groups " << show(t) << (ok ? "" : " (invalid)") << "\n";
    c.label(ok ? "groups valid" : "groups invalid");
    c.nontrivial(mutate || g.size() > 1);
    bool read = true;
    try {
        got = explode_braces(t);
    } catch (mocc::Exception &e) {
        read = false;
    }
    if (ok) {
        c.check(read, "braces.refused", "a valid list of groups was refused");
        c.check(got == want, "braces.values", "got " + show(got) + " expected " + show(want));
    } else
        c.check(!read, "braces.accepted", "text that is no list of groups was read as " + show(got));
}

static void ranges(Draw &d, Case &c) {
    std::vector<bool> v;
    int runs = d.range(0, 8);
    bool on = d.chance(0.5);
    for (int i = 0; i < runs; i++, on = !on) {
        int n = d.weighted({3, 2, 1, 1, 1});
        n = n == 4 ? d.range(5, 60) : n + 1;
        v.insert(v.end(), n, on);
    }
    std::string bits;
    for (bool b : v) bits += b ? '1' : '0';
    c.desc << "set " << bits << "\n";
    c.nontrivial(runs > 2);
    std::string s = print_range(v);
    c.desc << "printed as \"" << s << "\"\n";
    std::vector<bool> got(v.size(), false);
    for (size_t i = 0; i < s.size();) {
        if (space(s[i]) || s[i] == ',') { i++; continue; }
        size_t used = 0;
        long a = -1, b = -1;
        if (isdigit(s[i])) { a = b = std::stol(s.substr(i), &used); i += used; }
        else c.fail("range.text", "not a list of ranges");
        if (i + 1 < s.size() && s[i] == '-' && isdigit(s[i + 1])) { b = std::stol(s.substr(i + 1), &used); i += used + 1; }
        for (long k = a; k <= b; k++) {
            c.check(k < (long)v.size(), "range.outside", fmt("index %ld is outside of the set", k));
            got[k] = true;
        }
        c.check(a <= b, "range.order", "range runs backwards");
    }
    c.check(got == v, "range.set", "reading the ranges gives another set");
}

// the same core with all of its lists laid out differently
static void relay(Draw &d, pugi::xml_node n) {
    std::string name = n.name();
    static const std::vector<std::string> lists = {"radii", "sub_radii", "hz", "lattices", "lattice", "pin", "core"};
    for (auto ch : n.children()) {
        if (ch.type() == pugi::node_element) relay(d, ch);
        if (ch.type() == pugi::node_pcdata && std::find(lists.begin(), lists.end(), name) != lists.end()) {
            std::string t = ch.value(), o = ws(d, false);
            for (size_t i = 0; i < t.size();) {
                if (space(t[i])) {
                    while (i < t.size() && space(t[i])) i++;
                    if (i < t.size() && !o.empty() && !space(o.back())) o += ws(d, true);
                } else {
                    if ((t[i] == '{' || t[i] == '}')) o += ws(d, false) + t[i] + ws(d, false);
                    else o += t[i];
                    i++;
                }
            }
            o += ws(d, false);
            ch.set_value(o.c_str());
        }
    }
}

static std::string layout_of(const mocc::CoreMesh &m) {
    std::string s = fmt("planes %d pins %d regions %d\n", (int)m.nz(), (int)m.n_pin(), (int)m.n_reg(mocc::MeshTreatment::TRUE));
    for (double v : m.volumes(mocc::MeshTreatment::TRUE)) s += fmt("%.17g ", v);
    for (auto pin : m) {
        s += fmt("pin %d mesh %d:", (int)pin->id(), (int)pin->mesh().id());
        for (int x : pin->mat_ids()) s += fmt(" %d", x);
        s += "\n";
    }
    for (double z : m.pin_dz()) s += fmt("%.17g ", z);
    for (int n : m.subplane()) s += fmt("%d ", n);
    return s;
}

static void core(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 2;
    GeomOpts go;
    go.max_pins_x = go.max_pins_y = 3;
    go.max_planes = 4;
    Problem p = gen_geom(d, gen_lib(d, lo), go);
    p.write_lib(c.dir);
    Doc a(p.xml()), b(p.xml());
    relay(d, b.doc);
    std::stringstream s;
    b.doc.save(s);
    c.desc << s.str();
    c.nontrivial();
    c.label("whole core");
    std::string la, lb;
    { mocc::CoreMesh m(a.doc); la = layout_of(m); }
    try {
        mocc::CoreMesh m(b.doc);
        lb = layout_of(m);
    } catch (mocc::Exception &e) {
        c.fail("core.refused", std::string("the core is refused with its lists laid out differently: ") + e.what());
    }
    c.check(la == lb, "core.differs", "the core differs with its lists laid out differently:\n" + la + "\n" + lb);
}

static void fn(Draw &d, Case &c) {
    std::cout.setstate(std::ios::badbit);
    switch (d.weighted({4, 4, 5, 8, 4, 1})) {
    case 0: c.label("integers"); return ints(d, c);
    case 1: c.label("reals"); return reals(d, c);
    case 2: c.label("malformed"); return bad(d, c);
    case 3: c.label("groups"); return braces(d, c);
    case 4: c.label("ranges"); return ranges(d, c);
    default: return core(d, c);
    }
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C35";
    s.rule = "lists of at least two numbers, malformed text, grouped lists of at least two groups or edited at random, index sets of at least three runs, whole cores with every list laid out anew";
    s.oracle = "the numbers the text was printed from; a recursive reference parser for grouped lists (also deciding which edited texts are valid); the set the ranges were printed from; the core read from the plain layout";
    s.quick_cases = 60000;
    s.thorough_cases = 600000;
    s.batch = 200;
    s.fn = fn;
    return pbt::pbt_main(argc, argv, s);
}
