// flavor: opt
// C32: amendments on the command line act as edits of the input file
#include "e2e.hpp"
#include <sstream>
using namespace model;

// a document as a list of lines, in which spacing between elements does not matter
static void flatten(pugi::xml_node n, std::string at, std::string &out) {
    for (auto ch : n.children()) {
        if (ch.type() == pugi::node_element) {
            std::string here = at + "/" + ch.name();
            out += here;
            for (auto a : ch.attributes()) out += std::string(" ") + a.name() + "='" + a.value() + "'";
            out += "\n";
            flatten(ch, here, out);
        } else if (ch.type() == pugi::node_pcdata || ch.type() == pugi::node_cdata)
            out += at + " text '" + ch.value() + "'\n";
    }
}

struct Place {
    std::string path, value;
    bool attr;
};

static pugi::xml_node first(pugi::xml_node n, const std::string &name) {
    for (auto ch : n.children())
        if (name == ch.name() && ch.type() == pugi::node_element) return ch;
    return {};
}
static bool has_attr(pugi::xml_node n, const std::string &name) {
    for (auto a : n.attributes())
        if (name == a.name()) return true;
    return false;
}
static pugi::xml_node text_of(pugi::xml_node n) {
    for (auto ch : n.children())
        if (ch.type() == pugi::node_pcdata || ch.type() == pugi::node_cdata) return ch;
    return {};
}

// places that can be named: the first element of each name, level by level
static void places(pugi::xml_node n, const std::string &at, std::vector<Place> &out, std::vector<std::string> &bad) {
    for (auto a : n.attributes()) {
        if (first(n, a.name())) bad.push_back(at + a.name());
        else out.push_back({at + a.name(), a.value(), true});
        bad.push_back(at + a.name() + "/x");
        bad.push_back(at + a.name() + "/");
        bad.push_back(at + a.name() + "_");
    }
    std::vector<std::string> seen;
    for (auto ch : n.children()) {
        std::string nm = ch.name();
        if (ch.type() != pugi::node_element || std::find(seen.begin(), seen.end(), nm) != seen.end()) continue;
        seen.push_back(nm);
        if (!has_attr(n, nm)) {
            if (text_of(ch)) out.push_back({at + nm, text_of(ch).value(), false});
            else bad.push_back(at + nm);
        }
        bad.push_back(at + nm + "/none");
        bad.push_back("/" + at + nm);
        bad.push_back(at + "/" + nm);
        places(ch, at + nm + "/", out, bad);
    }
}

static bool edit(pugi::xml_node n, const Place &p, const std::string &value) {
    std::stringstream ss(p.path);
    std::vector<std::string> parts;
    for (std::string s; std::getline(ss, s, '/');) parts.push_back(s);
    for (size_t i = 0; i + 1 < parts.size(); i++) n = first(n, parts[i]);
    if (p.attr) {
        for (auto a : n.attributes())
            if (parts.back() == a.name()) return a.set_value(value.c_str());
        return false;
    }
    return text_of(first(n, parts.back())).set_value(value.c_str());
}

static std::string gen_value(Draw &d, const Place &p, const std::vector<Place> &all, const Problem &pr) {
    auto ends = [&](const std::string &e) { return p.path.size() >= e.size() && p.path.compare(p.path.size() - e.size(), e.size(), e) == 0; };
    if (p.path.compare(0, 5, "notes") == 0 || d.chance(0.02)) {
        static const std::vector<std::string> w = {"", "a", "two words", "a/b/c", "<b>&\"'", "  x ", "-1", "\xc3\xa9t\xc3\xa9", "1 2 3", "{1}", "&amp;", "a,b;c:d"};
        return d.pick(w);
    }
    if (p.path == "case_name") return d.pick(std::vector<std::string>{"other", "a.b", "x", "case one"});
    if (ends("max_iter")) return std::to_string(d.range(1, 5));
    if (ends("n_inner")) return std::to_string(d.range(1, 4));
    if (ends("_tol")) return d.pick(std::vector<std::string>{"1e-3", "0.1", "1e-9"});
    if (ends("spacing")) return num(d.logreal(0.08, 0.3) * pr.pitch);
    if (ends("cmfd") || ends("enabled")) return d.pick(std::vector<std::string>{"t", "f", "true", "0"});
    if (ends("path")) return d.pick(std::vector<std::string>{"lib2.xsl", pr.libfile, "none.xsl"});
    if (ends("num_threads")) return d.pick(std::vector<std::string>{"1", "1 ", "2"});
    if (ends("north") || ends("south") || ends("east") || ends("west") || ends("top") || ends("bottom"))
        return d.pick(std::vector<std::string>{"vacuum", "reflect", "vacuum", "reflect", "vacuum", "reflect", "nothing"});
    if (ends("equation")) return d.pick(std::vector<std::string>{"dd", "cdd"});
    // a value of the same kind from elsewhere, or numbers scaled
    std::vector<std::string> same;
    auto last = [](const std::string &s) { return s.substr(s.rfind('/') + 1); };
    for (auto &q : all)
        if (last(q.path) == last(p.path)) same.push_back(q.value);
    if (d.chance(0.4)) return d.pick(same);
    std::stringstream ss(p.value);
    std::vector<std::string> words;
    for (std::string s; ss >> s;) words.push_back(s);
    if (words.empty()) return "1";
    if (words.size() > 1 && d.chance(0.6)) {
        auto sh = d.shuffle(words.size());
        std::string o;
        for (int i : sh) o += words[i] + " ";
        return o;
    }
    auto &w = words[d.range(0, (int)words.size() - 1)];
    w = d.pick(std::vector<std::string>{w, w, w, "1", "2", w + "0", "0.5"});
    std::string o;
    for (auto &x : words) o += " " + x;
    return o;
}

static void go(Draw &d, Case &c) {
    LibOpts lo;
    lo.max_groups = 3;
    lo.max_mats = 3;
    lo.fissile = 2;
    Lib lib = gen_lib(d, lo);
    GeomOpts gopt;
    gopt.max_pins_x = gopt.max_pins_y = 2;
    gopt.max_planes = 2;
    gopt.pmin = 0.8;
    Problem p = gen_geom(d, lib, gopt);
    Lib lib2 = lib;
    for (auto &m : lib2.mats)
        for (double &v : m.nuf) v *= 1.5;
    SweepDef s = gen_sweeper(d, p, SweepOpts());
    EigenOpts eo;
    eo.k_tol = 1e-6;
    eo.psi_tol = 1e-5;
    eo.max_iter = d.range(1, 4);
    eo.cmfd = d.range(-1, 1);
    std::string xml = eigen_xml(s, eo) + p.mats_xml() + p.geom_xml();
    if (d.chance(0.5)) {
        xml = "<notes author=\"me\" year=\"2016\">a text<sub id=\"1\">inner</sub><sub id=\"2\">second</sub><empty /></notes>\n" + xml;
        if (d.chance(0.5)) xml += "<notes author=\"again\">another</notes>\n";
        if (d.chance(0.4)) xml += "<both same=\"1\" only=\"2\"><same>text</same></both>\n";
    }
    bool named = d.chance(0.4);
    if (named) xml += "<case_name>first</case_name>\n";
    if (d.chance(0.3)) xml += "<parallel num_threads=\"1\" />\n";

    pugi::xml_document doc;
    if (doc.load_buffer(xml.data(), xml.size()).status != pugi::status_ok) c.fail("harness", "input does not parse");
    std::vector<Place> pl;
    std::vector<std::string> bad;
    places(doc, "", pl, bad);
    bad.insert(bad.end(), {"", "/", "nothing", "solver/", "solver/Type", "solver/sweeper/type/type", "case-name"});

    // the command line
    std::vector<std::string> before;
    int n = d.weighted({0, 4, 4, 2, 1, 1});
    bool refused = false;
    std::string edits, last_place;
    bool repeated = false;
    int deep = 0;
    for (int i = 0; i < n; i++) {
        std::string arg;
        if (d.chance(0.06)) {
            refused = true;
            int kind = d.range(0, 3);
            auto &q = pl[d.range(0, (int)pl.size() - 1)];
            if (kind == 0) arg = q.path; // no value
            else if (kind == 1) arg = q.path + "=" + (q.value.find('=') == std::string::npos ? q.value : "") + "=" + "1";
            else arg = d.pick(bad) + "=1";
        } else {
            // some places are more interesting than the many identifiers
            std::vector<int> w;
            for (auto &q : pl) w.push_back(q.path.find("solver") == 0 || q.path == "case_name" || q.path.find("notes") == 0 || q.path.find("core/") == 0 ? 20 : q.attr ? 1 : 8);
            int j = d.weighted(w);
            if (!last_place.empty() && d.chance(0.25))
                for (size_t k = 0; k < pl.size(); k++)
                    if (pl[k].path == last_place) j = k, repeated = true;
            std::string v = gen_value(d, pl[j], pl, p);
            if (v.empty() && pl[j].path.compare(0, 5, "notes")) v = " "; // the XML library gives defaults for an attribute emptied in place
            if (v.find('=') != std::string::npos) v = "1";
            arg = pl[j].path + "=" + v;
            last_place = pl[j].path;
            deep = std::max(deep, (int)std::count(pl[j].path.begin(), pl[j].path.end(), '/'));
            if (!refused && !edit(doc, pl[j], v)) c.fail("harness", "edit of " + pl[j].path);
        }
        before.push_back("-a");
        before.push_back(arg);
        edits += "-a '" + arg + "' ";
    }
    // part of the amendments may follow the name of the file
    int usage = d.chance(0.04) ? d.range(1, 3) : 0;
    size_t split = 2 * d.range(0, n);
    std::vector<std::string> args(before.begin(), before.begin() + split);
    args.push_back("in.xml");
    args.insert(args.end(), before.begin() + split, before.end());
    if (usage == 1) args.push_back("-a");
    if (usage == 2) args.push_back("in.xml");
    if (usage == 3) args.insert(args.begin(), "-a"), args.insert(args.begin() + 1, "-a");
    c.desc << xml << "command line: " << edits << "split " << split << " usage " << usage << "\n";

    std::stringstream out;
    doc.save(out);
    std::string name = "in";
    if (named) name = text_of(first(doc, "case_name")).value();
    // run_case appends the name of the input: leave ours where it is
    std::vector<std::string> lead(args.begin(), args.end());
    std::string last = lead.back();
    lead.pop_back();
    Result a = run_case(c.dir, "a", xml, {{p.libfile, lib.text()}, {"lib2.xsl", lib2.text()}}, 1, lead, 50, last);
    a.h5 = a.dir + "/" + name + ".h5";
    if (refused || usage) {
        c.check(a.status == 1, "not-refused", fmt("status %d: ", a.status) + a.tail());
        c.check(!a.err.empty(), "no-message", "refused without a message");
        for (std::string nm : {"in", "first", "other", "a.b", "x", "case one"})
            c.check(access((a.dir + "/" + nm + ".h5").c_str(), F_OK) != 0, "ran", "results were written in spite of a wrong command line");
        c.nontrivial(true);
        c.label(usage ? "usage" : "refused");
        return;
    }
    Result b = run_case(c.dir, "b", out.str(), {{p.libfile, lib.text()}, {"lib2.xsl", lib2.text()}});
    b.h5 = b.dir + "/" + name + ".h5";
    c.check(a.status == b.status, "status", fmt("amended: %d, edited: %d: ", a.status, b.status) + a.tail() + " / " + b.tail());
    bool wrote = access(a.h5.c_str(), F_OK) == 0, wrote_b = access(b.h5.c_str(), F_OK) == 0;
    c.check(wrote == wrote_b, "output", fmt("results in %s.h5: amended %d, edited %d", name.c_str(), wrote, wrote_b));
    if (b.ok()) {
        c.check(wrote, "output-name", "no " + name + ".h5");
        auto va = a.all(), vb = b.all();
        c.check(va.size() == vb.size() && !va.empty(), "datasets", fmt("%d and %d", (int)va.size(), (int)vb.size()));
        for (auto &e : vb) {
            c.check(va.count(e.first), "dataset-missing", e.first);
            auto &x = va[e.first];
            bool same = x.size() == e.second.size();
            for (size_t i = 0; same && i < x.size(); i++) same = x[i] == e.second[i] || (std::isnan(x[i]) && std::isnan(e.second[i]));
            c.check(same, "result", e.first + " differs from the run of the edited input");
        }
        std::string fa, fb;
        pugi::xml_document da;
        std::string text = a.str("input_file");
        c.check(da.load_buffer(text.data(), text.size()).status == pugi::status_ok, "input-copy", "copy of the input in the output does not parse");
        flatten(da, "", fa);
        pugi::xml_document db;
        db.load_buffer(out.str().data(), out.str().size());
        flatten(db, "", fb);
        c.check(fa == fb, "input-copy", "copy of the input in the output is not the edited input:\n" + fa + "---\n" + fb);
    }
    c.label(b.ok() ? "ran" : "refused alike");
    if (repeated) c.label("repeated place");
    if (split < before.size()) c.label("after the file name");
    if (deep > 1) c.label("deep");
    if (name != "in") c.label("named");
    c.nontrivial(b.ok());
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C32";
    s.fn = go;
    s.rule = "the amended input runs to the end, or the command line must be refused";
    s.oracle = "the same run with the input file edited instead: every dataset identical bit by bit, the same copy of the input, the same status";
    s.quick_cases = 3000;
    s.thorough_cases = 60000;
    s.batch = 10;
    s.assumptions = {"a path names the first element of each name, level by level", "values that are read are not emptied", "one thread, so that results repeat exactly"};
    return pbt::pbt_main(argc, argv, s);
}
