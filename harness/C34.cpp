// flavor: san
// C34: values written to a result file read back identically
#include "pbt.hpp"
#include <cstring>
#include <fstream>
#include <hdf5.h>
#include <iostream>
#include <map>
#include <memory>
#include "util/h5file.hpp"
using pbt::Case;
using pbt::Draw;
using pbt::fmt;
using mocc::H5Access;
using mocc::H5Node;

// --- model of the file -----------------------------------------------------
struct Obj;
typedef std::shared_ptr<Obj> PObj;
struct Obj {
    char kind = 'g'; // group, double data, int, unsigned, string
    std::map<std::string, PObj> kids;
    std::map<std::string, std::string> soft;
    std::vector<int> dims;
    std::vector<double> v;
    int i = 0;
    uint64_t u = 0;
    std::string s;
};

struct Model {
    PObj root = std::make_shared<Obj>();
    static std::vector<std::string> split(const std::string &p) {
        std::vector<std::string> o;
        std::stringstream s(p);
        std::string w;
        while (std::getline(s, w, '/'))
            if (!w.empty() && w != ".") o.push_back(w);
        return o;
    }
    PObj find(PObj from, const std::string &path, int depth = 0) const {
        if (depth > 10) return nullptr;
        PObj at = !path.empty() && path[0] == '/' ? root : from;
        for (auto &w : split(path)) {
            if (!at || at->kind != 'g') return nullptr;
            auto k = at->kids.find(w);
            if (k != at->kids.end()) { at = k->second; continue; }
            auto l = at->soft.find(w);
            if (l == at->soft.end()) return nullptr;
            at = find(at, l->second, depth + 1);
        }
        return at;
    }
    // group in which a new object of that path would be, if it can be
    PObj parent(PObj from, const std::string &path, std::string &name) const {
        auto w = split(path);
        if (w.empty()) return nullptr;
        name = w.back();
        std::string up = path[0] == '/' ? "/" : "";
        for (size_t i = 0; i + 1 < w.size(); i++) up += (i ? "/" : "") + w[i];
        PObj g = up.empty() ? from : find(from, up);
        if (!g || g->kind != 'g' || g->kids.count(name) || g->soft.count(name)) return nullptr;
        return g;
    }
};

static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

// --- reading back -----------------------------------------------------------
template <class F> static bool refuses(F f) {
    try {
        f();
        return false;
    } catch (mocc::Exception &e) {
        return true;
    }
}

template <class A> static void compare(Case &c, const A &a, const Obj &o, const std::string &what) {
    c.check(a.size() == o.v.size(), "read.size", what + fmt(": %d values instead of %d", (int)a.size(), (int)o.v.size()));
    size_t i = 0;
    for (auto x : a) {
        c.check(same(x, o.v[i]), "read.value", what + fmt(": value %d is %.17g instead of %.17g", (int)i, x, o.v[i]));
        i++;
    }
}

template <int N> static blitz::TinyVector<int, N> shape(const std::vector<int> &d) {
    blitz::TinyVector<int, N> s;
    for (int i = 0; i < N; i++) s[i] = d[i];
    return s;
}

// read into an array of N dimensions, in every documented way
template <int N> static void read_array(Draw &d, Case &c, H5Node &n, const std::string &path, const Obj &o) {
    typedef blitz::Array<double, N> A;
    if ((int)o.dims.size() == N) {
        A a;
        n.read(path, a);
        for (int i = 0; i < N; i++) c.check(a.extent(i) == o.dims[i], "read.shape", path + ": wrong dimensions");
        compare(c, a, o, path);
        A b(shape<N>(o.dims));
        b = -77.0;
        n.read(path, b);
        compare(c, b, o, path + " (allocated)");
        auto w = o.dims;
        if (N > 1 && d.chance(0.5)) std::swap(w[0], w[N - 1]);
        else w[d.range(0, N - 1)] += 1;
        if (w != o.dims) {
            A x(shape<N>(w));
            c.check(refuses([&] { n.read(path, x); }), "read.missized", path + ": read into an array of another shape");
        }
    } else {
        std::vector<int> w(N, 1);
        for (int i = 0; i < N && i < (int)o.dims.size(); i++) w[i] = o.dims[i];
        // room for as many values as there are, at least
        if (d.chance(0.5)) w[N - 1] = std::max(w[N - 1], (int)o.v.size());
        A x(shape<N>(w)), e;
        if (N > 1) {
            c.check(refuses([&] { n.read(path, x); }), "read.rank", path + ": read into an array of another rank");
            c.check(refuses([&] { n.read(path, e); }), "read.rank", path + ": read into an empty array of another rank");
        }
    }
}

static void verify(Draw &d, Case &c, H5Node &n, const std::string &path, const Obj &o) {
    if (o.kind == 'g') {
        H5Node g = n[path];
        std::vector<double> x;
        c.check(refuses([&] { g.read("no_such_data", x); }), "read.missing", path + ": read of missing data succeeded");
        c.check(refuses([&] { g["no_such_group"]; }), "open.missing", path + ": opening of a missing group succeeded");
        return;
    }
    c.check(refuses([&] { n[path]; }), "open.data", path + ": data opened as a group");
    auto dims = n.dimensions(path);
    if (o.kind == 'd') {
        c.check(dims.size() == o.dims.size(), "dims.rank", path + ": wrong rank");
        for (size_t i = 0; i < dims.size(); i++) c.check((int)dims[i] == o.dims[i], "dims.extent", path + ": wrong dimensions");
        std::vector<double> x;
        if (o.dims.size() == 1) {
            n.read(path, x);
            compare(c, x, o, path + " (vector)");
            std::vector<double> y(o.v.size(), -5.0);
            n.read(path, y);
            compare(c, y, o, path + " (vector)");
            std::vector<double> z(o.v.size() + d.range(1, 3));
            c.check(refuses([&] { n.read(path, z); }), "read.missized", path + ": read into a vector of another size");
        } else
            c.check(refuses([&] { n.read(path, x); }), "read.rank", path + ": data of several dimensions read into a vector");
        if (o.v.empty()) return;
        mocc::ArrayB1 f, h((int)o.v.size()), s((int)o.v.size() + 1);
        n.read_1d(path, f);
        compare(c, f, o, path + " (flat)");
        n.read_1d(path, h);
        compare(c, h, o, path + " (flat)");
        mocc::ArrayB1 q, r((int)o.v.size());
        n.read(path, q);
        compare(c, q, o, path + " (flat)");
        n.read(path, r);
        compare(c, r, o, path + " (flat)");
        c.check(refuses([&] { n.read_1d(path, s); }), "read.missized", path + ": read into a vector of another size");
        c.check(refuses([&] { n.read(path, s); }), "read.missized", path + ": read into a vector of another size");
        int rank = d.range(1, 4);
        for (int k : {(int)o.dims.size(), rank}) {
            if (k == 1) read_array<1>(d, c, n, path, o);
            if (k == 2) read_array<2>(d, c, n, path, o);
            if (k == 3) read_array<3>(d, c, n, path, o);
            if (k == 4) read_array<4>(d, c, n, path, o);
        }
        if (o.v.size() > 1) {
            int k[64];
            k[0] = 0;
            c.check(refuses([&] { n.read(path, k[0]); }), "read.scalar", path + ": several values read as one");
        }
    } else if (o.kind == 'i') {
        int k = 0;
        n.read(path, k);
        c.check(k == o.i, "read.int", path + fmt(": %d instead of %d", k, o.i));
    }
}

// independent reading with the library itself
static void verify_raw(Case &c, hid_t f, const std::string &path, const Obj &o) {
    hid_t ds = H5Dopen2(f, path.c_str(), H5P_DEFAULT);
    c.check(ds >= 0, "raw.open", path + " is not there");
    hid_t sp = H5Dget_space(ds);
    hsize_t dm[8] = {0};
    int nd = H5Sget_simple_extent_ndims(sp);
    c.check(nd <= 8, "raw.rank", path);
    H5Sget_simple_extent_dims(sp, dm, nullptr);
    long np = H5Sget_simple_extent_npoints(sp);
    if (o.kind == 'd') {
        c.check(nd == (int)o.dims.size(), "raw.rank", path + ": wrong rank");
        for (int i = 0; i < nd; i++) c.check((int)dm[i] == o.dims[i], "raw.dims", path + ": wrong dimensions");
        std::vector<double> v(np + 1);
        c.check(H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "raw.read", path);
        v.resize(np);
        compare(c, v, o, path + " (library)");
    } else if (o.kind == 'i' || o.kind == 'u') {
        c.check(np == 1, "raw.scalar", path + ": not one value");
        int64_t i = 0;
        uint64_t u = 0;
        if (o.kind == 'i') {
            H5Dread(ds, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, &i);
            c.check(i == o.i, "raw.int", path + fmt(": %ld instead of %d", (long)i, o.i));
        } else {
            H5Dread(ds, H5T_NATIVE_UINT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, &u);
            c.check(u == o.u, "raw.uint", path + fmt(": %lu instead of %lu", (unsigned long)u, (unsigned long)o.u));
        }
    } else if (o.kind == 's') {
        hid_t t = H5Dget_type(ds);
        std::string got;
        if (H5Tis_variable_str(t) > 0) {
            char *s = nullptr;
            hid_t mt = H5Tcopy(H5T_C_S1);
            H5Tset_size(mt, H5T_VARIABLE);
            H5Dread(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, &s);
            got = s ? s : "";
            H5free_memory(s);
            H5Tclose(mt);
        } else {
            std::vector<char> b(H5Tget_size(t) + 1, 0);
            H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
            got = b.data();
        }
        H5Tclose(t);
        c.check(got == o.s, "raw.string", path + ": \"" + got + "\" instead of \"" + o.s + "\"");
    }
    H5Sclose(sp);
    H5Dclose(ds);
}

// --- writing ----------------------------------------------------------------
static double value(Draw &d) {
    static const std::vector<double> odd = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, 4.9e-324, 1.7976931348623157e308, NAN};
    if (d.chance(0.15)) return d.pick(odd);
    return d.chance(0.5) ? d.range(-20, 20) : d.logreal(1e-30, 1e30);
}

template <int N> static blitz::Array<double, N> fill(const std::vector<int> &dims, const std::vector<double> &v) {
    blitz::Array<double, N> a(shape<N>(dims));
    size_t i = 0;
    for (auto &x : a) x = v[i++];
    return a;
}

// same values, somewhere inside of a larger array
template <int N> static bool write_array(Draw &d, Case &c, H5Node &n, const std::string &path, const Obj &o, bool &refused) {
    typedef blitz::Array<double, N> A;
    A a = fill<N>(o.dims, o.v);
    int how = d.weighted({4, 2, 1, 1});
    if (how == 1) { // contiguous part of a larger array
        auto s = shape<N>(o.dims);
        int off = d.range(1, 3);
        s[0] += off + 1;
        A big(s);
        big = -9.0;
        auto lo = shape<N>(std::vector<int>(N, 0)), hi = shape<N>(o.dims);
        for (int i = 0; i < N; i++) hi[i] -= 1;
        lo[0] += off;
        hi[0] += off;
        A part(big(blitz::RectDomain<N>(lo, hi)));
        part = a;
        c.desc << " part of a larger array";
        refused = refuses([&] { n.write(path, part); });
        return true;
    }
    if (how == 2 && N > 1) { // another memory order
        A f(shape<N>(o.dims), blitz::FortranArray<N>());
        f.reindexSelf(shape<N>(std::vector<int>(N, 0)));
        f = a;
        c.desc << " other memory order";
        refused = refuses([&] { n.write(path, f); });
        return false; // may be refused
    }
    if (how == 3) { // scattered over memory
        auto s = shape<N>(o.dims);
        s[N - 1] *= 2;
        A big(s);
        big = -9.0;
        auto lo = shape<N>(std::vector<int>(N, 0)), hi = shape<N>(o.dims), st = shape<N>(std::vector<int>(N, 1));
        for (int i = 0; i < N; i++) hi[i] -= 1;
        hi[N - 1] = 2 * (o.dims[N - 1] - 1);
        st[N - 1] = 2;
        A part(big(blitz::StridedDomain<N>(lo, hi, st)));
        part = a;
        c.desc << " strided";
        refused = refuses([&] { n.write(path, part); });
        return false;
    }
    refused = refuses([&] { n.write(path, a); });
    return true;
}

static std::string path_for(Draw &d, const std::vector<std::string> &pool, bool maybe_abs) {
    int n = d.weighted({6, 3, 1}) + 1;
    std::string p = maybe_abs && d.chance(0.2) ? "/" : "";
    for (int i = 0; i < n; i++) p += (i ? "/" : "") + d.pick(pool);
    return p;
}

struct Handle { H5Node n; PObj o; };

static void fn(Draw &d, Case &c) {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    std::cout.setstate(std::ios::badbit);
    std::cerr.setstate(std::ios::badbit);
    static const std::vector<std::string> pool = {"a", "b", "c", "flux", "001", "d"};
    std::string file = c.dir + "/t.h5";
    if (d.chance(0.2)) { // something else was there before
        H5Node old(file, H5Access::WRITE);
        old.write("a", std::vector<double>{1, 2, 3});
        old.create_group("old");
    } else
        remove(file.c_str());
    {
        std::string none = c.dir + "/none.h5";
        remove(none.c_str());
        c.check(refuses([&] { H5Node x(none, H5Access::READ); }), "file.missing", "a missing file was opened");
    }
    Model m;
    int phases = d.chance(0.3) ? 2 : 1, written = 0, links = 0, groups = 0;
    for (int ph = 0; ph < phases; ph++) {
        std::vector<Handle> hs;
        hs.push_back({H5Node(file, ph ? H5Access::APPEND : H5Access::WRITE), m.root});
        c.desc << (ph ? "append\n" : "write\n");
        int ops = d.range(2, 18);
        for (int k = 0; k < ops; k++) {
            int hi = d.range(0, hs.size() - 1);
            Handle h = hs[hi];
            std::string path = path_for(d, pool, true), name;
            PObj at = m.parent(h.o, path, name);
            int op = d.weighted({3, 7, 2, 2});
            c.desc << " node " << hi;
            if (op == 0) {
                c.desc << " group " << path;
                PObj g;
                H5Node made = h.n;
                bool ref = refuses([&] { made = h.n.create_group(path); });
                c.check(ref == !at, "group.create", path + (ref ? ": group was not created" : ": group was created where it cannot be"));
                if (at) {
                    at->kids[name] = g = std::make_shared<Obj>();
                    hs.push_back({made, g});
                    groups++;
                }
            } else if (op == 1) {
                auto o = std::make_shared<Obj>();
                bool must = true, ref = false, sized = true;
                int kind = d.weighted({4, 3, 2, 2, 1, 1, 1, 1});
                if (kind <= 4) {
                    o->kind = 'd';
                    int nd = kind == 0 ? d.range(1, 4) : kind == 1 ? 1 : d.range(1, 4);
                    long np = 1;
                    for (int i = 0; i < nd; i++) { o->dims.push_back(d.range(1, i > 1 ? 3 : 5)); np *= o->dims.back(); }
                    if (kind == 1 && d.chance(0.05)) { o->dims[0] = 0; np = 0; }
                    for (long i = 0; i < np; i++) o->v.push_back(value(d));
                    c.desc << " data " << path << " [";
                    for (int x : o->dims) c.desc << " " << x;
                    c.desc << " ] way " << kind;
                    auto dims = o->dims;
                    if (kind >= 2 && d.chance(0.15)) { dims[d.range(0, nd - 1)] += d.range(1, 3); sized = false; c.desc << " mis-sized"; }
                    if (kind == 0) {
                        if (nd == 1) must = write_array<1>(d, c, h.n, path, *o, ref);
                        if (nd == 2) must = write_array<2>(d, c, h.n, path, *o, ref);
                        if (nd == 3) must = write_array<3>(d, c, h.n, path, *o, ref);
                        if (nd == 4) must = write_array<4>(d, c, h.n, path, *o, ref);
                    } else if (kind == 1)
                        ref = refuses([&] { h.n.write(path, o->v); });
                    else if (kind == 2)
                        ref = refuses([&] { h.n.write(path, o->v, dims); });
                    else if (kind == 3) {
                        mocc::ArrayB1 a = fill<1>({(int)np}, o->v);
                        ref = refuses([&] { h.n.write(path, a, dims); });
                    } else
                        ref = refuses([&] { h.n.write(path, o->v.begin(), o->v.end(), dims); });
                } else if (kind == 5) {
                    o->kind = 'i';
                    o->i = d.chance(0.3) ? -(int)d.range(1, 1000000) : (int)d.range(0, 2147483647);
                    c.desc << " int " << path;
                    ref = refuses([&] { h.n.write(path, o->i); });
                } else if (kind == 6) {
                    o->kind = 'u';
                    o->u = d.raw(UINT64_MAX);
                    c.desc << " uint " << path;
                    ref = refuses([&] { h.n.write(path, o->u); });
                } else {
                    o->kind = 's';
                    int n = d.range(0, 40);
                    for (int i = 0; i < n; i++) o->s += (char)d.range(32, 126);
                    c.desc << " text " << path;
                    ref = refuses([&] { h.n.write(path, o->s); });
                }
                if (!at || !sized) {
                    c.check(ref, sized ? "write.where" : "write.missized", path + ": write was not refused");
                    if (at && m.find(h.o, path)) c.fail("model", "model");
                    if (at) { // the place must not hold half of the data
                        std::vector<double> x;
                    }
                } else if (!ref) {
                    at->kids[name] = o;
                    written++;
                } else
                    c.check(!must, "write.refused", path + ": write was refused");
                // a refused write of data in other memory order leaves nothing that can be read
                if (ref && at) {
                    std::vector<double> x;
                    c.check(refuses([&] { h.n.read(path, x); }), "write.rest", path + ": a refused write left data");
                }
            } else if (op == 2) {
                bool soft = d.chance(0.4);
                std::string src = path_for(d, pool, true), dst = path_for(d, pool, false);
                if (soft) { src = "/" + path_for(d, pool, false); }
                PObj so = m.find(h.o, src), dp = m.parent(h.o, dst, name);
                if (!so && soft) { c.desc << " -\n"; continue; } // dangling links are another matter
                c.desc << (soft ? " soft link " : " link ") << src << " as " << dst;
                bool ref = refuses([&] { h.n.create_link(src, dst, soft ? mocc::H5Link::SOFT : mocc::H5Link::HARD); });
                bool can = so && dp;
                c.check(ref == !can, "link.create", src + " -> " + dst + (ref ? ": link was not created" : ": link was created where it cannot be"));
                if (can) {
                    if (soft) dp->soft[name] = src;
                    else dp->kids[name] = so;
                    links++;
                }
            } else {
                c.desc << " open " << path;
                PObj o = m.find(h.o, path);
                H5Node got = h.n;
                bool ref = refuses([&] { got = h.n[path]; });
                bool can = o && o->kind == 'g';
                c.check(ref == !can, "group.open", path + (ref ? ": group was not opened" : ": something that is no group was opened"));
                if (can) hs.push_back({got, o});
            }
            c.desc << "\n";
        }
        // while it is open
        if (written && d.chance(0.5)) {
            std::string p = path_for(d, pool, true);
            Handle h = hs[d.range(0, hs.size() - 1)];
            PObj o = m.find(h.o, p);
            if (o) verify(d, c, h.n, p, *o);
        }
    }
    c.nontrivial(written >= 2 && (groups || links || phases > 1));
    c.label(links ? "links" : "no links");
    // every path up to three names deep
    std::vector<std::pair<std::string, PObj>> all;
    for (auto &x : pool) {
        PObj o = m.find(m.root, x);
        if (o) all.push_back({x, o});
        if (o && o->kind == 'g')
            for (auto &y : pool) {
                PObj q = m.find(m.root, x + "/" + y);
                if (q) all.push_back({x + "/" + y, q});
                if (q && q->kind == 'g')
                    for (auto &z : pool) {
                        PObj r = m.find(m.root, x + "/" + y + "/" + z);
                        if (r) all.push_back({x + "/" + y + "/" + z, r});
                    }
            }
    }
    auto bytes = [&] {
        std::ifstream f(file, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    };
    std::string before = bytes();
    {
        H5Node n(file, H5Access::READ);
        int k = 0;
        for (auto &e : all) {
            if (k++ > 40) break;
            verify(d, c, n, (d.chance(0.3) ? "/" : "") + e.first, *e.second);
            // relative to a group
            size_t s = e.first.find('/');
            if (s != std::string::npos && d.chance(0.3)) {
                H5Node g = n[e.first.substr(0, s)];
                verify(d, c, g, e.first.substr(s + 1), *e.second);
            }
        }
        for (auto &x : pool)
            if (!m.find(m.root, x)) {
                std::vector<double> v;
                mocc::ArrayB2 b;
                int i;
                c.check(refuses([&] { n.read(x, v); }), "read.missing", x + ": missing data was read");
                c.check(refuses([&] { n.read(x, b); }), "read.missing", x + ": missing data was read");
                c.check(refuses([&] { n.read(x, i); }), "read.missing", x + ": missing data was read");
                c.check(refuses([&] { n.dimensions(x); }), "read.missing", x + ": missing data has dimensions");
                c.check(refuses([&] { n[x]; }), "open.missing", x + ": missing group was opened");
            }
        mocc::ArrayB2 b(2, 2);
        b = 1.0;
        c.check(refuses([&] { n.create_group("zz"); }), "readonly", "a group was created in a read-only file");
        c.check(refuses([&] { n.write("zz", std::vector<double>(3, 1.0)); }), "readonly", "data was written to a read-only file");
        c.check(refuses([&] { n.write("zz", b); }), "readonly", "data was written to a read-only file");
        c.check(refuses([&] { n.write("zz", 5); }), "readonly", "data was written to a read-only file");
        c.check(refuses([&] { n.write("zz", std::string("x")); }), "readonly", "data was written to a read-only file");
        if (!all.empty()) c.check(refuses([&] { n.create_link(all[0].first, "zz"); }), "readonly", "a link was created in a read-only file");
    }
    c.check(before == bytes(), "readonly.bytes", "the file changed while it was open read-only");
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    c.check(f >= 0, "raw.file", "not a file of the library");
    for (auto &e : all)
        if (e.second->kind != 'g') verify_raw(c, f, e.first, *e.second);
    c.check(H5Lexists(f, "old", H5P_DEFAULT) <= 0, "write.truncate", "what was in the file before is still there");
    H5Fclose(f);
}

int main(int argc, char **argv) {
    pbt::Spec s;
    s.id = "C34";
    s.rule = "at least two datasets written, with groups, links or a second session";
    s.oracle = "an in-memory model of the tree of groups, links and data; reading back through the wrapper in every documented way and independently through the HDF5 library; bytes of the file around read-only sessions";
    s.quick_cases = 8000;
    s.thorough_cases = 100000;
    s.batch = 50;
    s.fn = fn;
    return pbt::pbt_main(argc, argv, s);
}
