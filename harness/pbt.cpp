#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

namespace pbt {
namespace {
const uint32_t CAP = 1u << 16;

struct Slot {
    volatile uint32_t n;
    volatile int64_t cur;
    uint64_t choices[CAP];
};

enum Status { OK = 0, DISCARD = 1, FAIL = 2 };

struct Result {
    int64_t idx = -1;
    int status  = OK;
    bool nontriv = false;
    uint64_t key = 0;
    double metric = 0;
    std::string tag, msg, labels, desc;
    std::vector<uint64_t> choices; // only for failures
};

std::string g_root;

// The description of a case that ends its process, for the report only.
Case *g_case = nullptr;
std::string g_desc_path;
void on_death(int sg) {
    signal(sg, SIG_DFL);
    if (g_case) {
        std::string t = g_case->desc.str();
        int o = open(g_desc_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (o >= 0) {
            ssize_t k = write(o, t.data(), t.size());
            (void)k;
            close(o);
        }
    }
    raise(sg);
}

void clear_dir(const std::string &d, bool self) {
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) clear_dir(p, true);
        else unlink(p.c_str());
    }
    closedir(dp);
    if (self) rmdir(d.c_str());
}

void put(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); }
void puts_(std::string &s, const std::string &v) {
    uint32_t n = v.size();
    put(s, &n, 4);
    s += v;
}

void write_all(int fd, const std::string &s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t k = write(fd, s.data() + o, s.size() - o);
        if (k <= 0) _exit(97);
        o += k;
    }
}

std::string read_tail(const std::string &f, size_t n) {
    std::ifstream is(f, std::ios::binary);
    if (!is) return "";
    is.seekg(0, std::ios::end);
    long len = is.tellg();
    is.seekg(std::max(0l, len - (long)n));
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    for (auto &c : s)
        if ((unsigned char)c >= 127 || ((unsigned char)c < 32 && c != '\n')) c = '?';
    return s;
}

struct Engine {
    const Spec &spec;
    std::string tier;
    uint64_t seed;
    std::vector<Slot *> slots;

    explicit Engine(const Spec &s) : spec(s) {
        for (int i = 0; i < 8; i++)
            slots.push_back((Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }

    std::string slot_dir(int k) const { return g_root + "/s" + std::to_string(k); }
    std::string slot_desc(int k) const { return g_root + "/desc" + std::to_string(k); }
    std::string slot_out(int k) const { return g_root + "/out" + std::to_string(k); }

    void run_one(int k, int64_t idx, const std::vector<uint64_t> *seq, Result &r) {
        Slot *s = slots[k];
        s->cur  = idx;
        Case c;
        g_case = &c;
        c.tier = tier;
        c.dir  = slot_dir(k);
        c.verbose = false;
        uint64_t cs = mix64(mix64(seed ^ hash_str(spec.id)) + 0x51ed270b7a14ull * (uint64_t)(idx + 1));
        Draw dr(cs, s->choices, CAP, &s->n, 1.0);
        Draw dp(seq, s->choices, CAP, &s->n, 1.0);
        if (seq) s->n = 0;
        Draw &d = seq ? dp : dr;
        r.idx   = idx;
        try {
            spec.fn(d, c);
            r.status = OK;
        } catch (const Failure &f) {
            r.status = FAIL;
            r.tag    = f.tag;
            r.msg    = f.msg;
        } catch (const Discard &f) {
            r.status = DISCARD;
            r.msg    = f.why;
        } catch (const std::exception &e) {
            r.status = FAIL;
            int st;
            char *nm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
            r.tag = std::string("exception:") + (nm ? nm : "?");
            r.msg = e.what();
        } catch (...) {
            r.status = FAIL;
            r.tag    = "exception:unknown";
        }
        g_case    = nullptr;
        r.nontriv = c.nontriv;
        r.metric  = c.metric;
        r.desc    = c.desc.str();
        if (c.key.empty())
            c.key.assign((char *)s->choices, s->n * 8);
        r.key = hash_str(c.key);
        for (auto &l : c.labels) r.labels += l + "\n";
    }

    void child(int k, int64_t a, int64_t b, const std::vector<uint64_t> *seq, int fd, bool verbose) {
        if (!verbose) {
            int o = open(slot_out(k).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            dup2(o, 1);
            dup2(o, 2);
            close(o);
        }
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        if (chdir(slot_dir(k).c_str())) _exit(96);
        struct rlimit rl;
        rl.rlim_cur = spec.cpu_limit;
        rl.rlim_max = spec.cpu_limit + 5;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 2ull << 30;
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGINT, SIG_DFL);
        g_desc_path = slot_desc(k);
        for (int sg : {SIGABRT, SIGFPE, SIGXCPU, SIGALRM}) signal(sg, on_death);
#ifndef __SANITIZE_ADDRESS__
        signal(SIGSEGV, on_death);
#endif
        alarm(spec.wall_limit);
        for (int64_t i = a; i < b; i++) {
            Result r;
            run_one(k, i, seq, r);
            std::string s;
            put(s, &r.idx, 8);
            put(s, &r.status, 4);
            put(s, &r.nontriv, 1);
            put(s, &r.key, 8);
            put(s, &r.metric, 8);
            if (r.desc.size() > 200000) r.desc.resize(200000);
            puts_(s, r.tag);
            puts_(s, r.msg);
            puts_(s, r.labels);
            puts_(s, (r.status == FAIL || r.nontriv) ? r.desc : std::string());
            std::string ch;
            if (r.status == FAIL || seq) ch.assign((char *)slots[k]->choices, slots[k]->n * 8);
            puts_(s, ch);
            std::string out;
            puts_(out, s);
            write_all(fd, out);
        }
        fflush(stdout);
        _exit(0);
    }

    struct Proc {
        pid_t pid = -1;
        int fd    = -1;
        int slot;
        int64_t a, b, next;
        std::string buf;
        std::vector<Result> results;
    };

    Proc spawn(int k, int64_t a, int64_t b, const std::vector<uint64_t> *seq, bool verbose = false) {
        int p[2];
        if (pipe(p)) { perror("pipe"); exit(2); }
        fflush(stdout);
        fflush(stderr);
        slots[k]->n = 0;
        slots[k]->cur = a;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0) {
            close(p[0]);
            setpgid(0, 0);
            child(k, a, b, seq, p[1], verbose);
        }
        close(p[1]);
        Proc pr;
        pr.pid  = pid;
        pr.fd   = p[0];
        pr.slot = k;
        pr.a    = a;
        pr.b    = b;
        pr.next = a;
        return pr;
    }

    static std::string gets(const std::string &b, size_t &o) {
        uint32_t n;
        memcpy(&n, &b[o], 4);
        o += 4;
        std::string s = b.substr(o, n);
        o += n;
        return s;
    }

    // parse complete records
    void parse(Proc &p) {
        size_t o = 0;
        while (p.buf.size() - o >= 4) {
            uint32_t n;
            memcpy(&n, &p.buf[o], 4);
            if (p.buf.size() - o - 4 < n) break;
            std::string s = p.buf.substr(o + 4, n);
            o += 4 + n;
            size_t q = 0;
            Result r;
            memcpy(&r.idx, &s[q], 8); q += 8;
            memcpy(&r.status, &s[q], 4); q += 4;
            memcpy(&r.nontriv, &s[q], 1); q += 1;
            memcpy(&r.key, &s[q], 8); q += 8;
            memcpy(&r.metric, &s[q], 8); q += 8;
            r.tag = gets(s, q);
            r.msg = gets(s, q);
            r.labels = gets(s, q);
            r.desc = gets(s, q);
            std::string ch = gets(s, q);
            r.choices.resize(ch.size() / 8);
            if (!ch.empty()) memcpy(r.choices.data(), ch.data(), ch.size());
            p.next = r.idx + 1;
            p.results.push_back(r);
        }
        p.buf.erase(0, o);
    }

    // Read until EOF on one ready proc; returns true when the process ended.
    bool pump(Proc &p) {
        char buf[65536];
        ssize_t k = read(p.fd, buf, sizeof buf);
        if (k > 0) {
            p.buf.append(buf, k);
            return false;
        }
        if (k < 0 && errno == EINTR) return false;
        close(p.fd);
        int st;
        while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) {}
        kill(-p.pid, SIGKILL);
        parse(p);
        if (p.next < p.b) {
            // died while running case p.next
            Result r;
            r.idx    = p.next;
            r.status = FAIL;
            r.nontriv = true;
            if (WIFSIGNALED(st)) {
                int sg = WTERMSIG(st);
                if (sg == SIGXCPU || sg == SIGKILL) r.tag = "timeout";
                else if (sg == SIGALRM) r.tag = "walltime";
                else r.tag = std::string("crash:") + strsignal(sg);
            } else
                r.tag = "exit:" + std::to_string(WEXITSTATUS(st));
            r.msg = "child ended; last output: " + read_tail(slot_out(p.slot), 1500);
            r.desc = read_tail(slot_desc(p.slot), 100000);
            Slot *s = slots[p.slot];
            r.choices.assign(s->choices, s->choices + std::min((uint32_t)s->n, CAP));
            p.results.push_back(r);
        }
        clear_dir(slot_dir(p.slot), false);
        unlink(slot_desc(p.slot).c_str());
        return true;
    }

    // run a set of explicit sequences, up to 8 in parallel
    std::vector<Result> run_seqs(const std::vector<std::vector<uint64_t>> &seqs, int jobs) {
        std::vector<Result> out(seqs.size());
        size_t nexti = 0;
        std::vector<Proc> live;
        std::vector<int> freeslots;
        for (int i = 0; i < jobs; i++) freeslots.push_back(i);
        std::map<pid_t, size_t> which;
        while (nexti < seqs.size() || !live.empty()) {
            while (nexti < seqs.size() && !freeslots.empty()) {
                int k = freeslots.back();
                freeslots.pop_back();
                live.push_back(spawn(k, 0, 1, &seqs[nexti]));
                which[live.back().pid] = nexti++;
            }
            std::vector<pollfd> pf;
            for (auto &p : live) pf.push_back({p.fd, POLLIN, 0});
            if (poll(pf.data(), pf.size(), -1) < 0) continue;
            for (int i = (int)live.size() - 1; i >= 0; i--) {
                if (!pf[i].revents) continue;
                if (pump(live[i])) {
                    Result r = live[i].results.empty() ? Result() : live[i].results[0];
                    out[which[live[i].pid]] = r;
                    freeslots.push_back(live[i].slot);
                    live.erase(live.begin() + i);
                }
            }
        }
        return out;
    }
};

std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::vector<uint64_t> shrink(Engine &e, const Result &orig, long &evals, Result &best_r) {
    std::vector<uint64_t> cur = orig.choices;
    best_r                    = orig;
    double t0                 = now();
    bool slow                 = orig.tag == "timeout" || orig.tag == "walltime";
    double tmax               = 90;
    long emax                 = slow ? 0 : 1500;
    int jobs                  = e.spec.jobs;
    auto better = [&](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    // try candidates in order; accept the first that fails in the same way
    auto attempt = [&](const std::vector<std::vector<uint64_t>> &cands) -> bool {
        for (size_t i = 0; i < cands.size(); i += jobs) {
            if (evals >= emax || now() - t0 > tmax) return false;
            std::vector<std::vector<uint64_t>> chunk(
                cands.begin() + i, cands.begin() + std::min(cands.size(), i + jobs));
            auto rs = e.run_seqs(chunk, jobs);
            evals += chunk.size();
            for (size_t j = 0; j < rs.size(); j++) {
                if (rs[j].status == FAIL && rs[j].tag == orig.tag) {
                    auto c = rs[j].choices;
                    if (c.empty()) c = chunk[j];
                    if (better(c, cur)) {
                        cur    = c;
                        best_r = rs[j];
                        return true;
                    }
                }
            }
        }
        return false;
    };
    bool improved = true;
    while (improved && evals < emax && now() - t0 < tmax) {
        improved = false;
        // trailing zeros / truncation and block deletion
        for (size_t sz = std::max<size_t>(1, cur.size() / 2); sz >= 1; sz /= 2) {
            bool again = true;
            while (again) {
                again = false;
                std::vector<std::vector<uint64_t>> c;
                for (size_t p = cur.size(); p >= sz && c.size() < 64; p -= sz) {
                    auto v = cur;
                    v.erase(v.begin() + (p - sz), v.begin() + p);
                    c.push_back(v);
                    if (p < 2 * sz) break;
                }
                if (attempt(c)) again = improved = true;
                if (evals >= emax || now() - t0 > tmax) break;
            }
            if (sz == 1) break;
        }
        // zero blocks
        for (size_t sz = std::max<size_t>(1, cur.size() / 2); sz >= 1; sz /= 2) {
            std::vector<std::vector<uint64_t>> c;
            for (size_t p = 0; p < cur.size() && c.size() < 256; p += sz) {
                auto v = cur;
                bool ch = false;
                for (size_t i = p; i < std::min(cur.size(), p + sz); i++)
                    if (v[i]) { v[i] = 0; ch = true; }
                if (ch) c.push_back(v);
            }
            if (attempt(c)) { improved = true; }
            if (sz == 1) break;
        }
        // reduce single entries
        for (size_t i = 0; i < cur.size(); i++) {
            if (evals >= emax || now() - t0 > tmax) break;
            for (int it = 0; it < 12 && i < cur.size() && cur[i]; it++) {
                std::vector<std::vector<uint64_t>> c;
                std::set<uint64_t> seen;
                for (uint64_t nv : {(uint64_t)0, cur[i] >> 8, cur[i] / 4, cur[i] / 2,
                                    cur[i] - (cur[i] >> 2), cur[i] - (cur[i] >> 4), cur[i] - 1})
                    if (nv < cur[i] && seen.insert(nv).second) {
                        auto v = cur;
                        v[i]   = nv;
                        c.push_back(v);
                    }
                if (attempt(c)) improved = true;
                else break;
                if (evals >= emax || now() - t0 > tmax) break;
            }
        }
    }
    return cur;
}
} // namespace

int pbt_main(int argc, char **argv, const Spec &spec) {
    std::string tier = "quick", out, replay_dir = ".", replay, known;
    uint64_t seed = 1;
    long cases = -1, start = 0;
    bool noshrink = false, gen_only = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = atol(val().c_str());
        else if (a == "--start") start = atol(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--known") known = val();
        else if (a == "--no-shrink") noshrink = true;
        else if (a == "--one") { start = atol(val().c_str()); gen_only = true; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    double t0 = now();
    const char *td = getenv("TMPDIR");
    std::string tmpl = std::string(td && *td ? td : "/tmp") + "/moccverif-XXXXXX";
    if (!mkdtemp(&tmpl[0])) { perror("mkdtemp"); return 2; }
    g_root = tmpl;
    Engine e(spec);
    e.tier = tier;
    e.seed = seed;
    for (int i = 0; i < 8; i++) mkdir(e.slot_dir(i).c_str(), 0700);
    setenv("OMP_NUM_THREADS", "1", 0);

    auto finish = [&](int rc) {
        clear_dir(g_root, true);
        return rc;
    };

    if (gen_only) {
        auto p = e.spawn(0, start, start + 1, nullptr, true);
        while (!e.pump(p)) {}
        auto &r = p.results[0];
        printf("\n--- case %ld status=%d tag=%s msg=%s metric=%g\nlabels: %s\n%s\n", start, r.status,
               r.tag.c_str(), r.msg.c_str(), r.metric, r.labels.c_str(), r.desc.c_str());
        return finish(r.status == FAIL);
    }
    if (!replay.empty()) {
        std::ifstream is(replay);
        std::string line, s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        auto p = s.find("\"choices\":");
        if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); return finish(2); }
        std::istringstream ls(s.substr(s.find('[', p) + 1));
        std::vector<uint64_t> seq;
        uint64_t v;
        while (ls >> v) {
            seq.push_back(v);
            char c;
            ls >> c;
            if (c == ']') break;
        }
        auto pr = e.spawn(0, 0, 1, &seq, true);
        while (!e.pump(pr)) {}
        auto &r = pr.results[0];
        printf("\n--- replay status=%s tag=%s\n%s\n%s\n",
               r.status == FAIL ? "FAIL" : r.status == DISCARD ? "DISCARD" : "OK", r.tag.c_str(),
               r.msg.c_str(), r.desc.c_str());
        return finish(r.status == FAIL ? 1 : 0);
    }

    if (cases < 0) cases = tier == "thorough" ? spec.thorough_cases : spec.quick_cases;
    std::set<std::string> known_tags;
    {
        std::istringstream is(known);
        std::string t;
        while (std::getline(is, t, ',')) if (!t.empty()) known_tags.insert(t);
    }

    // main search
    int64_t next = start, end = start + cases, first_fail = -1;
    std::vector<Engine::Proc> live;
    std::vector<int> freeslots;
    for (int i = spec.jobs - 1; i >= 0; i--) freeslots.push_back(i);
    std::vector<std::pair<int64_t, int64_t>> todo; // remainders after a crash
    long evals = 0, discards = 0, nontriv = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, long> labels, why_discard, known_hits;
    std::map<int64_t, std::string> samples;
    double metric = 0;
    int64_t metric_idx = -1;
    std::map<int64_t, Result> fails;
    while (true) {
        while (!freeslots.empty()) {
            int64_t a, b;
            if (!todo.empty() && (first_fail < 0 || todo.back().first < first_fail)) {
                std::tie(a, b) = todo.back();
                todo.pop_back();
            } else if (next < end && first_fail < 0) {
                a = next;
                b = std::min(end, next + spec.batch);
                next = b;
            } else break;
            int k = freeslots.back();
            freeslots.pop_back();
            live.push_back(e.spawn(k, a, b, nullptr));
        }
        if (live.empty()) break;
        std::vector<pollfd> pf;
        for (auto &p : live) pf.push_back({p.fd, POLLIN, 0});
        if (poll(pf.data(), pf.size(), -1) < 0) continue;
        for (int i = (int)live.size() - 1; i >= 0; i--) {
            if (!pf[i].revents) continue;
            if (!e.pump(live[i])) continue;
            auto &p = live[i];
            for (auto &r : p.results) {
                if (r.status == DISCARD) {
                    discards++;
                    why_discard[r.msg]++;
                    continue;
                }
                evals++;
                std::istringstream is(r.labels);
                std::string l;
                while (std::getline(is, l)) labels[l]++;
                if (r.metric > metric && r.status == OK) { metric = r.metric; metric_idx = r.idx; }
                if (r.nontriv) {
                    nontriv++;
                    distinct.insert(r.key);
                    samples[r.idx] = r.desc;
                    if (samples.size() > 6) samples.erase(std::prev(samples.end()));
                }
                if (r.status == FAIL) {
                    if (known_tags.count(r.tag)) { known_hits[r.tag]++; continue; }
                    fails[r.idx] = r;
                    if (first_fail < 0 || r.idx < first_fail) first_fail = r.idx;
                }
            }
            int64_t last = p.results.empty() ? p.a : p.results.back().idx + 1;
            if (last < p.b) todo.push_back({last, p.b});
            freeslots.push_back(p.slot);
            live.erase(live.begin() + i);
        }
    }
    double t_search = now() - t0;

    int rc = 0;
    std::string replay_path, vmsg, vtag;
    long shrink_evals = 0;
    if (!fails.empty()) {
        Result r0 = fails.begin()->second, rb = r0;
        std::vector<uint64_t> seq = r0.choices;
        auto confirm = [&](const std::vector<uint64_t> &s, const std::string &tag, int &n) {
            int runs = (tag == "timeout" || tag == "walltime") ? 1 : spec.confirm_runs;
            n = 0;
            for (int i = 0; i < runs; i++) {
                auto rs = e.run_seqs({s}, 1);
                if (rs[0].status == FAIL && !known_tags.count(rs[0].tag)) n++;
            }
            int need = std::min(runs, spec.confirm_need);
            return n >= need;
        };
        int n = 0;
        bool ok = false;
        if (!noshrink) {
            seq = shrink(e, r0, shrink_evals, rb);
            ok  = confirm(seq, r0.tag, n);
        }
        if (!ok) {
            seq = r0.choices;
            rb  = r0;
            ok  = confirm(seq, r0.tag, n);
        }
        if (!ok && n == 0) {
            // the failure was seen but does not come back: try harder
            std::vector<std::vector<uint64_t>> many(16, seq);
            for (auto &r : e.run_seqs(many, spec.jobs))
                if (r.status == FAIL && !known_tags.count(r.tag)) n++;
        }
        // a failure that depends on what memory happens to hold may not come
        // back; other failing cases of the same run may
        int others = 0;
        for (auto it = std::next(fails.begin()); !ok && n == 0 && it != fails.end() && others < 8; ++it, ++others) {
            std::vector<std::vector<uint64_t>> many(8, it->second.choices);
            for (auto &r : e.run_seqs(many, spec.jobs))
                if (r.status == FAIL && !known_tags.count(r.tag)) n++;
            if (n) { r0 = rb = it->second; seq = r0.choices; }
        }
        if (ok || n >= 1) {
            rc = 1;
        } else {
            fprintf(stderr, "UNCONFIRMED failure of %s case %ld tag=%s: %s\n", spec.id.c_str(),
                    (long)r0.idx, r0.tag.c_str(), r0.msg.c_str());
            rc = 2;
        }
        mkdir(replay_dir.c_str(), 0755);
        std::string t = r0.tag;
        for (auto &c : t) if (!isalnum((unsigned char)c)) c = '_';
        replay_path = replay_dir + "/" + spec.id + "-" + t.substr(0, 60) + ".json";
        std::ofstream os(replay_path);
        os << "{\n \"property\": " << jstr(spec.id) << ",\n \"tag\": " << jstr(rb.tag)
           << ",\n \"message\": " << jstr(rb.msg) << ",\n \"seed\": " << seed << ",\n \"tier\": "
           << jstr(tier) << ",\n \"case_index\": " << r0.idx << ",\n \"shrink_evaluations\": "
           << shrink_evals << ",\n \"choices\": [";
        for (size_t i = 0; i < seq.size(); i++) os << (i ? "," : "") << seq[i];
        if (seq.empty()) os << "0";
        os << "],\n \"case\": " << jstr(rb.desc) << "\n}\n";
        vmsg = rb.msg;
        vtag = rb.tag;
        fprintf(stderr, "FAILED %s case %ld tag=%s: %s\n%s\n", spec.id.c_str(), (long)r0.idx,
                rb.tag.c_str(), rb.msg.c_str(), rb.desc.substr(0, 4000).c_str());
    }
    if (rc == 0 && distinct.size() < 2) {
        fprintf(stderr, "only %zu distinct non-trivial cases\n", distinct.size());
        rc = 2;
    }

    if (!out.empty()) {
        std::ofstream os(out);
        os << "{\"property\":" << jstr(spec.id) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed
           << ",\"requested\":" << cases << ",\"evaluations\":" << evals << ",\"discards\":" << discards
           << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size()
           << ",\"rule\":" << jstr(spec.rule) << ",\"oracle\":" << jstr(spec.oracle)
           << ",\"max_error_over_tolerance\":" << (std::isfinite(metric) ? metric : 1e300)
           << ",\"max_error_case\":" << metric_idx
           << ",\"search_s\":" << t_search << ",\"wall_s\":" << now() - t0 << ",\"rc\":" << rc
           << ",\"shrink_evaluations\":" << shrink_evals << ",\"tag\":" << jstr(vtag)
           << ",\"message\":" << jstr(vmsg) << ",\"replay\":" << jstr(replay_path) << ",\"labels\":{";
        bool f = true;
        for (auto &l : labels) { os << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        os << "},\"discard_reasons\":{";
        f = true;
        for (auto &l : why_discard) { os << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        os << "},\"known\":{";
        f = true;
        for (auto &l : known_hits) { os << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        os << "},\"assumptions\":[";
        f = true;
        for (auto &l : spec.assumptions) { os << (f ? "" : ",") << jstr(l); f = false; }
        os << "],\"samples\":[";
        f = true;
        for (auto &s : samples) {
            os << (f ? "" : ",") << jstr(s.second.substr(0, 1500));
            f = false;
        }
        os << "]}\n";
    }
    return finish(rc);
}
} // namespace pbt
