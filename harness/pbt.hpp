// A small choice-sequence property-testing engine.
//
// A property is a function void(Draw&, Case&).  All randomness is drawn from
// Draw as bounded integers; the drawn sequence is recorded in memory shared
// with the parent process, so that it survives a crash of the child that runs
// the case.  Shrinking edits the sequence.  Every batch of cases runs in a
// forked child.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string tag, msg; };
struct Discard { std::string why; };

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}

class Draw {
public:
    // Random mode
    Draw(uint64_t seed, uint64_t *rec, uint32_t cap, volatile uint32_t *n, double size)
        : seed_(seed), rec_(rec), cap_(cap), n_(n), size(size) { *n_ = 0; }
    // Replay mode
    Draw(const std::vector<uint64_t> *seq, uint64_t *rec, uint32_t cap,
         volatile uint32_t *n, double size)
        : seq_(seq), rec_(rec), cap_(cap), n_(n), size(size) { *n_ = 0; }

    // Uniform in [0, max].  Smaller is simpler.
    uint64_t raw(uint64_t max) {
        uint64_t v;
        if (seq_) {
            v = pos_ < seq_->size() ? (*seq_)[pos_] : 0;
            if (v > max) v = max;
        } else {
            uint64_t r = mix64(seed_ + 0x632be59bd9b4e019ull * (pos_ + 1));
            v = (max == UINT64_MAX) ? r
                : (uint64_t)(((__uint128_t)r * ((__uint128_t)max + 1)) >> 64);
        }
        pos_++;
        if (*n_ >= cap_) throw Discard{"choice sequence too long"};
        rec_[*n_] = v;
        *n_ = *n_ + 1;
        return v;
    }
    // inclusive integer range; shrinks towards lo
    long range(long lo, long hi) {
        if (hi < lo) throw std::logic_error("range");
        return lo + (long)raw((uint64_t)(hi - lo));
    }
    // true with probability p; shrinks to false
    bool chance(double p) { return raw(9999) >= (uint64_t)((1.0 - p) * 10000.0 + 0.5); }
    // real in [lo, hi]; 1/8 of the draws are "round" fractions, shrinks to lo
    double real(double lo, double hi) {
        uint64_t k = raw((1ull << 40) - 1);
        return lo + (hi - lo) * ((double)k / (double)((1ull << 40) - 1));
    }
    // real on a coarse grid of n steps
    double grid(double lo, double hi, int n) { return lo + (hi - lo) * (double)raw(n) / n; }
    // log-uniform
    double logreal(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * real(0, 1)); }
    template <class T> T pick(const std::vector<T> &v) { return v[raw(v.size() - 1)]; }
    // weighted index, first is simplest
    int weighted(const std::vector<int> &w) {
        long tot = 0;
        for (int x : w) tot += x;
        long r = (long)raw(tot - 1);
        for (size_t i = 0; i < w.size(); i++) {
            if (r < w[i]) return (int)i;
            r -= w[i];
        }
        return 0;
    }
    std::vector<int> shuffle(int n) {
        std::vector<int> v(n);
        for (int i = 0; i < n; i++) v[i] = i;
        for (int i = 0; i + 1 < n; i++) std::swap(v[i], v[i + raw(n - 1 - i)]);
        return v;
    }

private:
    uint64_t seed_ = 0;
    const std::vector<uint64_t> *seq_ = nullptr;
    uint64_t *rec_;
    uint32_t cap_;
    volatile uint32_t *n_;
    size_t pos_ = 0;

public:
    double size; // 0..1, grows over the run; generators may use it
};

class Case {
public:
    std::ostringstream desc;  // human-readable case
    std::string tier;         // quick | thorough
    std::string dir;          // scratch directory (cwd)
    bool nontriv = false;
    std::string key;          // distinctness key (default: choice sequence)
    std::vector<std::string> labels;
    double metric = 0;        // largest observed error / tolerance, for tuning
    bool verbose = false;
    void nontrivial(bool b = true) { nontriv = b; }
    void label(const std::string &l) { labels.push_back(l); }
    [[noreturn]] void fail(const std::string &tag, const std::string &msg) {
        throw Failure{tag, msg};
    }
    [[noreturn]] void discard(const std::string &why) { throw Discard{why}; }
    void check(bool ok, const char *tag, const std::string &msg = "") {
        if (!ok) throw Failure{tag, msg};
    }
    // |a-b| <= abs + rel*max(|a|,|b|), NaN fails
    void close(double a, double b, double rel, double abs, const char *tag,
               const std::string &msg = "") {
        double tol = abs + rel * std::fmax(std::fabs(a), std::fabs(b));
        double err = std::fabs(a - b);
        double m   = tol > 0 ? err / tol : (err > 0 ? 1e300 : 0);
        if (m > metric || !(m == m)) metric = m;
        if (!(err <= tol)) {
            char buf[200];
            snprintf(buf, sizeof buf, " got %.15g expected %.15g (tolerance %.3g)", a, b, tol);
            throw Failure{tag, msg + buf};
        }
    }
};

struct Spec {
    std::string id;
    std::string rule;      // what counts as non-trivial
    std::string oracle;    // short
    long quick_cases, thorough_cases;
    int batch      = 1;    // cases per forked child
    int jobs       = 8;
    int cpu_limit  = 60;   // seconds of CPU per batch child
    int wall_limit = 240;  // seconds of wall time per batch child
    int confirm_runs = 3, confirm_need = 3; // replays that have to fail
    std::function<void(Draw &, Case &)> fn;
    bool raise_exceptions = false;
    std::vector<std::string> assumptions;
};

int pbt_main(int argc, char **argv, const Spec &spec);

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
} // namespace pbt

#include <cstdarg>
inline std::string pbt::fmt(const char *f, ...) {
    char buf[1000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
