// Choice-sequence property-based testing runtime.
//
// Every random decision of a case is one `draw(n)` from a sequence of choices.
// In search mode choices come from a PRNG seeded by (VERIF_SEED, property,
// facet, case index); in replay mode they come from a stored sequence.  The
// shrinker edits the sequence (delete / zero / minimise) and re-runs the case,
// so every generator and every operation history shrinks as one value and the
// stored sequence is the replay file.
#ifndef PBT_H
#define PBT_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

class Ctx {
public:
    // ---- choices -------------------------------------------------------
    uint64_t draw(uint64_t n);                       // uniform in [0, n)
    bool coin() { return draw(2) != 0; }
    bool chance(unsigned pct) { return draw(100) >= 100 - (uint64_t)pct; }  // simplest = false
    int64_t range(int64_t lo, int64_t hi) {          // inclusive, simplest = lo
        return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
    }
    double unit() { return (double)draw(1ull << 53) / 9007199254740992.0; }
    double real(double lo, double hi) {              // mixes boundary and bulk
        uint64_t k = draw(16);
        if (k == 0) return lo;
        if (k == 1) return hi;
        if (k == 2) return 0.5 * (lo + hi);
        return lo + (hi - lo) * unit();
    }
    double bulk(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logreal(double lo, double hi) { return std::exp(bulk(std::log(lo), std::log(hi))); }
    double anyfinite();                              // any finite double, all scales
    uint64_t anyu64();
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template<class T> T pickl(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    std::string word(size_t minl, size_t maxl, const char *alphabet);

    // ---- verdicts ------------------------------------------------------
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    void require(bool c, const std::string& m) { if (!c) fail(m); }
    [[noreturn]] void discard() { throw Discard(); }
    void close(double got, double want, double rtol, double atol, const std::string& what);
    void same(double got, double want, const std::string& what); // bitwise (NaN==NaN)

    // ---- reporting -----------------------------------------------------
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    void label(const std::string& l) { labels.insert(l); }
    std::ostringstream note;                         // human description of the case
    // ---- scratch -------------------------------------------------------
    std::string tmp(const std::string& leaf);        // path in the case's scratch dir

    // internals
    bool replaying = false;
    const uint64_t *in = nullptr; size_t nin = 0;
    uint64_t s[4] = {0,0,0,0};
    uint64_t *out = nullptr; volatile uint64_t *nout = nullptr; size_t cap = 0;
    size_t pos = 0; uint64_t hash = 1469598103934665603ull;
    bool is_nontrivial = false;
    std::set<std::string> labels;
    std::string dir;
    uint64_t rnd();
};

inline std::string str(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string str(const std::string& x) {
    std::string o = "\"";
    for (unsigned char c : x) { char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c; }
    return o + "\"";
}
template<class T> std::string strv(const std::vector<T>& v) {
    std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; } o << "]"; return o.str();
}

typedef std::function<void(Ctx&)> Prop;
// quick / thorough = number of cases in each tier; 0 thorough = 40 * quick
void facet(const char *property, const char *name, uint64_t quick, const char *rule, Prop f, uint64_t thorough = 0);

struct Reg { Reg(const char *p, const char *n, uint64_t q, const char *rule, Prop f, uint64_t t = 0) { facet(p, n, q, rule, f, t); } };
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define FACET(prop, name, quick, rule) \
    static void PBT_CAT(name,_body)(pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(name,_reg)(prop, #name, quick, rule, PBT_CAT(name,_body)); \
    static void PBT_CAT(name,_body)(pbt::Ctx& c)

// Runs f with stdout (fd 1) captured; returns what was written.
std::string capture_stdout(Ctx& c, const std::function<void()>& f);

// Classify the outcome of calling f: "" = returned normally, otherwise the
// exception family ("softlib", "std", "h5", "other").
} // namespace pbt
#endif
