// Reference models of tabulated distributions: bilinear / natural bicubic
// interpolation computed in long double, independent of the library.
#ifndef DIST_MODEL_H
#define DIST_MODEL_H
#include "pbt.h"
#include <algorithm>
using namespace std; using namespace pbt;
typedef long double ld;

static vector<double> grid(Ctx& c, int n, double lo, double hi) {   // strictly increasing, ends at lo and hi
    vector<double> w(n), x(n); w[0] = 0; bool uni = c.coin();
    for (int i = 1; i < n; i++) w[i] = w[i-1] + (uni ? 1 : c.bulk(0.15, 1));
    for (int i = 0; i < n; i++) x[i] = lo + (hi - lo) * (w[i] / w[n-1]);
    x[0] = lo; x[n-1] = hi; return x;
}
static void pxgrids(Ctx& c, int np, int nx, vector<double>& p, vector<double>& xi) {
    double p0 = c.coin() ? 0 : c.bulk(0, 3), p1 = p0 + c.logreal(0.1, 100); p = grid(c, np, p0, p1);
    double x0 = -1, x1 = 1; switch (c.draw(4)) { case 0: break; case 1: x0 = 0; break; case 2: x1 = 0; break; default: x0 = c.bulk(-1, 0.2); x1 = c.bulk(0.3, 1); } xi = grid(c, nx, x0, x1);
}
static ld natspline(const vector<double>& x, const vector<ld>& y, ld q) {
    size_t n = x.size(); vector<ld> M(n, 0), cp(n, 0), dp(n, 0);
    for (size_t i = 1; i + 1 < n; i++) { ld h0 = (ld)x[i]-x[i-1], h1 = (ld)x[i+1]-x[i], a = h0, b = 2*(h0+h1), g = h1, d = 6*((y[i+1]-y[i])/h1 - (y[i]-y[i-1])/h0); ld m = b - a*cp[i-1]; cp[i] = g/m; dp[i] = (d - a*dp[i-1])/m; }
    for (size_t i = n-2; i >= 1; i--) M[i] = dp[i] - cp[i]*M[i+1];
    size_t k = 0; while (k + 2 < n && q >= x[k+1]) k++;
    ld h = (ld)x[k+1]-x[k], A = (x[k+1]-q)/h, B = (q-x[k])/h;
    return A*y[k] + B*y[k+1] + ((A*A*A-A)*M[k] + (B*B*B-B)*M[k+1])*h*h/6;
}
struct Tab {
    vector<double> p, xi, f; bool lg = false, flip = false, cubic = false; ld scale = 0; // f: [xi*np+p], original (not logarithmic) values
    // acceptable values at (P,X); more than one only on cell borders next to non-positive values of logarithmic tables
    vector<ld> ev(double P, double X) const {
        size_t np = p.size(), nx = xi.size(); if (flip) X = -X; if (P < p[0] || P > p[np-1] || X < xi[0] || X > xi[nx-1]) return {0};
        if (cubic) { vector<ld> g(nx); for (size_t j = 0; j < nx; j++) { vector<ld> row(np); for (size_t i = 0; i < np; i++) row[i] = lg ? logl(f[j*np+i]) : (ld)f[j*np+i]; g[j] = natspline(p, row, P); } ld v = natspline(xi, g, X); return {lg ? expl(v) : v}; }
        vector<ld> out;
        for (size_t i = 0; i + 1 < np; i++) if (P >= p[i] && P <= p[i+1]) for (size_t j = 0; j + 1 < nx; j++) if (X >= xi[j] && X <= xi[j+1]) {
            ld t = ((ld)P-p[i])/((ld)p[i+1]-p[i]), u = ((ld)X-xi[j])/((ld)xi[j+1]-xi[j]); ld z[4] = {f[j*np+i], f[j*np+i+1], f[(j+1)*np+i], f[(j+1)*np+i+1]}; bool zero = false;
            if (lg) for (ld& v : z) { if (v <= 0) zero = true; else v = logl(v); }
            ld v = (1-t)*(1-u)*z[0] + t*(1-u)*z[1] + (1-t)*u*z[2] + t*u*z[3]; out.push_back(zero ? 0 : lg ? expl(v) : v);
            if (zero && (t == 0 || t == 1 || u == 0 || u == 1)) for (ld tt : {(ld)0, (ld)1}) for (ld uu : {(ld)0, (ld)1}) if ((t == tt) && (u == uu)) out.push_back(f[(j+(uu>0))*np+i+(tt>0)]); }
        return out;
    }
    double mag() const { double m = 0; for (double v : f) m = max(m, fabs(v)); return m; }
    double maxlog() const { double m = 1; if (lg) for (double v : f) if (v > 0) m = max(m, fabs(log(v))); return m; }
    double rtol() const { return (cubic ? 1e-9 : 1e-12) * (1 + maxlog()); }
    double atol() const { return lg ? 0 : mag() * (cubic ? 1e-9 : 1e-13); }
};
static Tab gentab(Ctx& c, bool lg, bool cubic, int maxn = 7) {
    Tab t; t.lg = lg; t.cubic = cubic; int mn = cubic ? 4 : 2; if (c.chance(4)) maxn = 36; pxgrids(c, (int)c.range(mn, maxn), (int)c.range(mn, maxn), t.p, t.xi); if (t.p.size() > 16 || t.xi.size() > 16) c.label("large momentum grid");
    size_t N = t.p.size() * t.xi.size(); double sc = c.chance(12) ? c.logreal(1e-200, 1e200) : c.logreal(1e-10, 1e10); bool zeros = lg && !cubic && c.chance(30), wild = lg && !cubic && c.chance(30), far = wild && c.coin();
    for (size_t i = 0; i < N; i++) { double v = lg ? (wild ? c.logreal(far ? 1e-280 : 1e-30, far ? 1e280 : 1e30) : sc * c.logreal(0.05, 20)) : sc * c.bulk(-1, 1); if (zeros && c.chance(20)) v = 0; t.f.push_back(v); }
    return t;
}
static double evp(Ctx& c, const vector<double>& g) {    // point on/in/outside of a grid
    size_t n = g.size(); switch (c.draw(8)) { case 0: case 1: case 2: return g[c.draw(n)]; case 3: { double d = (g[n-1]-g[0]) * c.logreal(1e-15, 3); return c.coin() ? g[0] - d : g[n-1] + d; } case 4: return c.coin() ? nextafter(g[0], -1e300) : nextafter(g[n-1], 1e300); default: return c.bulk(g[0], g[n-1]); } }
static void oneof(Ctx& c, double got, const vector<ld>& want, double rtol, double atol, const string& what) {
    for (ld w : want) if (fabsl(got - w) <= rtol * fabsl(w) + atol) return;
    string s; for (ld w : want) s += str((double)w) + " "; c.fail(what + " is " + str(got) + ", expected " + s);
}
#endif
