// P16 analytical field, P17 numeric fields, P18 LUKE equilibria, P19 wall geometry
#include "dist_model.h"
#include "mangle.h"
#include <fstream>
#include <limits>
#include <memory>
#include <softlib/config.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Vector.h>
#include <softlib/MagneticField/MagneticField2D.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>

typedef MagneticField2D MF;
typedef MagneticFieldAnalytical2D AF;
typedef MagneticFieldNumeric2D NF;
static const ld PIL = 3.14159265358979323846264338327950288L;
template<class F> static bool refused(Ctx& c, F f, const string& what) {
    try { f(); } catch (SOFTLibException&) { return true; } catch (exception& e) { c.fail(what + ": foreign exception " + e.what()); }
    return false;
}
static void allclose(Ctx& c, const double *got, const ld *want, int n, double rtol, double scale, const string& what) {
    double m = scale; for (int i = 0; i < n; i++) m = max(m, (double)fabsl(want[i]));
    for (int i = 0; i < n; i++) c.close(got[i], (double)want[i], rtol, rtol * m, what + "[" + to_string(i) + "]");
}

// ---------------------------------------------------------------- P16
struct D { ld v, d[3]; D(ld a = 0) : v(a), d{0, 0, 0} {} static D var(ld a, int i) { D r(a); r.d[i] = 1; return r; } };
static D operator+(const D& a, const D& b) { D r(a.v + b.v); for (int i = 0; i < 3; i++) r.d[i] = a.d[i] + b.d[i]; return r; }
static D operator-(const D& a, const D& b) { D r(a.v - b.v); for (int i = 0; i < 3; i++) r.d[i] = a.d[i] - b.d[i]; return r; }
static D operator*(const D& a, const D& b) { D r(a.v * b.v); for (int i = 0; i < 3; i++) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
static D operator/(const D& a, const D& b) { D r(a.v / b.v); for (int i = 0; i < 3; i++) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
static D dsqrt(const D& a) { D r(sqrtl(a.v)); for (int i = 0; i < 3; i++) r.d[i] = r.v == 0 ? 0 : a.d[i] / (2 * r.v); return r; }

struct AP { double B0, Rm, za, a; int sB, sI, qt; double q1, q2; };
static ld qof(const AP& p, ld r, ld& dq) { // safety factor and its derivative
    ld rn = r / p.a, a = p.a, q1 = p.q1, q2 = p.q2;
    switch (p.qt) {
        case 0: dq = 0; return q1;
        case 1: dq = q1 / a; return q1 * rn + q2;
        case 2: dq = 2 * q1 * rn / a; return q1 * rn * rn + q2;
        case 3: dq = expl(rn * q1) * q1 / a; return expl(rn * q1) + q2;
        default: { if (isinf(p.q2)) { dq = 0; return q1; } ld k = 2 / (q2 + 2), den = 1 - k * powl(rn, q2); dq = q1 / (den * den) * k * q2 * (rn == 0 ? 0 : powl(rn, q2 - 1)) / a; return q1 / den; }
    }
}
struct ARef { ld B[3], J[3][3], Babs, gB[3], curl[3], psi, dR, dZ, q, rdq, r; };
static ARef aref(const AP& p, double x, double y, double z) {
    D X = D::var(x, 0), Y = D::var(y, 1), Z = D::var(z, 2) - D(p.za), R = dsqrt(X * X + Y * Y), e = D(p.Rm) - R, r2 = e * e + Z * Z; ARef o; o.r = sqrtl(r2.v);
    ld dq; D q(qof(p, o.r, dq)); o.q = q.v; o.rdq = o.r * dq; if (o.r > 0) { D r = dsqrt(r2); for (int i = 0; i < 3; i++) q.d[i] = dq * r.d[i]; }
    D pf = D((ld)p.B0 * p.Rm) / R, sI(p.sI ? 1 : -1), sB(p.sB ? 1 : -1), k = sI / (D(p.Rm) * q), cp = X / R, sp = Y / R;
    D B[3] = {pf * (k * Z * cp - sB * sp), pf * (k * Z * sp + sB * cp), pf * k * e}; D m = pf * dsqrt(D(1) + r2 / (D(p.Rm) * D(p.Rm) * q * q)), psi = sI * D(PIL * p.B0) * r2 / q;
    for (int i = 0; i < 3; i++) { o.B[i] = B[i].v; o.gB[i] = m.d[i]; for (int j = 0; j < 3; j++) o.J[i][j] = B[i].d[j]; }
    o.Babs = m.v; o.curl[0] = o.J[2][1] - o.J[1][2]; o.curl[1] = o.J[0][2] - o.J[2][0]; o.curl[2] = o.J[1][0] - o.J[0][1]; o.psi = psi.v; o.dR = psi.d[0] * x / R.v + psi.d[1] * y / R.v; o.dZ = psi.d[2]; return o;
}
static AP genap(Ctx& c) {
    AP p; p.B0 = c.logreal(0.1, 20); p.Rm = c.coin() ? (double)c.range(1, 8) : c.bulk(0.5, 8); p.a = c.bulk(0.1, 0.9) * p.Rm; p.za = c.coin() ? 0 : c.bulk(-1, 1); p.sB = (int)c.draw(2); p.sI = (int)c.draw(2); p.qt = (int)c.draw(5); int sg = c.chance(15) ? -1 : 1;
    switch (p.qt) { case 0: p.q1 = c.bulk(0.3, 6); p.q2 = c.coin() ? 0 : c.bulk(-3, 3); break; case 1: case 2: p.q1 = c.bulk(-0.9, 5); p.q2 = c.bulk(1, 3); break; case 3: p.q1 = c.bulk(-2, 2); p.q2 = c.bulk(0, 3); sg = 1; break; default: p.q1 = c.bulk(0.5, 4); p.q2 = c.chance(20) ? numeric_limits<double>::infinity() : c.coin() ? (double)c.range(1, 4) : c.chance(30) ? c.logreal(6, 300) : c.bulk(0.3, 6); }
    if (p.qt != 0 && p.qt != 4) { p.q2 *= sg; } if (sg < 0) p.q1 = -p.q1;
    return p;
}
static AF *mkaf(const AP& p, Ctx& c, string& nm) {
    MFAFieldSign sB = p.sB ? MFAFS_CCW : MFAFS_CW, sI = p.sI ? MFAFS_CCW : MFAFS_CW; static const MFASafetyFactorType qt[5] = {MFASF_CONSTANT, MFASF_LINEAR, MFASF_QUADRATIC, MFASF_EXPONENTIAL, MFASF_CURRENT};
    if (c.coin()) { nm = ""; return new AF(p.B0, p.Rm, p.za, p.a, sB, sI, qt[p.qt], p.q1, p.q2); } nm = c.word(1, 12, "abc XYZ09"); return new AF(p.B0, p.Rm, p.za, p.a, sB, sI, qt[p.qt], p.q1, p.q2, nm, "desc " + nm);
}
static string strap(const AP& p) { ostringstream o; o.precision(17); o << "B0=" << p.B0 << " Rm=" << p.Rm << " z=" << p.za << " a=" << p.a << " sB=" << p.sB << " sI=" << p.sI << " q" << p.qt << "(" << p.q1 << "," << p.q2 << ")"; return o.str(); }
static void apoint(Ctx& c, const AP& p, double& x, double& y, double& z) {
    switch (c.draw(8)) {
        case 0: { double s = c.coin() ? 1 : -1; if (c.coin()) { x = s * p.Rm; y = 0; } else { x = 0; y = s * p.Rm; } z = p.za; return; }     // exactly on the magnetic axis
        case 1: { double r = p.a * c.logreal(1e-13, 1), th = c.pickl<double>({0, 1, 2, 3}) * M_PI / 2; double R = p.Rm + r * cos(th); x = R; y = 0; z = p.za + r * sin(th); return; }
        case 2: { double R = p.Rm, r = p.a * c.bulk(0.01, 1); x = 0; y = c.coin() ? R : -R; z = p.za + (c.coin() ? r : -r); return; }
        case 3: { double R = p.Rm * c.bulk(0.05, 3), ph = c.bulk(-M_PI, M_PI); x = R * cos(ph); y = R * sin(ph); z = p.za + p.Rm * c.bulk(-1.5, 1.5); return; }  // possibly outside of the plasma
        default: { double r = p.a * c.logreal(c.chance(15) ? 1e-12 : 1e-3, 1), th = c.bulk(0, 2 * M_PI), ph = c.bulk(-M_PI, M_PI), R = p.Rm + r * cos(th); x = R * cos(ph); y = R * sin(ph); z = p.za + r * sin(th); }
    }
}
static bool ausable(const AP& p, const ARef& w) { ld tmp; ld e = 1e-6L * (p.a + w.r), q2 = qof(p, w.r + e, tmp); return fabsl(w.q) > 0.1 && fabsl(w.q) < 1e6 && fabsl(q2 - w.q) < 1e-3 * fabsl(w.q) && (p.qt != 4 || isinf(p.q2) || 2 / (p.q2 + 2) * powl(w.r / p.a, p.q2) < 0.97); }
static void acheck(Ctx& c, AF *f, const AP& p, double x, double y, double z, int how) {
    ARef w = aref(p, x, y, z); if (!ausable(p, w)) return; double R = hypot(x, y), xyz[3] = {x, y, z}; string at = " at (" + str(x) + "," + str(y) + "," + str(z) + ")"; MF *m = f; Vector<3> V; V[0] = x; V[1] = y; V[2] = z;
    auto field = [&]{ slibreal_t *b = how % 3 == 0 ? f->Eval(x, y, z) : how % 3 == 1 ? m->Eval(xyz) : m->Eval(V); allclose(c, b, w.B, 3, 1e-11, (double)w.Babs, "field" + at); };
    auto deriv = [&]{ magnetic_field_data& d = how % 3 == 0 ? f->EvalDerivatives(x, y, z) : how % 3 == 1 ? m->EvalDerivatives(xyz) : m->EvalDerivatives(V); double s = (double)w.Babs / R, js = s; for (auto& row : w.J) for (ld v : row) js = max(js, (double)fabsl(v));
        allclose(c, d.B, w.B, 3, 1e-11, (double)w.Babs, "field from derivatives" + at); c.close(d.Babs, (double)w.Babs, 1e-11, 0, "field strength" + at); allclose(c, d.gradB, w.gB, 3, 1e-8, js, "gradient of the field strength" + at); allclose(c, d.curlB, w.curl, 3, 1e-8, js, "curl" + at);
        for (int i = 0; i < 3; i++) allclose(c, d.J[i], w.J[i], 3, 1e-8, js, "Jacobian row " + to_string(i) + at); c.close(d.J[0][0] + d.J[1][1] + d.J[2][2], 0, 0, 1e-8 * js, "divergence" + at); };
    auto flux = [&]{ double s = fabs((double)w.psi) + fabs(p.B0 * p.a * p.a * 1e-3); c.close(how % 2 ? f->EvalFlux(x, y, z) : m->EvalFlux(xyz), (double)w.psi, 1e-9, 1e-12 * s, "flux" + at); };
    auto fluxd = [&]{ double s = fabs((double)w.psi) + fabs(p.B0 * p.a * p.a * 1e-3), g = hypot((double)w.dR, (double)w.dZ) + fabs(p.B0) * p.a * 1e-3; flux_diff *d = how % 2 ? f->EvalFluxDerivatives(x, y, z) : m->EvalFluxDerivatives(V); c.close(d->psi, (double)w.psi, 1e-9, 1e-12 * s, "flux from derivatives" + at); c.close(d->dpsi_dR, (double)w.dR, 1e-9, 1e-9 * g, "radial flux derivative" + at); c.close(d->dpsi_dZ, (double)w.dZ, 1e-9, 1e-9 * g, "vertical flux derivative" + at);
        double dR = d->dpsi_dR, dZ = d->dpsi_dZ; slibreal_t *b = f->Eval(x, y, z); c.close((b[0] * x + b[1] * y) / R * dR + b[2] * dZ, 0, 0, 1e-9 * (double)w.Babs * g, "field component across the flux surface" + at); };
    switch (how / 3 % 5) { case 0: field(); break; case 1: deriv(); break; case 2: flux(); break; case 3: fluxd(); break; default: field(); deriv(); flux(); fluxd(); field(); }
    if (how / 15 % 2) { c.close(f->__GetSafetyFactor((double)w.r), (double)w.q, 1e-11, 0, "safety factor at r=" + str((double)w.r)); c.close(f->__GetrDqDr((double)w.r), (double)w.rdq, 1e-10, 1e-13 * (double)fabsl(w.q), "r dq/dr at r=" + str((double)w.r)); }
}
FACET("P16", analytical_history, 9000, "a point off the magnetic axis and away from the axis plane was evaluated with derivatives") {
    vector<pair<AF*, AP>> o; vector<string> nms; int n0 = (int)c.range(1, 2); for (int i = 0; i < n0; i++) { AP p = genap(c); string nm; AF *f = mkaf(p, c, nm); c.note << strap(p) << "; "; o.push_back({f, p}); nms.push_back(nm.empty() ? f->GetName() : nm); c.label("q" + to_string(p.qt)); if (!nm.empty()) c.require(f->GetName() == nm && f->GetDescription() == "desc " + nm, "name or description not kept"); }
    int n = (int)c.range(2, 10); bool nt = false;
    for (int k = 0; k < n; k++) { size_t i = c.draw(o.size()); int op = (int)c.draw(10); AF *f = o[i].first; AP& p = o[i].second;
        if (op == 0) { c.note << "clone#" << i << "; "; AF *g = f->Clone(); c.require(g != f, "clone is the original"); c.require(g->GetName() == nms[i] && g->GetDescription() == f->GetDescription(), "clone has another name"); nms.push_back(nms[i]); AP q = p; o.push_back({g, q}); continue; }
        if (op == 1) { double b = c.logreal(0.1, 20); c.note << "setB0#" << i << "=" << str(b) << "; "; f->SetB0(b); p.B0 = b; c.require(f->GetB0() == b, "GetB0 differs from the value set"); continue; }
        if (op == 2) { c.require(f->GetMagneticAxisR() == p.Rm && f->GetMagneticAxisZ() == p.za && f->GetMagneticAxis()[0] == p.Rm && f->GetMagneticAxis()[1] == p.za && f->GetRMajor() == p.Rm && f->GetRMinor() == p.a && f->GetB0() == p.B0 && f->HasMagneticFlux(), "geometry parameters differ from those given");
            c.close(f->GetMaxRadius(), p.Rm + p.a, 1e-12, 0, "maximum radius"); double mr = f->GetMinRadius(); c.require(mr >= p.Rm - p.a - 1e-9 * p.Rm && mr < p.Rm, "minimum radius " + str(mr)); unsigned nd = f->GetNDomain(); c.require(nd >= 3, "no domain"); for (unsigned j = 0; j < nd; j++) c.close(hypot(f->GetRDomain()[j] - p.Rm, f->GetZDomain()[j] - p.za), p.a, 1e-12, 0, "distance of domain point from the magnetic axis"); continue; }
        double x, y, z; apoint(c, p, x, y, z); int how = (int)c.draw(30); c.note << "eval#" << i << "(" << str(x) << "," << str(y) << "," << str(z) << "; " << how << "); "; acheck(c, f, p, x, y, z, how); if (how / 3 % 5 == 4 && hypot(hypot(x, y) - p.Rm, z - p.za) > 1e-3 * p.a) nt = true; }
    for (size_t i = 0; i < o.size(); i++) { double x, y, z; apoint(c, o[i].second, x, y, z); c.note << "eval#" << i << "(" << str(x) << "," << str(y) << "," << str(z) << "); "; acheck(c, o[i].first, o[i].second, x, y, z, 12 + 15); if (hypot(hypot(x, y) - o[i].second.Rm, z - o[i].second.za) > 1e-3 * o[i].second.a) nt = true; }
    for (auto& q : o) delete q.first; c.nontrivial(nt);
}
FACET("P16", axisymmetry, 4000, "rotation by a generic angle at a point away from the magnetic axis") {
    AP p = genap(c); string nm; unique_ptr<AF> f(mkaf(p, c, nm)); double r = p.a * c.logreal(1e-2, 1), th = c.bulk(0, 2 * M_PI), R = p.Rm + r * cos(th), z = p.za + r * sin(th), a = c.bulk(-4, 4), b = c.bulk(-4, 4); c.note << strap(p) << " R=" << str(R) << " z=" << str(z) << " angles " << str(a) << " " << str(b); ARef w = aref(p, R, 0, z); if (!ausable(p, w)) c.discard();
    auto cyl = [&](double an, double *o) { double x = R * cos(an), y = R * sin(an); slibreal_t *v = f->Eval(x, y, z); o[0] = v[0] * cos(an) + v[1] * sin(an); o[1] = -v[0] * sin(an) + v[1] * cos(an); o[2] = v[2]; o[3] = f->EvalDerivatives(x, y, z).Babs; o[4] = f->EvalFlux(x, y, z); }; double A[5], B[5]; cyl(a, A); cyl(b, B); for (int i = 0; i < 5; i++) c.close(A[i], B[i], 1e-9, 1e-9 * (i == 4 ? fabs((double)w.psi) : (double)w.Babs), "component " + to_string(i) + " at two toroidal angles"); c.nontrivial(true);
}
FACET("P16", to_numeric, 250, "converted with at least six points in each direction") {
    AP p = genap(c); string nm; unique_ptr<AF> f(mkaf(p, c, nm)); { ld s; for (int i = 0; i <= 40; i++) { ld q = qof(p, i * 1.5L * p.a / 40, s); if (fabsl(q) < 0.2 || fabsl(q) > 1e4 || (i && q * qof(p, 0, s) < 0)) c.discard(); if (p.qt == 4 && !isinf(p.q2) && 2 / (p.q2 + 2) * powl(1.5L, p.q2) > 0.95) c.discard(); } }
    unsigned nr = (unsigned)c.range(2, 14), nz = (unsigned)c.range(2, 14); bool def = c.chance(3); if (def) nr = nz = 120; c.note << strap(p) << " nr=" << nr << " nz=" << nz; NF *raw = nullptr; if (nr < 4 || nz < 4) { c.require(refused(c, [&]{ raw = f->ToNumeric2D(nr, nz); }, "conversion with too few points"), "conversion with too few points was accepted"); c.label("too few points"); return; }
    raw = def ? f->ToNumeric2D() : f->ToNumeric2D(nr, nz); unique_ptr<NF> g(raw); c.require(g->HasMagneticFlux(), "converted field has no flux"); c.require(g->GetMagneticAxisR() == p.Rm && g->GetMagneticAxisZ() == p.za, "converted field has another magnetic axis"); c.require(g->GetName() == f->GetName() && g->GetDescription() == f->GetDescription(), "converted field has another name");
    c.require(g->GetNDomain() == f->GetNDomain(), "converted field has another wall"); for (unsigned i = 0; i < f->GetNDomain(); i++) c.require(g->GetRDomain()[i] == f->GetRDomain()[i] && g->GetZDomain()[i] == f->GetZDomain()[i], "converted field has another wall"); c.require(g->GetRDomain() != f->GetRDomain(), "converted field shares its wall");
    double bm = 0, pm = 0; for (double s : {-1.0, 1.0}) { ARef w = aref(p, p.Rm + s * p.a, 0, p.za + p.a); bm = max(bm, (double)w.Babs); pm = max(pm, fabs((double)w.psi)); } int n = (int)c.range(3, 10); bool destroyed = c.coin(); if (destroyed) f.reset();
    for (int k = 0; k < n; k++) { unsigned i = (unsigned)c.draw(nr), j = (unsigned)c.draw(nz); double R = (p.Rm - p.a) + 2 * p.a * i / (nr - 1.0), z = (p.za - p.a) + 2 * p.a * j / (nz - 1.0), ph = c.coin() ? 0 : c.bulk(-4, 4), x = R * cos(ph), y = R * sin(ph); ARef w = aref(p, x, y, z); allclose(c, g->Eval(x, y, z), w.B, 3, 1e-8, bm, "converted field at grid point " + to_string(i) + "," + to_string(j)); c.close(g->EvalFlux(x, y, z), (double)w.psi, 1e-8, 1e-8 * pm, "converted flux at grid point " + to_string(i) + "," + to_string(j)); }
    c.nontrivial(nr >= 6 && nz >= 6);
}

// ---------------------------------------------------------------- polygons
struct Poly { vector<double> r, z; };
static Poly genpoly(Ctx& c, double Ra, double Za, bool exact, double maxr = -1) { // around (Ra, Za); exact: coordinates are multiples of 1/8
    Poly P; double mr = maxr > 0 ? maxr : 0.9 * Ra; int kind = (int)c.draw(5); auto snap = [&](double v) { return exact ? round(v * 8) / 8 : v; };
    if (kind <= 2) { int n = c.chance(5) ? (int)c.range(20, 80) : (int)c.range(3, 9); double ph0 = c.coin() ? 0 : c.bulk(0, 6.28); vector<double> an; double s = 0; for (int i = 0; i < n; i++) { s += c.bulk(0.4, 1); an.push_back(s); } for (int i = 0; i < n; i++) { double t = ph0 + 2 * M_PI * an[i] / s, q = mr * c.bulk(0.3, 1); P.r.push_back(snap(Ra + q * cos(t))); P.z.push_back(snap(Za + q * sin(t))); } }
    else if (kind == 3) { double a = c.chance(10) && maxr <= 0 ? 0 : snap(Ra - mr * c.bulk(0.2, 1)), b = snap(Ra + mr * c.bulk(0.2, 1)), lo = snap(Za - mr * c.bulk(0.2, 1)), hi = snap(Za + mr * c.bulk(0.2, 1)); P.r = {a, b, b, a}; P.z = {lo, lo, hi, hi}; }
    else { // rectangle with an inward step on one side: horizontal and vertical segments, non-convex
        double a = snap(Ra - mr * c.bulk(0.3, 1)), b = snap(Ra + mr * c.bulk(0.6, 1)), m = snap(Ra + mr * c.bulk(0.1, 0.5)), lo = snap(Za - mr * c.bulk(0.3, 1)), hi = snap(Za + mr * c.bulk(0.6, 1)), mz = snap(Za + mr * c.bulk(-0.2, 0.5)); P.r = {a, b, b, m, m, a}; P.z = {lo, lo, mz, mz, hi, hi}; if (c.coin()) for (auto& v : P.z) v = 2 * Za - v; }
    size_t n = P.r.size(), st = c.draw(n); rotate(P.r.begin(), P.r.begin() + st, P.r.end()); rotate(P.z.begin(), P.z.begin() + st, P.z.end()); if (c.coin()) { reverse(P.r.begin(), P.r.end()); reverse(P.z.begin(), P.z.end()); }
    if (c.coin()) { P.r.push_back(P.r[0]); P.z.push_back(P.z[0]); } if (c.chance(10)) { size_t k = c.draw(P.r.size()); P.r.insert(P.r.begin() + k, P.r[k]); P.z.insert(P.z.begin() + k, P.z[k]); } // repeated vertex
    return P;
}
// extreme x on the closed polygon at y = a
static bool polyext(const vector<double>& x, const vector<double>& y, ld a, ld& mn, ld& mx) {
    bool any = false; size_t n = x.size(); auto put = [&](ld v) { if (!any || v < mn) mn = v; if (!any || v > mx) mx = v; any = true; };
    for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; ld y0 = y[i], y1 = y[j]; if (min(y0, y1) > a || max(y0, y1) < a) continue; if (y0 == y1) { put(x[i]); put(x[j]); } else put(x[i] + ((ld)x[j] - x[i]) * (a - y0) / (y1 - y0)); } return any;
}
struct TF : public MF { // minimal field, only its geometry matters
    slibreal_t b[3] = {0, 0, 0}; flux_diff fd; TF(double R, double Z) { magnetic_axis[0] = R; magnetic_axis[1] = Z; }
    MF *Clone() override { return nullptr; } slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return b; } magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; } slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; } flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return &fd; } bool HasMagneticFlux() override { return false; }
};
static bool reaches(const Poly& P, double za) { ld a, b; return polyext(P.r, P.z, za, a, b); }

// ---------------------------------------------------------------- P19
typedef __int128 i128;
static int sgn(i128 v) { return v < 0 ? -1 : v > 0; }
struct IP { long long x, y; };
static i128 crs(IP a, IP b, IP q) { return (i128)(b.x - a.x) * (q.y - a.y) - (i128)(b.y - a.y) * (q.x - a.x); }
static bool onseg(IP a, IP b, IP q) { return crs(a, b, q) == 0 && min(a.x, b.x) <= q.x && q.x <= max(a.x, b.x) && min(a.y, b.y) <= q.y && q.y <= max(a.y, b.y); }
static bool meets(IP a, IP b, IP p, IP q) { if (onseg(a, b, p) || onseg(a, b, q) || onseg(p, q, a) || onseg(p, q, b)) return true; return sgn(crs(a, b, p)) * sgn(crs(a, b, q)) < 0 && sgn(crs(p, q, a)) * sgn(crs(p, q, b)) < 0; }
static IP ip(double r, double z) { return {llround(r * 8), llround(z * 8)}; }
static void toxyz(Ctx& c, double R, double *x, double *y, bool exact) { // a point with hypot(x,y) = R
    int k = (int)c.draw(exact ? 4 : 5); double t3 = R / 5 * 3, t4 = R / 5 * 4; if (k == 4) { double a = c.bulk(-4, 4); *x = R * cos(a); *y = R * sin(a); return; } if (k == 3 && fmod(R * 8, 5) == 0) { *x = c.coin() ? t3 : -t3; *y = c.coin() ? t4 : -t4; if (fmod(*x * 8, 1) == 0 && hypot(*x, *y) == R) return; } if (k & 1) { *x = 0; *y = c.coin() ? R : -R; } else { *y = 0; *x = c.coin() ? R : -R; }
}
static void genpath(Ctx& c, const Poly& P, double Ra, double Za, double q[4], bool exact) { // R1 z1 R2 z2, biased towards the wall
    size_t n = P.r.size(); auto snap = [&](double v) { return exact ? round(v * 8) / 8 : v; }; double lo = 1e9, hi = -1e9, zl = 1e9, zh = -1e9; for (size_t i = 0; i < n; i++) { lo = min(lo, P.r[i]); hi = max(hi, P.r[i]); zl = min(zl, P.z[i]); zh = max(zh, P.z[i]); } double w = hi - lo, h = zh - zl;
    auto any = [&](double& r, double& z) { switch (c.draw(exact ? 5 : 3)) { case 0: r = Ra; z = Za; break; case 3: { size_t i = c.draw(n); r = P.r[i]; z = P.z[i]; break; } case 4: { size_t i = c.draw(n), j = (i + 1) % n; double t = (double)c.range(0, 4) / 4; r = snap(P.r[i] + t * (P.r[j] - P.r[i])); z = snap(P.z[i] + t * (P.z[j] - P.z[i])); break; } default: r = snap(c.bulk(max(0.0, lo - 0.5 * w), hi + 0.5 * w)); z = snap(c.bulk(zl - 0.5 * h, zh + 0.5 * h)); } };
    any(q[0], q[1]); any(q[2], q[3]); if (c.chance(30)) { size_t i = c.draw(n), j = (i + 1) % n; double f = exact ? (double)c.range(1, 3) : c.bulk(0.1, 2); if (c.coin()) f = -f; double r2 = q[0] + f * (P.r[j] - P.r[i]), z2 = q[1] + f * (P.z[j] - P.z[i]); if (r2 >= 0) { q[2] = r2; q[3] = z2; } } // parallel to a wall segment
    if (c.chance(5)) { q[2] = q[0]; q[3] = q[1]; }
}
// geometries of any size: scaling by a power of two is exact
static double genscale(Ctx& c) { if (!c.chance(20)) return 1; c.label("scaled geometry"); double S = ldexp(1.0, (int)c.range(-30, 30)); c.note << "(all lengths scaled by " << str(S) << ") "; return S; }
static vector<double> scaled(vector<double> v, double S) { for (auto& x : v) x *= S; return v; }
FACET("P19", poloidal_exact, 20000, "a path with both ends off the wall, or a path parallel to a wall segment") {
    double Ra = (double)c.range(8, 60) / 8, Za = (double)c.range(-8, 8) / 8; Poly P = genpoly(c, Ra, Za, true); if (!reaches(P, Za)) c.discard(); double S = genscale(c); TF f(S * Ra, S * Za); vector<double> pr = scaled(P.r, S), pz = scaled(P.z, S); f.SetDomain(pr.data(), pz.data(), (unsigned)pr.size()); size_t n = P.r.size(); c.note << "axis " << str(Ra) << "," << str(Za) << " wall r=" << strv(P.r) << " z=" << strv(P.z) << " ";
    int m = (int)c.range(1, 5); for (int k = 0; k < m; k++) { double q[4]; genpath(c, P, Ra, Za, q, true); bool one = c.chance(25); if (one) { q[0] = Ra; q[1] = Za; } double a[3], b[3]; toxyz(c, q[0], a, a + 1, true); a[2] = q[1]; toxyz(c, q[2], b, b + 1, true); b[2] = q[3]; for (int i = 0; i < 3; i++) { a[i] *= S; b[i] *= S; } IP A = ip(q[0], q[1]), B = ip(q[2], q[3]); bool want = false, par = false, touch = false;
        for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; IP U = ip(P.r[i], P.z[i]), V = ip(P.r[j], P.z[j]); want |= meets(U, V, A, B); touch |= onseg(U, V, A) || onseg(U, V, B); par |= (i128)(V.x - U.x) * (B.y - A.y) == (i128)(V.y - U.y) * (B.x - A.x); }
        c.note << "path " << str(q[0]) << "," << str(q[1]) << "->" << str(q[2]) << "," << str(q[3]) << " "; bool got = one ? (c.coin() ? f.CrossesDomain(b) : f.CrossesDomain(b[0], b[1], b[2])) : c.coin() ? f.CrossesDomain(a, b) : f.CrossesDomain(a[0], a[1], a[2], b[0], b[1], b[2]);
        c.require(got == want, string("path ") + (want ? "meets" : "does not meet") + " the wall but is reported " + (got ? "to cross it" : "not to cross it")); c.nontrivial(par || !touch); c.label(want ? "crossing" : "free"); if (par) c.label("parallel"); if (touch) c.label("touching"); }
}
// -1 unclear, 0 no, 1 yes: does the poloidal path q meet the wall?
static int polmeet(const Poly& P, const double *q) {
    bool want = false, unclear = false; size_t n = P.r.size();
    for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; if (P.r[i] == P.r[j] && P.z[i] == P.z[j]) continue; ld ax = P.r[i], ay = P.z[i], bx = P.r[j], by = P.z[j], e = 1e-12; auto cr = [](ld ax, ld ay, ld bx, ld by, ld qx, ld qy) { return (bx-ax)*(qy-ay) - (by-ay)*(qx-ax); }; ld c1 = cr(ax,ay,bx,by,q[0],q[1]), c2 = cr(ax,ay,bx,by,q[2],q[3]), c3 = cr(q[0],q[1],q[2],q[3],ax,ay), c4 = cr(q[0],q[1],q[2],q[3],bx,by);
        auto S = [&](ld u, ld v) { return u > e && v > e ? 1 : u < -e && v < -e ? 1 : (u > e && v < -e) || (u < -e && v > e) ? -1 : 0; }; int s1 = S(c1, c2), s2 = S(c3, c4); if (s1 > 0 || s2 > 0) continue; if (s1 < 0 && s2 < 0) want = true; else { if (max(q[0],q[2]) < min(ax,bx) - e || min(q[0],q[2]) > max(ax,bx) + e || max(q[1],q[3]) < min(ay,by) - e || min(q[1],q[3]) > max(ay,by) + e) continue; unclear = true; } }
    return want ? 1 : unclear ? -1 : 0;
}
FACET("P19", poloidal_real, 10000, "path whose relation to the wall is clear") {
    double Ra = c.bulk(1, 8), Za = c.bulk(-1, 1); Poly P = genpoly(c, Ra, Za, false); if (!reaches(P, Za)) c.discard(); double S = genscale(c); TF f(S * Ra, S * Za); vector<double> pr = scaled(P.r, S), pz = scaled(P.z, S); f.SetDomain(pr.data(), pz.data(), (unsigned)pr.size()); c.note << "axis " << str(Ra) << "," << str(Za) << " wall r=" << strv(P.r) << " z=" << strv(P.z) << " ";
    for (int k = 0; k < 4; k++) { double q[4]; genpath(c, P, Ra, Za, q, false); if (c.chance(25)) { size_t i = c.draw(P.r.size()), j = (i + 1) % P.r.size(); double u = c.bulk(0.05, 0.95), L = c.logreal(1e-8, 0.1), m = c.bulk(-0.5, 1.5), an = c.bulk(-4, 4), R = P.r[i] + u * (P.r[j] - P.r[i]), z = P.z[i] + u * (P.z[j] - P.z[i]); q[0] = fabs(R - m * L * cos(an)); q[1] = z - m * L * sin(an); q[2] = fabs(R + (1 - m) * L * cos(an)); q[3] = z + (1 - m) * L * sin(an); c.label("short path"); } double x1, y1, x2, y2; toxyz(c, q[0], &x1, &y1, false); toxyz(c, q[2], &x2, &y2, false); int want = polmeet(P, q);
        if (want < 0) continue; c.note << "path " << str(q[0]) << "," << str(q[1]) << "->" << str(q[2]) << "," << str(q[3]) << " "; bool got = f.CrossesDomain(S * x1, S * y1, S * q[1], S * x2, S * y2, S * q[3]); c.require(got == (want == 1), string("path ") + (want ? "meets" : "does not meet") + " the wall but is reported " + (got ? "to cross it" : "not to cross it")); c.nontrivial(); }
}
// -1 unclear, 0 no, 1 yes: does the segment p->q meet the surface of revolution of the tile (r0,z0)-(r1,z1)?
static int tile(const ld *p, const ld *q, ld r0, ld z0, ld r1, ld z1) {
    const ld e = 1e-9; ld dz = q[2] - p[2], ta = 0, tb = 1, za = min(z0, z1), zb = max(z0, z1); if (max(p[2], q[2]) < za - e || min(p[2], q[2]) > zb + e) return 0;
    if (zb - za < e && zb > za) return -1; if (za == zb) { if (r0 == r1) return -1; if (fabsl(dz) < e) return -1; ld t = (za - p[2]) / dz; if (t < -e || t > 1 + e) return 0; ld R = hypotl(p[0] + t * (q[0]-p[0]), p[1] + t * (q[1]-p[1])), lo = min(r0, r1), hi = max(r0, r1); if (R < lo - e || R > hi + e) return 0; int ex; bool at = (t == 0 || t == 1) && frexp((double)fabsl(dz), &ex) == 0.5; if (((t > e && t < 1 - e) || at) && R > lo + e && R < hi - e) return 1; return -1; }
    bool edge = false; if (fabsl(dz) < e) { if (fabsl(dz) > 0 && (p[2] < za + e || p[2] > zb - e)) return -1; if (p[2] < za + e || p[2] > zb - e) edge = true; } else { ld u = (za - p[2]) / dz, v = (zb - p[2]) / dz; if (u > v) swap(u, v); ta = max(ta, u); tb = min(tb, v); if (ta > tb + e) return 0; if (tb - ta < 1e-7) return -1; }
    auto g = [&](ld t) { ld X = p[0] + t * (q[0]-p[0]), Y = p[1] + t * (q[1]-p[1]), z = p[2] + t * dz, R = r0 + (r1 - r0) * (z - z0) / (z1 - z0); return X * X + Y * Y - R * R; };
    ld g0 = g(ta), g1 = g(tb), gm = g((ta + tb) / 2), A = 2 * (g0 + g1 - 2 * gm), Bq = g1 - g0 - A, mn = min(g0, g1), mx = max(g0, g1); if (A != 0) { ld s = -Bq / (2 * A); if (s > 0 && s < 1) { ld v = g0 + Bq * s + A * s * s; mn = min(mn, v); mx = max(mx, v); } }
    const ld G = 1e-8; if (mn > G || mx < -G) { return 0; } if (mn < -G && mx > G) return edge ? -1 : 1; return -1;
}
FACET("P19", sight_line, 25000, "a sight line whose relation to the wall is clear and that overlaps the height range of the wall") {
    bool ex = c.coin(); double Ra = ex ? (double)c.range(8, 40) / 8 : c.bulk(1, 6), Za = ex ? (double)c.range(-8, 8) / 8 : c.bulk(-1, 1); Poly P = genpoly(c, Ra, Za, ex); if (!reaches(P, Za)) c.discard(); double S = genscale(c); TF f(S * Ra, S * Za); vector<double> pr = scaled(P.r, S), pz = scaled(P.z, S); f.SetDomain(pr.data(), pz.data(), (unsigned)pr.size()); size_t n = P.r.size(); c.note << "axis " << str(Ra) << "," << str(Za) << " wall r=" << strv(P.r) << " z=" << strv(P.z) << " "; auto snap = [&](double v) { return ex ? round(v * 8) / 8 : v; };
    for (int k = 0; k < 4; k++) { double a[3], b[3]; auto any = [&](double *p) { double R = Ra * c.bulk(0, 2.2), an = c.pickl<double>({0, M_PI, M_PI/2, c.bulk(-4, 4), c.bulk(-4, 4)}), z = Za + Ra * c.bulk(-1.2, 1.2); if (c.chance(25)) { R = Ra; z = Za; } p[0] = snap(R * cos(an)); p[1] = snap(R * sin(an)); p[2] = snap(z); }; any(a); any(b); int sp = (int)c.draw(9), hit = -1;
        if (sp == 0) { b[0] = a[0]; b[1] = a[1]; } else if (sp == 1) b[2] = a[2]; else if (sp == 2) { a[1] = b[1] = 0; size_t i = c.draw(n), j = (i + 1) % n; double u = ex ? (double)c.range(1, 2) : c.bulk(0.1, 2); if (c.coin()) u = -u; b[0] = a[0] + u * (P.r[j] - P.r[i]); b[2] = a[2] + u * (P.z[j] - P.z[i]); } else if (sp == 3) { b[0] = -a[0]; b[1] = -a[1]; } else if (sp == 4) { a[0] = snap(Ra * 1.8); a[1] = 0; b[0] = snap(Ra * c.bulk(0.5, 1.2)); b[1] = snap(Ra * c.bulk(-0.6, 0.6)); }
        else if (sp == 5) { size_t i = c.draw(n), j = (i + 1) % n; double u = c.bulk(0.05, 0.95), an = c.bulk(-4, 4), L = Ra * c.logreal(1e-6, 0.1), R = P.r[i] + u * (P.r[j] - P.r[i]), z = P.z[i] + u * (P.z[j] - P.z[i]), d[3] = {c.bulk(-1, 1), c.bulk(-1, 1), c.bulk(-1, 1)}, m = c.bulk(-0.5, 1.5); double q[3] = {R * cos(an), R * sin(an), z}; for (int s = 0; s < 3; s++) { a[s] = q[s] - m * L * d[s]; b[s] = q[s] + (1 - m) * L * d[s]; } } // short segment close to the wall
        else if (sp == 6 && ex) { size_t i = c.draw(n), j = (i + 1) % n; if (P.z[i] == P.z[j]) { double u = c.bulk(0.1, 0.9), an = c.bulk(-4, 4), R = P.r[i] + u * (P.r[j] - P.r[i]); b[0] = R * cos(an); b[1] = R * sin(an); b[2] = P.z[i]; a[2] = P.z[i] + (c.coin() ? 1 : -1) * c.pickl<double>({0.25, 0.5, 1, 2}); } } // ends on a horizontal tile
        else if (sp == 8 && ex) { size_t i = c.draw(n), j = (i + 1) % n; for (size_t s = 0; s < n && P.r[i] != P.r[j]; s++) { i = (i + 1) % n; j = (i + 1) % n; } double z = round((P.z[i] + (double)c.range(1, 3) / 4 * (P.z[j] - P.z[i])) * 8) / 8; if (P.r[i] == P.r[j] && P.r[i] > 1 && z > min(P.z[i], P.z[j]) && z < max(P.z[i], P.z[j])) { hit = (int)i; double s = c.coin() ? 1 : -1, e = P.r[i] + (c.coin() ? 1 : -1) * c.pickl<double>({0.125, 0.25, 0.5, 1}); if (c.chance(30)) { double L = 2; while (L <= P.r[i]) L *= 2; e = P.r[i] - L; } bool y = c.coin(); b[y] = s * P.r[i]; b[!y] = 0; b[2] = z; a[y] = s * e; a[!y] = 0; a[2] = z + c.pickl<double>({0, 0, 0.25, -0.5}); } } // ends on a vertical tile
        bool outer = c.chance(60); ld A[3] = {a[0], a[1], a[2]}, B[3] = {b[0], b[1], b[2]}; int want = 0; bool unclear = false, over = false; for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; over |= !(max(a[2], b[2]) < min(P.z[i], P.z[j]) || min(a[2], b[2]) > max(P.z[i], P.z[j])); if (!outer && P.r[i] > Ra && P.r[j] > Ra) continue; if (P.r[i] == P.r[j] && P.z[i] == P.z[j]) continue; int t = (int)i == hit ? 1 : tile(A, B, P.r[i], P.z[i], P.r[j], P.z[j]); if (t > 0) want = 1; if (t < 0) unclear = true; }
        if (!want && unclear) continue; c.note << "line (" << str(a[0]) << "," << str(a[1]) << "," << str(a[2]) << ")->(" << str(b[0]) << "," << str(b[1]) << "," << str(b[2]) << ")" << (outer ? " " : " no outer wall "); for (int i = 0; i < 3; i++) { a[i] *= S; b[i] *= S; } bool swp = c.coin(); double *p = swp ? b : a, *q = swp ? a : b; bool got = outer && c.coin() ? (c.coin() ? f.IntersectsDomain3D(p, q) : f.IntersectsDomain3D(p[0], p[1], p[2], q[0], q[1], q[2])) : c.coin() ? f.IntersectsDomain3D(p, q, outer) : f.IntersectsDomain3D(p[0], p[1], p[2], q[0], q[1], q[2], outer);
        c.require(got == (want == 1), string("sight line ") + (want ? "meets" : "does not meet") + " the wall but is reported " + (got ? "to meet it" : "not to meet it")); c.nontrivial(over); c.label(want ? "blocked" : "free"); if (!outer) c.label("no outer wall"); if (hit >= 0) c.label("ends on a vertical tile"); if (sp < 7) c.label("special" + to_string(sp)); }
}
FACET("P19", extents, 8000, "at least two domains with queries in between, or a domain that does not reach the magnetic axis") {
    bool ex = c.coin(); double Ra = ex ? (double)c.range(8, 40) / 8 : c.bulk(1, 6), Za = ex ? (double)c.range(-8, 8) / 8 : c.bulk(-1, 1); TF f(Ra, Za); vector<unique_ptr<Poly>> keep; int nd = (int)c.range(1, 3); c.note << "axis " << str(Ra) << "," << str(Za) << " ";
    for (int d = 0; d < nd; d++) { keep.emplace_back(new Poly(genpoly(c, Ra, Za, ex, Ra * c.bulk(0.2, 0.9)))); Poly& P = *keep.back(); if (c.chance(8)) { for (auto& z : P.z) z += 4 * Ra; } c.note << "wall r=" << strv(P.r) << " z=" << strv(P.z) << " "; size_t n = P.r.size(); ld mn, mx; bool ok = polyext(P.r, P.z, Za, mn, mx);
        if (!ok) { c.require(refused(c, [&]{ f.SetDomain(P.r.data(), P.z.data(), (unsigned)n); }, "domain that does not reach the magnetic axis"), "domain that does not reach the magnetic axis was accepted"); c.nontrivial(); c.label("refused"); return; }
        f.SetDomain(P.r.data(), P.z.data(), (unsigned)n); int m = (int)c.range(1, 6); double sc = 1e-12 * (Ra + fabs(Za) + 1); if (d) c.nontrivial();
        for (int k = 0; k < m; k++) switch (c.draw(5)) {
            case 0: { double a, b, u, v; f.GetDomainBounds(a, b, u, v); double r0 = Ra, r1 = Ra, z0 = Za, z1 = Za; r0 = *min_element(P.r.begin(), P.r.end()); r1 = *max_element(P.r.begin(), P.r.end()); z0 = *min_element(P.z.begin(), P.z.end()); z1 = *max_element(P.z.begin(), P.z.end()); if (r0 > Ra || r1 < Ra || z0 > Za || z1 < Za) break; c.note << "bounds "; c.require(a == r0 && b == r1 && u == z0 && v == z1, "domain bounds are [" + str(a) + "," + str(b) + "]x[" + str(u) + "," + str(v) + "], the wall spans [" + str(r0) + "," + str(r1) + "]x[" + str(z0) + "," + str(z1) + "]"); break; }
            case 1: c.note << "maxradius "; c.close(c.coin() ? f.GetMaxRadius() : f.FindMaxRadius(), (double)mx, 1e-12, sc * 100, "maximum radius"); break;
            case 2: c.note << "minradius "; c.close(c.coin() ? f.GetMinRadius() : f.FindMinRadius(), (double)mn, 1e-12, sc * 100, "minimum radius"); break;
            case 3: c.require(f.GetRDomain() == P.r.data() && f.GetZDomain() == P.z.data() && f.GetNDomain() == n, "domain differs from the one set last"); break;
            default: { double R = c.coin() ? P.r[c.draw(n)] : Ra * c.bulk(0.05, 2.5), lo, hi; ld wl, wh, l2, h2; bool in = polyext(P.z, P.r, R, wl, wh), near = false; for (ld d : {-1e-9L, 1e-9L}) { bool i2 = polyext(P.z, P.r, R + d, l2, h2); if (!ex && (i2 != in || (in && (fabsl(l2 - wl) > 1e-6 || fabsl(h2 - wh) > 1e-6)))) near = true; } bool isv = false; for (double v : P.r) isv |= v == R; if (near && !isv) break; c.note << "heights at " << str(R) << " "; bool rf = refused(c, [&]{ if (k % 2) f.FindMaxZ(R, lo, hi); else f.FindMaxZ((unsigned)n, P.r.data(), P.z.data(), R, lo, hi); }, "FindMaxZ"); c.require(rf == !in, in ? "heights at a radius inside of the wall were refused" : "heights at a radius the wall does not reach were accepted"); if (in) { c.close(lo, (double)wl, 1e-9, 1e-9 * (Ra + 1), "minimum height"); c.close(hi, (double)wh, 1e-9, 1e-9 * (Ra + 1), "maximum height"); } } } }
}

// ---------------------------------------------------------------- P17
struct SV { ld v, d; };
static SV spl(const vector<double>& x, const vector<ld>& y, ld q) { // natural cubic spline: value and derivative
    size_t n = x.size(); vector<ld> M(n, 0), cp(n, 0), dp(n, 0);
    for (size_t i = 1; i + 1 < n; i++) { ld h0 = (ld)x[i]-x[i-1], h1 = (ld)x[i+1]-x[i], d = 6*((y[i+1]-y[i])/h1 - (y[i]-y[i-1])/h0), m = 2*(h0+h1) - h0*cp[i-1]; cp[i] = h1/m; dp[i] = (d - h0*dp[i-1])/m; }
    for (size_t i = n-2; i >= 1; i--) M[i] = dp[i] - cp[i]*M[i+1];
    size_t k = 0; while (k + 2 < n && q >= x[k+1]) k++;
    ld h = (ld)x[k+1]-x[k], A = (x[k+1]-q)/h, B = (q-x[k])/h;
    return {A*y[k] + B*y[k+1] + ((A*A*A-A)*M[k] + (B*B*B-B)*M[k+1])*h*h/6, (y[k+1]-y[k])/h + (-(3*A*A-1)*M[k] + (3*B*B-1)*M[k+1])*h/6};
}
struct G2 { ld v, r, z; };
static G2 surf(const vector<double>& R, const vector<double>& Z, const vector<double>& f, double r, double z) {
    vector<ld> a, b; for (size_t j = 0; j < Z.size(); j++) { vector<ld> row; for (size_t i = 0; i < R.size(); i++) row.push_back(f[j*R.size()+i]); SV s = spl(R, row, r); a.push_back(s.v); b.push_back(s.d); } SV A = spl(Z, a, z), B = spl(Z, b, z); return {A.v, B.v, A.d};
}
struct NM { vector<double> R, Z, Br, Bp, Bz, Psi; Poly wall, sep; double ra, za; string name, desc; ld mx(const vector<double>& v) const { ld m = 0; for (double x : v) m = max(m, fabsl((ld)x)); return m; } };
static double *dup(const vector<double>& v) { if (v.empty()) return nullptr; double *p = new double[v.size()]; copy(v.begin(), v.end(), p); return p; }
static NM gennm(Ctx& c, int maxn = 8) {
    NM m; int nr = (int)c.range(4, maxn), nz = (int)c.range(4, maxn); if (c.chance(2)) nr = (int)c.range(20, 50); if (c.chance(2)) nz = (int)c.range(20, 50); m.R = grid(c, nr, c.logreal(0.1, 3), c.bulk(4, 8)); double zc = c.bulk(-1, 1), zh = c.bulk(0.5, 3); m.Z = grid(c, nz, zc - zh, zc + zh); size_t N = nr * nz; double b = c.logreal(0.01, 100), fr = 1, fp = 1, fz = 1; bool ps = c.chance(70); if (c.chance(40)) { auto fac = [&]() { return c.chance(20) ? 0 : (c.coin() ? 1 : -1) * c.logreal(0.01, 100); }; fr = fac(); fp = fac(); fz = fac(); }
    for (size_t i = 0; i < N; i++) { m.Br.push_back(fr * b * c.bulk(-1, 1)); m.Bp.push_back(fp * b * c.bulk(1, 3)); m.Bz.push_back(fz * b * c.bulk(-1, 1)); if (ps) m.Psi.push_back(b * c.bulk(-2, 2)); } if (c.chance(15)) { auto zero = [&](vector<double>& v) { if (!v.empty() && c.coin()) v[c.coin() ? 0 : c.draw(v.size())] = 0; }; zero(m.Br); zero(m.Bp); zero(m.Bz); zero(m.Psi); } m.ra = c.bulk(m.R[0] + 0.3 * (m.R[nr-1] - m.R[0]), m.R[nr-1] - 0.3 * (m.R[nr-1] - m.R[0])); m.za = zc + zh * c.bulk(-0.3, 0.3);
    int k = (int)c.draw(3); auto gp = [&]() { for (;;) { Poly P = genpoly(c, m.ra, m.za, false, min(m.ra * 0.9, zh)); if (P.r.size() > 2 && reaches(P, m.za)) return P; } }; if (k != 1) m.wall = gp(); if (k != 0) m.sep = gp(); if (k == 2 && c.chance(8)) { double d = c.bulk(-0.3, 0.3), e = zh * c.bulk(0.1, 0.5); m.sep.r = {m.ra - d, m.ra + d}; m.sep.z = {m.za - e, m.za + e}; } m.name = c.word(1, c.chance(10) ? 300 : 15, "abcXYZ 09_"); m.desc = c.word(1, c.chance(15) ? 600 : 30, "abcXYZ 09_-,."); return m;
}
static void wr2(SFile *sf, const string& n, const vector<double>& v, sfilesize_t r, sfilesize_t k, bool tr) { vector<double> w(v.size()); if (tr) { for (sfilesize_t i = 0; i < r; i++) for (sfilesize_t j = 0; j < k; j++) w[j*r+i] = v[i*k+j]; swap(r, k); } else w = v; vector<double*> rows; for (sfilesize_t i = 0; i < r; i++) rows.push_back(w.data() + i * k); sf->WriteArray(n, rows.data(), r, k); }
static void wrpoly(SFile *sf, const string& n, const Poly& P, bool tr) { vector<double> v = P.r; v.insert(v.end(), P.z.begin(), P.z.end()); wr2(sf, n, v, 2, P.r.size(), tr); }
static void wrlist(Ctx& c, SFile *sf, const string& n, const vector<double>& v) { sf->WriteList(n, v.data(), v.size()); (void)c; }
static void writenm(Ctx& c, const string& fn, const NM& m, int bad) {
    unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); size_t nr = m.R.size(), nz = m.Z.size(); NM q = m; bool trp = nr != nz && c.coin();
    if (bad != 0) sf->WriteString("name", m.name); if (bad != 1) sf->WriteString("desc", m.desc); vector<double> ax = {m.ra, m.za}; if (bad == 2) ax.push_back(1); if (bad != 3) wrlist(c, sf.get(), "maxis", ax);
    if (bad == 4) { size_t k = 1 + c.draw(nr - 1); q.R[k] = q.R[k-1] - (c.coin() ? 0 : 0.1); } if (bad == 5) { size_t k = 1 + c.draw(nz - 1); q.Z[k] = q.Z[k-1] - (c.coin() ? 0 : 0.1); } if (bad != 6) wrlist(c, sf.get(), "r", q.R); if (bad != 7) wrlist(c, sf.get(), "z", q.Z);
    const char *nm[4] = {"Br", "Bphi", "Bz", "Psi"}; const vector<double> *dat[4] = {&m.Br, &m.Bp, &m.Bz, &m.Psi}; int victim = m.Psi.empty() ? (int)c.draw(3) : (int)c.draw(4);
    for (int i = 0; i < 4; i++) { if (dat[i]->empty()) continue; if (bad == 8 && i == victim % 3) continue; vector<double> v = *dat[i]; size_t a = nz, b = nr; if (bad == 9 && i == victim) { if (c.coin()) { a++; v.resize(a * b, 1); } else { a--; v.resize(a * b); } if (a == nr && b == nz) { a = nz; b = nr + 1; v.resize(a * b, 1); } } if (bad == 10 && i == victim) { b++; v.resize(a * b, 1); if (a == nr && b == nz) { b = nr + 2; v.resize(a * b, 1); } } wr2(sf.get(), nm[i], v, a, b, trp); }
    bool ver = c.coin() || bad == 11 || bad == 12; if (ver) for (int i = 0; i < 3; i++) { if (bad < 11 && c.coin()) continue; size_t len = c.coin() ? nr : 1 + c.draw(nr); vector<double> v(dat[i]->begin(), dat[i]->begin() + len); if (bad == 11 && i == victim % 3) { size_t k = c.draw(len); v[k] = c.coin() ? v[k] * (1 + 1e-9) + 1e-12 : -v[k] + 1; } if (bad == 12 && i == victim % 3) { v.assign(dat[i]->begin(), dat[i]->begin() + nr); v.push_back((*dat[i])[nr]); } wrlist(c, sf.get(), string("ver") + nm[i], v); }
    auto badp = [&](const char *n, const Poly& P) { size_t k = P.r.size(); vector<double> v; int cnt = c.coin() ? 3 : 1; for (int i = 0; i < cnt; i++) v.insert(v.end(), P.r.begin(), P.r.end()); size_t rows = v.size() / k; wr2(sf.get(), n, v, rows, k, c.coin()); };
    if (bad != 13) { if (!m.wall.r.empty()) { if (bad == 14) badp("wall", m.wall); else wrpoly(sf.get(), "wall", m.wall, c.coin() && m.wall.r.size() != 2); } if (!m.sep.r.empty()) { if (bad == 14) badp("separatrix", m.sep); else wrpoly(sf.get(), "separatrix", m.sep, c.coin() && m.sep.r.size() != 2); } } sf->Close();
}
static void ngeom(Ctx& c, NF *f, const NM& m, const string& w) {
    const Poly& dom = m.wall.r.empty() ? m.sep : m.wall; c.require(f->GetName() == m.name && f->GetDescription() == m.desc, w + ": name or description is " + str(f->GetName()) + "/" + str(f->GetDescription()) + ", expected " + str(m.name) + "/" + str(m.desc)); c.require(f->GetMagneticAxisR() == m.ra && f->GetMagneticAxisZ() == m.za, w + ": magnetic axis differs"); c.require(f->HasMagneticFlux() == !m.Psi.empty(), w + ": flux availability differs");
    c.require(f->GetNDomain() == dom.r.size(), w + ": domain has " + to_string(f->GetNDomain()) + " points, expected " + to_string(dom.r.size())); for (size_t i = 0; i < dom.r.size(); i++) c.require(f->GetRDomain()[i] == dom.r[i] && f->GetZDomain()[i] == dom.z[i], w + ": domain point " + to_string(i) + " differs");
    c.require(f->GetNSeparatrix() == m.sep.r.size(), w + ": separatrix has " + to_string(f->GetNSeparatrix()) + " points, expected " + to_string(m.sep.r.size())); for (size_t i = 0; i < m.sep.r.size(); i++) c.require(f->GetRSeparatrix()[i] == m.sep.r[i] && f->GetZSeparatrix()[i] == m.sep.z[i], w + ": separatrix point " + to_string(i) + " differs");
    const Poly& ext = m.sep.r.empty() ? m.wall : m.sep; ld a, b; polyext(ext.r, ext.z, m.za, a, b); double s = 1e-10 * m.ra; c.close(f->GetMaxRadius(), (double)b, 0, s, w + ": maximum radius"); c.close(f->GetMinRadius(), (double)a, 0, s, w + ": minimum radius"); c.close(f->FindMaxRadius(), (double)b, 0, s, w + ": maximum radius"); c.close(f->FindMinRadius(), (double)a, 0, s, w + ": minimum radius");
}
static double minstep(const vector<double>& g) { double m = 1e300; for (size_t i = 1; i < g.size(); i++) m = min(m, g[i] - g[i-1]); return m; }
static void ncheck(Ctx& c, NF *f, const NM& m, const string& w, bool& inside, bool& outside, double tolf = 1) {
    size_t nr = m.R.size(), nz = m.Z.size(); auto pt = [&](const vector<double>& g) { size_t n = g.size(); switch (c.draw(6)) { case 0: case 1: return g[c.draw(n)]; case 2: { double d = (g[n-1]-g[0]) * c.logreal(1e-6, 2); return c.coin() ? g[0] - d : g[n-1] + d; } default: return c.bulk(g[0], g[n-1]); } };
    double r = pt(m.R), z = pt(m.Z), ph = c.pickl<double>({0, M_PI / 2, M_PI, -M_PI / 2, c.bulk(-4, 4), c.bulk(-4, 4), c.bulk(-4, 4)}), x, y; if (r < 0) r = -r * 0.5; if (r < 1e-3) r = 1e-3; x = r * cos(ph); y = r * sin(ph); if (ph == 0) { x = r; y = 0; } if (c.chance(2)) x = y = r = 0; double R = hypot(x, y), rc = min(max(R, m.R[0]), m.R[nr-1]), zc = min(max(z, m.Z[0]), m.Z[nz-1]); bool in = R >= m.R[0] && R <= m.R[nr-1] && z >= m.Z[0] && z <= m.Z[nz-1]; (in ? inside : outside) = true; string at = w + " at R=" + str(R) + " phi=" + str(ph) + " z=" + str(z); c.note << "eval(" << str(x) << "," << str(y) << "," << str(z) << ")";
    G2 br = surf(m.R, m.Z, m.Br, rc, zc), bp = surf(m.R, m.Z, m.Bp, rc, zc), bz = surf(m.R, m.Z, m.Bz, rc, zc); ld C = R == 0 ? 1 : x / (ld)R, S = R == 0 ? 0 : y / (ld)R, B[3] = {br.v * C - bp.v * S, br.v * S + bp.v * C, bz.v}, bm = max(max(m.mx(m.Br), m.mx(m.Bp)), max(m.mx(m.Bz), (ld)1e-12)), Babs = sqrtl(B[0]*B[0] + B[1]*B[1] + B[2]*B[2]); double h = min(minstep(m.R), minstep(m.Z)); MF *b = f; double xyz[3] = {x, y, z}; Vector<3> V; V[0] = x; V[1] = y; V[2] = z; bm = max(bm, Babs);
    int op = (int)c.draw(4); if (op == 0 || op == 3) { c.note << "B "; slibreal_t *v = c.coin() ? f->Eval(x, y, z) : c.coin() ? b->Eval(xyz) : b->Eval(V); allclose(c, v, B, 3, 1e-9 * tolf, (double)bm, "field of " + at); }
    if (op == 1 || op == 3) { c.note << "D "; magnetic_field_data& d = c.coin() ? f->EvalDerivatives(x, y, z) : c.coin() ? b->EvalDerivatives(xyz) : b->EvalDerivatives(V); allclose(c, d.B, B, 3, 1e-9 * tolf, (double)bm, "field from derivatives of " + at); c.close(d.Babs, (double)Babs, 1e-9 * tolf, 1e-9 * tolf * (double)bm, "field strength of " + at);
        bool edge = fabs(R - m.R[0]) < 1e-9 || fabs(R - m.R[nr-1]) < 1e-9 || fabs(z - m.Z[0]) < 1e-9 || fabs(z - m.Z[nz-1]) < 1e-9;
        if (in && !edge) { ld iR = 1 / (ld)R, J[3][3]; J[0][0] = C*C*br.r + br.v*S*S*iR - S*C*bp.r + bp.v*S*C*iR; J[0][1] = S*C*br.r - br.v*S*C*iR - S*S*bp.r - bp.v*C*C*iR; J[0][2] = C*br.z - S*bp.z; J[1][0] = S*C*br.r - br.v*S*C*iR + C*C*bp.r + bp.v*S*S*iR; J[1][1] = S*S*br.r + br.v*C*C*iR + S*C*bp.r - bp.v*S*C*iR; J[1][2] = S*br.z + C*bp.z; J[2][0] = C*bz.r; J[2][1] = S*bz.r; J[2][2] = bz.z; double js = (double)(bm * (1 / h + iR));
            for (int i = 0; i < 3; i++) allclose(c, d.J[i], J[i], 3, 1e-8 * tolf, js, "Jacobian row " + to_string(i) + " of " + at); ld cu[3] = {J[2][1]-J[1][2], J[0][2]-J[2][0], J[1][0]-J[0][1]}, gB[3]; allclose(c, d.curlB, cu, 3, 1e-8 * tolf, js, "curl of " + at); if (Babs > 1e-3 * bm) { for (int i = 0; i < 3; i++) gB[i] = (B[0]*J[0][i] + B[1]*J[1][i] + B[2]*J[2][i]) / Babs; allclose(c, d.gradB, gB, 3, 1e-8 * tolf, js, "gradient of the field strength of " + at); } } }
    if (op == 2 || op == 3) { c.note << "F "; if (m.Psi.empty()) { c.require(refused(c, [&]{ if (c.coin()) b->EvalFlux(xyz); else f->EvalFluxDerivatives(x, y, z); }, "flux of " + at), "flux of a field without flux was evaluated"); } else { G2 p = surf(m.R, m.Z, m.Psi, rc, zc); ld pm = max(m.mx(m.Psi), fabsl(p.v)); c.close(c.coin() ? f->EvalFlux(x, y, z) : c.coin() ? b->EvalFlux(xyz) : b->EvalFlux(V), (double)p.v, 1e-9 * tolf, 1e-9 * tolf * (double)pm, "flux of " + at); flux_diff *d = c.coin() ? f->EvalFluxDerivatives(x, y, z) : b->EvalFluxDerivatives(xyz); c.close(d->psi, (double)p.v, 1e-9 * tolf, 1e-9 * tolf * (double)pm, "flux from derivatives of " + at); if (in) { c.close(d->dpsi_dR, (double)p.r, 0, 1e-8 * tolf * (double)pm / h, "radial flux derivative of " + at); c.close(d->dpsi_dZ, (double)p.z, 0, 1e-8 * tolf * (double)pm / h, "vertical flux derivative of " + at); } } }
    c.note << "; ";
}
static NF *mkraw(const NM& m, bool init) {
    auto *f = init ? new NF() : nullptr; double *R = dup(m.R), *Z = dup(m.Z), *a = dup(m.Br), *b = dup(m.Bp), *d = dup(m.Bz), *p = dup(m.Psi), *rs = dup(m.sep.r), *zs = dup(m.sep.z), *rw = dup(m.wall.r), *zw = dup(m.wall.z);
    if (init) { f->Init(m.name, m.desc, R, Z, (unsigned)m.R.size(), (unsigned)m.Z.size(), a, b, d, p, m.ra, m.za, rs, zs, (unsigned)m.sep.r.size(), rw, zw, (unsigned)m.wall.r.size()); return f; }
    return new NF(m.name, m.desc, R, Z, (unsigned)m.R.size(), (unsigned)m.Z.size(), a, b, d, p, m.ra, m.za, rs, zs, (unsigned)m.sep.r.size(), rw, zw, (unsigned)m.wall.r.size());
}
static string nmstr(const NM& m) { ostringstream o; o.precision(17); o << "R=" << strv(m.R) << " Z=" << strv(m.Z) << (m.Psi.empty() ? " noflux" : " flux") << " axis " << m.ra << "," << m.za << " wall" << m.wall.r.size() << " sep" << m.sep.r.size() << "; "; return o.str(); }
FACET("P17", numeric_history, 2500, "evaluations inside and outside of the grid and a clone, a save/load or a destruction in the history") {
    NM m = gennm(c); c.note << nmstr(m); struct O { NF *f; string w; }; vector<O> o; bool in = false, out = false, hist = false; int how = (int)c.draw(5); NF *f; string src;
    if (how == 0) { f = mkraw(m, false); src = "constructed field"; } else if (how == 1) { f = mkraw(m, true); src = "initialised field"; } else { string fn = c.tmp(c.pickl<string>({"mf.h5", "mf.mat", "mf.hdf5", "mf.sdt"})); writenm(c, fn, m, -1); c.note << "file " << fn.substr(fn.rfind('.')) << "; "; c.label("file" + fn.substr(fn.rfind('.'))); src = "loaded field"; if (how == 2) f = new NF(fn); else if (how == 3) f = new NF(fn, SFile::TypeOfFile(fn)); else { f = new NF(); if (c.coin()) f->Load(fn); else f->Load(fn, SFile::TypeOfFile(fn)); f->InitInterpolation(); } }
    o.push_back({f, src}); int n = (int)c.range(3, 12);
    for (int k = 0; k < n && !o.empty(); k++) { size_t i = c.draw(o.size()); switch (c.draw(12)) {
        case 0: c.note << "clone#" << i << "; "; o.push_back({o[i].f->Clone(), "clone of " + o[i].w}); hist = true; break;
        case 1: { string fn = c.tmp(c.pickl<string>({"out.h5", "out.mat", "out.hdf5", "out.sdt"})); c.note << "save#" << i << " " << fn.substr(fn.rfind('.')) << "; "; bool rf = refused(c, [&]{ if (c.coin()) o[i].f->Save(fn); else o[i].f->Save(fn, SFile::TypeOfFile(fn)); }, "save"); if (rf) { c.require(fn.substr(fn.rfind('.')) == ".sdt", "saving to " + fn.substr(fn.rfind('.')) + " was refused"); break; } o.push_back({c.coin() ? new NF(fn) : new NF(fn, SFile::TypeOfFile(fn)), "saved and loaded " + o[i].w}); hist = true; break; }
        case 2: if (o.size() > 1) { c.note << "destroy#" << i << "; "; delete o[i].f; o.erase(o.begin() + i); hist = true; } break;
        case 3: case 4: c.note << "geometry#" << i << "; "; ngeom(c, o[i].f, m, o[i].w); break;
        default: c.note << "#" << i; ncheck(c, o[i].f, m, o[i].w, in, out); } }
    for (auto& q : o) { ngeom(c, q.f, m, q.w); ncheck(c, q.f, m, q.w, in, out); } for (auto& q : o) delete q.f; c.nontrivial(in && out && hist); c.label(m.Psi.empty() ? "no flux" : "flux"); c.label(m.wall.r.empty() ? "separatrix only" : m.sep.r.empty() ? "wall only" : "wall and separatrix");
}
FACET("P19", field_domains, 2500, "a numeric or analytical field, or its clone, was queried") {
    unique_ptr<MF> own, cl; Poly dom, ext; double ra, za; if (c.chance(30)) { AP p = genap(c); string nm; own.reset(mkaf(p, c, nm)); ra = p.Rm; za = p.za; for (unsigned i = 0; i < own->GetNDomain(); i++) { dom.r.push_back(own->GetRDomain()[i]); dom.z.push_back(own->GetZDomain()[i]); } ext = dom; c.note << strap(p) << "; "; c.label("analytical"); }
    else { NM m = gennm(c); own.reset(mkraw(m, c.coin())); dom = m.wall.r.empty() ? m.sep : m.wall; ext = m.sep.r.empty() ? m.wall : m.sep; ra = m.ra; za = m.za; c.note << nmstr(m) << " domain r=" << strv(dom.r) << " z=" << strv(dom.z) << "; "; c.label(m.wall.r.empty() ? "separatrix only" : m.sep.r.empty() ? "wall only" : "wall and separatrix"); }
    MF *f = own.get(); int n = (int)c.range(2, 8); ld mn, mx; polyext(ext.r, ext.z, za, mn, mx); double s = 1e-10 * ra; auto P = &dom; c.nontrivial();
    for (int k = 0; k < n; k++) switch (c.draw(7)) {
        case 0: { double a, b, u, v; f->GetDomainBounds(a, b, u, v); double r0 = *min_element(P->r.begin(), P->r.end()), r1 = *max_element(P->r.begin(), P->r.end()), z0 = *min_element(P->z.begin(), P->z.end()), z1 = *max_element(P->z.begin(), P->z.end()); if (r0 > ra || r1 < ra || z0 > za || z1 < za) break; c.note << "bounds "; c.require(a == r0 && b == r1 && u == z0 && v == z1, "domain bounds are [" + str(a) + "," + str(b) + "]x[" + str(u) + "," + str(v) + "], the wall spans [" + str(r0) + "," + str(r1) + "]x[" + str(z0) + "," + str(z1) + "]"); break; }
        case 1: c.note << "maxradius "; c.close(c.coin() ? f->GetMaxRadius() : f->FindMaxRadius(), (double)mx, 0, s, "maximum radius"); break;
        case 2: c.note << "minradius "; c.close(c.coin() ? f->GetMinRadius() : f->FindMinRadius(), (double)mn, 0, s, "minimum radius"); break;
        case 3: { double R = c.bulk(0.2, 1.8) * ra, lo, hi; ld wl, wh, l2, h2; bool in = polyext(P->z, P->r, R, wl, wh), near = false; for (ld d : {-1e-9L, 1e-9L}) { bool i2 = polyext(P->z, P->r, R + d, l2, h2); if (i2 != in || (in && (fabsl(l2 - wl) > 1e-6 || fabsl(h2 - wh) > 1e-6))) near = true; } if (near) break; c.note << "heights at " << str(R) << " "; bool rf = refused(c, [&]{ f->FindMaxZ(R, lo, hi); }, "FindMaxZ"); c.require(rf == !in, in ? "heights at a radius inside of the wall were refused" : "heights at a radius the wall does not reach were accepted"); if (in) { c.close(lo, (double)wl, 1e-9, 1e-8 * (ra + 1), "minimum height"); c.close(hi, (double)wh, 1e-9, 1e-8 * (ra + 1), "maximum height"); } break; }
        case 4: if (!cl) { c.note << "clone "; cl.reset(f->Clone()); if (c.coin()) own.reset(); f = cl.get(); } break;
        default: { double q[4]; genpath(c, dom, ra, za, q, false); bool one = c.chance(25); if (one) { q[0] = ra; q[1] = za; } int want = polmeet(dom, q); if (want < 0) break; double a[3], b[3]; toxyz(c, q[0], a, a + 1, false); a[2] = q[1]; toxyz(c, q[2], b, b + 1, false); b[2] = q[3]; c.note << "path " << str(q[0]) << "," << str(q[1]) << "->" << str(q[2]) << "," << str(q[3]) << " "; bool got = one ? f->CrossesDomain(b) : f->CrossesDomain(a, b); c.require(got == (want == 1), string("path ") + (want ? "meets" : "does not meet") + " the wall but is reported " + (got ? "to cross it" : "not to cross it")); } }
}
// A file with one variable of another shape, type or value: loaded or refused, and whatever was loaded can be used.
template<class L> static void mangled(Ctx& c, const string& fn, L load) {
    mangle(c, fn); NF *f = nullptr; bool rf = refused(c, [&]{ f = load(); }, "mangled file"); c.label(rf ? "mangled: refused" : "mangled: loaded"); c.nontrivial(); if (rf) return; unique_ptr<NF> own(f); vector<unique_ptr<NF>> cl;
    for (int k = (int)c.range(1, 8); k > 0; k--) { double r = c.bulk(0.1, 8), z = c.bulk(-4, 4), q[3] = {r, 0, z}, a, b; c.note << "use " << r << "," << z << " "; refused(c, [&]{ switch (c.draw(7)) { case 0: f->Eval(r, 0, z); break; case 1: f->EvalDerivatives(r, 0, z); break; case 2: f->EvalFlux(r, 0, z); break; case 3: f->EvalFluxDerivatives(r, 0, z); break; case 4: f->CrossesDomain(q); break; case 5: f->FindMaxZ(r, a, b); break; default: cl.emplace_back(f->Clone()); if (c.coin()) f = cl.back().get(); } }, "use of a mangled field"); }
}
FACET("P17", bad_fields, 2500, "the file or arguments are defective in one respect") {
    NM m = gennm(c); int bad = (int)c.draw(18); if (m.sep.r.size() == 2) m.sep = m.wall; c.note << "defect " << bad << " " << nmstr(m); c.label("defect" + to_string(bad)); c.nontrivial();
    if (c.chance(30)) { string fn = c.tmp(c.pickl<string>({"mf.h5", "mf.mat", "mf.hdf5", "mf.sdt"})); writenm(c, fn, m, -1); mangled(c, fn, [&]{ return new NF(fn); }); return; }
    if (bad >= 15) { NM q = m; if (bad == 15) { size_t n = c.range(2, 3); if (c.coin()) { q.R.resize(n); } else q.Z.resize(n); q.ra = m.ra; } if (bad == 16) { q.wall = q.sep = Poly(); } if (bad == 17) { auto& g = c.coin() ? q.R : q.Z; size_t k = 1 + c.draw(g.size() - 1); g[k] = g[k-1] - (c.coin() ? 0 : 0.1); } c.require(refused(c, [&]{ mkraw(q, c.coin()); }, "defective field"), "defective field was accepted"); return; }
    string fn = c.tmp(c.pickl<string>({"mf.h5", "mf.mat", "mf.hdf5", "mf.sdt"})); writenm(c, fn, m, bad); c.require(refused(c, [&]{ if (c.coin()) { NF f(fn); } else { NF f; f.Load(fn); f.InitInterpolation(); } }, "defective file"), "defective magnetic field file was accepted");
}
FACET("P17", smooth_field, 300, "interpolated strictly between grid points of a smooth field") {
    double w1 = c.bulk(0.2, 1.2), w2 = c.bulk(0.2, 1.2), p1 = c.bulk(0, 6), b = c.logreal(0.1, 10); NM m; int n = (int)c.range(25, 45); m.R = grid(c, n, 1, 3); m.Z = grid(c, n, -1, 1); for (double z : m.Z) for (double r : m.R) { m.Br.push_back(b * sin(w1 * r + p1) * cos(w2 * z)); m.Bp.push_back(b * 2 / r); m.Bz.push_back(b * cos(w1 * r + w2 * z)); } m.ra = 2; m.za = 0; m.wall.r = {1.2, 2.8, 2.8, 1.2}; m.wall.z = {-0.8, -0.8, 0.8, 0.8}; m.name = "f"; m.desc = "d"; unique_ptr<NF> f(mkraw(m, false)); c.note << "n=" << n << " w=" << str(w1) << "," << str(w2) << " phase " << str(p1) << " b=" << str(b) << "; ";
    for (int k = 0; k < 8; k++) { double r = c.bulk(1.3, 2.7), z = c.bulk(-0.7, 0.7), a = c.bulk(-4, 4); slibreal_t *v = f->Eval(r * cos(a), r * sin(a), z); double br = v[0] * cos(a) + v[1] * sin(a), bp = -v[0] * sin(a) + v[1] * cos(a); string at = " at R=" + str(r) + " z=" + str(z); c.close(br, b * sin(w1 * r + p1) * cos(w2 * z), 0, 5e-3 * b, "radial component" + at); c.close(bp, b * 2 / r, 0, 5e-3 * b, "toroidal component" + at); c.close(v[2], b * cos(w1 * r + w2 * z), 0, 5e-3 * b, "vertical component" + at); } c.nontrivial();
}

// Grids of the size of a finely resolved equilibrium: the table values come back at the grid points, from the field, its clone and its saved copy.
static double pseudo(size_t i, unsigned k) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (double)(x >> 11) / 9007199254740992.0; }
FACET("P17", large_grid, 10, "more than 65536 grid points and a clone or saved copy was evaluated") {
    NM m; int nr = (int)c.range(180, 400), nz = max((int)c.range(150, 300), 65536 / nr + 1); m.R = grid(c, nr, 1, 3); m.Z = grid(c, nz, -1, 1); size_t N = (size_t)nr * nz; unsigned s = (unsigned)c.draw(1000); bool ps = c.coin(); for (size_t i = 0; i < N; i++) { m.Br.push_back(pseudo(i, s) - 0.5); m.Bp.push_back(1 + pseudo(i, s + 1)); m.Bz.push_back(pseudo(i, s + 2) - 0.5); if (ps) m.Psi.push_back(pseudo(i, s + 3)); } m.ra = 2; m.za = 0; m.wall.r = {1.2, 2.8, 2.8, 1.2}; m.wall.z = {-0.8, -0.8, 0.8, 0.8}; m.name = "f"; m.desc = "d"; c.note << "nr=" << nr << " nz=" << nz << " data " << s << (ps ? " flux" : "") << "; ";
    vector<unique_ptr<NF>> o; o.emplace_back(mkraw(m, c.coin())); int how = (int)c.draw(3); if (how != 1) { o.emplace_back(o[0]->Clone()); c.note << "clone; "; c.label("clone"); } if (how != 0) { string fn = c.tmp(c.coin() ? "big.h5" : "big.mat"); o[0]->Save(fn); o.emplace_back(new NF(fn)); remove(fn.c_str()); c.note << "saved as " << fn.substr(fn.rfind('.')) << "; "; c.label("saved"); }
    for (size_t q = 0; q < o.size(); q++) for (int k = 0; k < 25; k++) { size_t i = k < 4 ? (k & 1 ? nr - 1 : 0) : c.draw(nr), j = k < 4 ? (k & 2 ? nz - 1 : 0) : c.draw(nz), t = j * nr + i; string at = " of object " + to_string(q) + " at grid point " + to_string(i) + "," + to_string(j); slibreal_t *v = o[q]->Eval(m.R[i], 0, m.Z[j]); c.close(v[0], m.Br[t], 1e-9, 1e-9, "radial component" + at); c.close(v[1], m.Bp[t], 1e-9, 1e-9, "toroidal component" + at); c.close(v[2], m.Bz[t], 1e-9, 1e-9, "vertical component" + at); if (ps) c.close(o[q]->EvalFlux(m.R[i], 0, m.Z[j]), m.Psi[t], 1e-9, 1e-9, "flux" + at); }
    c.nontrivial(N > 65536);
}

// ---------------------------------------------------------------- P18
static ld bilin(const vector<double>& X, const vector<double>& Y, const vector<double>& f, ld x, ld y) { size_t i = 0, j = 0; while (i + 2 < X.size() && x >= X[i+1]) i++; while (j + 2 < Y.size() && y >= Y[j+1]) j++; ld t = (x - X[i]) / ((ld)X[i+1] - X[i]), u = (y - Y[j]) / ((ld)Y[j+1] - Y[j]); size_t n = X.size(); return (1-t)*(1-u)*f[j*n+i] + t*(1-u)*f[j*n+i+1] + (1-t)*u*f[(j+1)*n+i] + t*u*f[(j+1)*n+i+1]; }
FACET("P18", luke, 1200, "evaluated inside of the grid, or the file is defective in one respect") {
    int nx = (int)c.range(4, c.chance(3) ? 40 : 8), ny = (int)c.range(4, c.chance(3) ? 40 : 8), np = (int)c.range(2, c.chance(15) ? 16 : 6), nt = (int)c.range(4, c.chance(15) ? 24 : 9), bad = c.chance(35) ? (int)c.draw(15) : -1; NM m; vector<double> x = grid(c, nx, -c.bulk(0.3, 1), c.bulk(0.3, 1)), y = grid(c, ny, -c.bulk(0.3, 1), c.bulk(0.3, 1)); m.ra = c.bulk(1.2, 5); m.za = c.bulk(-1, 1); if (c.coin()) x[nx/2] = 0; if (c.coin()) y[ny/2] = 0; if (!is_sorted(x.begin(), x.end()) || !is_sorted(y.begin(), y.end()) || adjacent_find(x.begin(), x.end()) != x.end() || adjacent_find(y.begin(), y.end()) != y.end()) c.discard();
    for (double v : x) m.R.push_back(v + m.ra); for (double v : y) m.Z.push_back(v + m.za); if (minstep(m.R) < 1e-3 || minstep(m.Z) < 1e-3) c.discard(); double sg = c.coin() ? 1 : -1, pa = sg * c.logreal(0.01, 100), psia = c.logreal(0.01, 100) * (c.coin() ? 1 : -1); vector<double> ps = grid(c, np, c.coin() ? 0 : c.bulk(0, 0.1), 1), th = grid(c, nt, c.coin() ? 0 : c.bulk(0, 0.2), c.coin() ? 2 * M_PI : c.bulk(6, 2 * M_PI)), praw, pn; for (double v : ps) praw.push_back(v * pa); for (double v : praw) pn.push_back(fabs(v / praw.back()));
    size_t N = (size_t)np * nt; vector<double> Bx, By, Bp, px, py, xyp; double b = c.logreal(0.01, 100); for (size_t i = 0; i < N; i++) { Bx.push_back(b * c.bulk(-1, 1)); By.push_back(b * c.bulk(-1, 1)); Bp.push_back(b * c.bulk(1, 3)); } double aa = c.bulk(0.2, 1); for (int j = 0; j < nt; j++) for (int i = 0; i < np; i++) { double r = aa * (i + 1.0) / np * (1 + 0.2 * c.bulk(-1, 1)); px.push_back(r * cos(th[j])); py.push_back(r * sin(th[j])); } bool negp = c.chance(20); for (int k = 0; k < nx * ny; k++) xyp.push_back((negp ? -1 : 1) * c.bulk(0, 1.5));
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { ld t = atan2l(y[j], x[i]); if (t < 0) t += 2 * PIL; ld q = fabsl((ld)xyp[j*nx+i]); m.Br.push_back((double)bilin(pn, th, Bx, q, t)); m.Bz.push_back((double)bilin(pn, th, By, q, t)); m.Bp.push_back((double)bilin(pn, th, Bp, q, t)); m.Psi.push_back(xyp[j*nx+i] * psia); }
    for (int j = 0; j < nt; j++) { m.sep.r.push_back(px[j*np+np-1] + m.ra); m.sep.z.push_back(py[j*np+np-1] + m.za); } if (!reaches(m.sep, m.za)) c.discard(); m.name = c.word(1, 12, "abcXYZ09_"); m.desc = m.name; string fn = c.tmp(c.pickl<string>({"eq.mat", "eq.h5", "eq.hdf5"})), wn; bool wall = c.coin() || bad == 12 || bad == 13;
    if (wall) { for (;;) { m.wall = genpoly(c, m.ra, m.za, false, min(0.9 * m.ra, 1.5)); if (reaches(m.wall, m.za) && m.wall.r.size() > 2) break; } wn = c.tmp(c.pickl<string>({"w.mat", "w.h5", "w.sdt"})); unique_ptr<SFile> sf(SFile::Create(wn, SFILE_MODE_WRITE)); if (bad == 12) { vector<double> v = m.wall.r; v.insert(v.end(), m.wall.z.begin(), m.wall.z.end()); v.insert(v.end(), m.wall.z.begin(), m.wall.z.end()); wr2(sf.get(), "wall", v, 3, m.wall.r.size(), c.coin()); } else if (bad == 13) wrpoly(sf.get(), "walls", m.wall, false); else wrpoly(sf.get(), "wall", m.wall, c.coin()); sf->Close(); }
    if (bad == 14) { if (c.coin()) { np = 1; praw = {praw.back()}; } else { nt = 1; th.resize(1); } for (auto *v : {&Bx, &By, &Bp, &px, &py}) v->resize((size_t)np * nt); }   // a single flux or angle cannot be interpolated
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); SFile *s = sf.get(); s->CreateStruct("equil"); s->CreateStruct("equil/eqdsk"); s->WriteString("equil/id", m.name); int miss = bad == 0 ? (int)c.draw(10) : -1; if (miss != 0) s->WriteScalar("equil/Rp", m.ra); if (miss != 1) s->WriteScalar("equil/Zp", m.za); if (miss != 2) s->WriteList("equil/eqdsk/x", x.data(), x.size()); if (miss != 3) s->WriteList("equil/eqdsk/y", y.data(), y.size()); if (miss != 4) s->WriteScalar("equil/eqdsk/psia", psia);
      auto mat = [&](const string& n, const vector<double>& v, size_t r, size_t k, bool damage) { vector<double> w = v; if (damage) { if (r != k && c.chance(30)) swap(r, k); else if (c.coin()) { r++; } else k++; w.resize(r * k, 0.5); } wr2(s, n, w, r, k, false); }; if (miss != 5) mat("equil/eqdsk/xypsin", xyp, ny, nx, bad == 1); vector<double> P = praw, T = th; if (bad == 2) { size_t k = 1 + c.draw(np - 1); if (np == 2) P[0] = P[1]; else if (k == (size_t)np - 1) P[k-1] = P[k]; else P[k] = P[k-1]; } if (bad == 3) { size_t k = 1 + c.draw(nt - 1); T[k] = T[k-1] - (c.coin() ? 0 : 0.1); } if (bad == 4) { if (c.coin()) P.push_back(P.back() * 2); else T.push_back(7); } if (miss != 6) s->WriteList("equil/psi_apRp", P.data(), P.size()); if (miss != 7) s->WriteList("equil/theta", T.data(), T.size());
      if (miss != 8) mat("equil/ptBx", Bx, nt, np, bad == 5); mat("equil/ptBy", By, nt, np, bad == 6); mat("equil/ptBPHI", Bp, nt, np, bad == 7); mat("equil/ptx", px, nt, np, bad == 8); if (miss != 9) mat("equil/pty", py, nt, np, bad == 9); sf->Close(); }
    if (bad == 10) { ofstream o(fn, ios::binary | ios::trunc); o << "not an equilibrium"; } if (bad == 11) wn = c.tmp("missing.mat"); c.note << fn.substr(fn.rfind('.')) << " defect " << bad << " nx=" << nx << " ny=" << ny << " psi=" << strv(praw) << " theta=" << strv(th) << " x=" << strv(x) << " y=" << strv(y) << " axis " << str(m.ra) << "," << str(m.za) << " psia=" << str(psia) << " wall " << wn.substr(wn.empty() ? 0 : wn.rfind('.')) << "; ";
    auto mk = [&]() -> MagneticFieldLUKE* { enum sfile_type t = SFile::TypeOfFile(fn); if (wn.empty()) return c.coin() ? new MagneticFieldLUKE(fn) : new MagneticFieldLUKE(fn, t); switch (c.draw(4)) { case 0: return new MagneticFieldLUKE(fn, wn); case 1: return new MagneticFieldLUKE(fn, t, wn); case 2: return new MagneticFieldLUKE(fn, t, wn, SFile::TypeOfFile(wn)); default: { auto *f = c.coin() ? new MagneticFieldLUKE(fn) : new MagneticFieldLUKE(fn, t); if (c.coin()) f->LoadWall(wn); else f->LoadWall(wn, SFile::TypeOfFile(wn)); return f; } } };
    if (bad < 0 && c.chance(15)) { mangled(c, wn.empty() || c.chance(70) ? fn : wn, [&]{ return mk(); }); return; }
    if (bad >= 0) { c.label("defect" + to_string(bad)); c.nontrivial(); c.require(refused(c, [&]{ delete mk(); }, "defective equilibrium"), "defective LUKE equilibrium or wall file was accepted"); return; }
    c.label(wall ? "wall" : "no wall"); MagneticFieldLUKE *f = mk(); bool in = false, out = false; ngeom(c, f, m, "LUKE field"); unique_ptr<NF> cl; if (c.chance(25)) { cl.reset(f->Clone()); }
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { double R = m.R[i], z = m.Z[j]; ld B[3] = {m.Br[j*nx+i], m.Bp[j*nx+i], m.Bz[j*nx+i]}; ld bm = max(max(m.mx(m.Br), m.mx(m.Bp)), m.mx(m.Bz)); allclose(c, f->Eval(R, 0, z), B, 3, 1e-9, (double)bm, "LUKE field at grid point " + to_string(i) + "," + to_string(j)); c.close(f->EvalFlux(R, 0, z), m.Psi[j*nx+i], 0, 1e-9 * (double)m.mx(m.Psi), "LUKE flux at grid point " + to_string(i) + "," + to_string(j)); }
    int n = (int)c.range(2, 6); for (int k = 0; k < n; k++) ncheck(c, f, m, "LUKE field", in, out, 10); delete f; if (cl) { ngeom(c, cl.get(), m, "clone of LUKE field"); ncheck(c, cl.get(), m, "clone of LUKE field", in, out, 10); } c.nontrivial(in);
}
