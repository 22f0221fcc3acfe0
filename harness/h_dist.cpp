// P11-P15 distribution functions
#include "dist_model.h"
#include "mangle.h"
#include <memory>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_sf_legendre.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/constants.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
typedef NumericMomentumSpaceDistributionFunction MSDF;
typedef NumericDistributionFunction NDF;

template<class F> static bool refused(Ctx& c, F f, const string& what) { try { f(); } catch (SOFTLibException&) { return true; } catch (exception& e) { c.fail(what + ": foreign exception " + e.what()); } return false; }
static const int LIN = MSDF::INTERPOLATION_LINEAR, CUB = MSDF::INTERPOLATION_CUBIC;

// ---------------------------------------------------------------- P11
struct TabIn { bool lg, cub; Tab t; vector<double> P, X, F; };
struct Obj { MSDF *d; bool flip; TabIn *t; };
static void tabinit(Ctx& c, MSDF *d, TabIn& in, bool again) {
    vector<double>& P = in.P; vector<double>& X = in.X; vector<double>& F = in.F; bool lg = in.lg, cub = in.cub; int how = lg ? (int)c.draw(2) : 0;
    c.note << (lg ? "log " : "lin ") << (cub ? "cubic " : "linear ") << "p=" << strv(P) << " xi=" << strv(X) << " f=" << strv(F) << "; ";
    bool df = !cub && c.coin(); if (df && !lg) d->Initialize((unsigned)P.size(), (unsigned)X.size(), P.data(), X.data(), F.data());
    else if (df && how == 0) d->InitializeLog((unsigned)P.size(), (unsigned)X.size(), P.data(), X.data(), F.data());
    else if (!lg) d->Initialize((unsigned)P.size(), (unsigned)X.size(), P.data(), X.data(), F.data(), cub ? CUB : LIN);
    else if (how == 0) d->InitializeLog((unsigned)P.size(), (unsigned)X.size(), P.data(), X.data(), F.data(), cub ? CUB : LIN);
    else { for (double& v : F) v = log(v); d->Initialize((unsigned)P.size(), (unsigned)X.size(), P.data(), X.data(), F.data(), cub ? CUB : LIN); d->SetLogarithmic(true); }
    if (again && !lg) d->SetLogarithmic(false);     // (the setting may outlive the table)
    c.require(d->IsLogarithmic() == lg, "IsLogarithmic");
    if (how == 0) for (size_t i = 0; i < F.size(); i++) c.require(F[i] == in.t.f[i], "initialisation changed the caller's table");
}
FACET("P11", table_history, 9000, "at least one evaluation strictly inside a cell of a non-constant table and one clone") {
    vector<unique_ptr<TabIn>> own; auto mk = [&] { bool lg = c.coin(), cub = c.chance(35); Tab t = gentab(c, lg, cub); own.emplace_back(new TabIn{lg, cub, t, t.p, t.xi, t.f}); return own.back().get(); };
    MSDF *d = new MSDF(); vector<Obj> objs = {{d, false, mk()}}; tabinit(c, d, *objs[0].t, false);
    int n = (int)c.range(3, 14); bool inside = false; int clones = 0;
    for (int k = 0; k < n; k++) {
        size_t o = c.draw(objs.size()); Obj& ob = objs[o];
        switch (c.draw(8)) {
            case 0: { Obj nw = {ob.d->MinClone(), ob.flip, ob.t}; c.require(nw.d->IsLogarithmic() == ob.t->lg, "clone: IsLogarithmic"); objs.push_back(nw); clones++; c.note << "clone#" << o << " "; continue; }
            case 1: { bool v = c.coin(); if (v && c.coin()) ob.d->FlipPitchSign(); else ob.d->FlipPitchSign(v); ob.flip = v; c.note << "flip#" << o << "=" << v << " "; if (v) c.label("flipped"); continue; }
            case 2: if (c.chance(25)) { ob.t = mk(); c.note << "init#" << o << " "; tabinit(c, ob.d, *ob.t, true); c.label("initialised again"); continue; } break;
            default: break; }
        const TabIn& in = *ob.t; double p = evp(c, in.P), x = evp(c, in.X); if (ob.flip) x = -x; Tab m = in.t; m.flip = ob.flip;
        c.note << "eval#" << o << "(" << str(p) << "," << str(x) << ") ";
        double got = c.coin() ? ob.d->Eval(p, x) : ob.d->Eval(c.bulk(0, 5), p, x, c.bulk(-1, 1));
        auto want = m.ev(p, x); oneof(c, got, want, in.t.rtol(), in.t.atol(), "value of object #" + to_string(o) + " at (" + str(p) + "," + str(x) + ")");
        if (want[0] != 0) inside = true; if (want.size() == 1 && want[0] == 0) c.label("outside/zero"); if (o) c.label("evaluated a clone");
    }
    // node values of every object at the end
    bool varies = false;
    for (size_t o = 0; o < objs.size(); o++) { const TabIn& in = *objs[o].t; Tab m = in.t; m.flip = objs[o].flip; size_t i = c.draw(in.P.size()), j = c.draw(in.X.size()); double x = m.flip ? -in.X[j] : in.X[j]; oneof(c, objs[o].d->Eval(in.P[i], x), m.ev(in.P[i], x), in.t.rtol(), in.t.atol(), "node value of object #" + to_string(o)); for (double v : in.t.f) varies |= v != in.t.f[0]; }
    c.nontrivial(inside && clones > 0 && varies); c.label(objs[0].t->lg ? "logarithmic" : "plain"); c.label(objs[0].t->cub ? "cubic" : "linear");
}
static double pseudo(size_t i, unsigned k) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (double)(x >> 11) / 9007199254740992.0; }
FACET("P11", large_table, 2, "more than 65536 table values and a clone was evaluated") {
    int np = (int)c.range(150, 500), nx = max((int)c.range(120, 300), 65536 / np + 1); vector<double> P = grid(c, np, 0, 50), X = grid(c, nx, -1, 1), F; unsigned s = (unsigned)c.draw(1000); bool lg = c.coin(), cub = c.chance(30); for (size_t i = 0; i < (size_t)np * nx; i++) F.push_back(0.01 + pseudo(i, s)); c.note << (lg ? "log " : "lin ") << (cub ? "cubic " : "linear ") << np << "x" << nx << " data " << s;
    unique_ptr<MSDF> a(new MSDF()); if (lg) a->InitializeLog(np, nx, P.data(), X.data(), F.data(), cub ? CUB : LIN); else a->Initialize(np, nx, P.data(), X.data(), F.data(), cub ? CUB : LIN); unique_ptr<MSDF> b(a->MinClone()); MSDF *o[2] = {a.get(), b.get()};
    for (int q = 0; q < 2; q++) for (int k = 0; k < 40; k++) { size_t i = k < 4 ? (k & 1 ? np - 1 : 0) : c.draw(np), j = k < 4 ? (k & 2 ? nx - 1 : 0) : c.draw(nx); c.close(o[q]->Eval(P[i], X[j]), F[j*np+i], 1e-9, 1e-9, string(q ? "clone" : "table") + " at grid point " + to_string(i) + "," + to_string(j)); }
    c.nontrivial(); c.label(lg ? "logarithmic" : "plain"); c.label(cub ? "cubic" : "linear");
}
FACET("P11", bad_grids, 2500, "the grid is unusable (too short or not strictly increasing) or a logarithmic table has a negative value") {
    bool lg = c.coin(), cub = c.coin(); Tab t = gentab(c, lg, cub); vector<double> P = t.p, X = t.xi, F = t.f; bool useX = c.coin(); vector<double>& g = useX ? X : P; size_t k = 1 + c.draw(g.size() - 1); unsigned np = (unsigned)P.size(), nx = (unsigned)X.size(); int kind = (int)c.draw(lg ? 6 : 5);
    switch (kind) { case 0: g[k] = g[k-1]; break; case 1: swap(g[k], g[k-1]); break; case 2: (useX ? nx : np) = (unsigned)c.draw(cub ? 4 : 2); break; case 3: for (size_t i = 0; i < g.size() / 2; i++) swap(g[i], g[g.size()-1-i]); break; case 4: g[k] = NAN; break; default: F[c.draw(F.size())] = -c.logreal(1e-9, 1); for (auto& v : F) if (v == 0) v = 1; }
    c.note << "kind " << kind << " " << (useX ? "xi" : "p") << " lg=" << lg << " cubic=" << cub << " p=" << strv(P) << " xi=" << strv(X); c.label("kind" + to_string(kind));
    MSDF d; bool r = refused(c, [&]{ if (lg) d.InitializeLog(np, nx, P.data(), X.data(), F.data(), cub ? CUB : LIN); else d.Initialize(np, nx, P.data(), X.data(), F.data(), cub ? CUB : LIN); }, "bad grid"); c.require(r, "unusable grid was accepted"); c.nontrivial();
}

// ---------------------------------------------------------------- P12
struct RTab { double r; Tab t; vector<double> P, X, F; };
struct RModel {
    vector<RTab*> rt; bool extrap = true;
    // returns false when evaluation must be refused
    bool ev(double rho, double p, double x, vector<ld>& out, double& tol) const {
        double lo = rt[0]->r, hi = rt.back()->r; out.clear(); tol = 0; if (!extrap && (rho < lo || rho > hi)) return false;
        if (rt.size() == 1) { out = rt[0]->t.ev(p, x); tol = rt[0]->t.atol(); for (ld a : out) tol = max(tol, rt[0]->t.atol() + (double)fabsl(a) * (rt[0]->t.rtol() + 1e-12)); return true; }
        size_t i = 0; while (i + 2 < rt.size() && rho >= rt[i+1]->r) i++;
        ld r0 = rt[i]->r, r1 = rt[i+1]->r, w1 = (rho - r0) / (r1 - r0), w0 = (r1 - rho) / (r1 - r0);
        for (ld a : rt[i]->t.ev(p, x)) for (ld b : rt[i+1]->t.ev(p, x)) { out.push_back(w0 * a + w1 * b); tol = max(tol, (double)(fabsl(w0 * a) * (rt[i]->t.rtol() + 1e-12) + fabsl(w1 * b) * (rt[i+1]->t.rtol() + 1e-12))); }
        tol += (double)fabsl(w0) * rt[i]->t.atol() + (double)fabsl(w1) * rt[i+1]->t.atol(); return true;
    }
};
struct RObj { NDF *d; RModel m; vector<bool> flips; };
static double evr(Ctx& c, const vector<RTab*>& v) { double a = v[0]->r, b = v.back()->r, w = max(b - a, 0.1); switch (c.draw(6)) { case 0: case 1: return v[c.draw(v.size())]->r; case 2: return a - w * c.logreal(1e-3, 2); case 3: return b + w * c.logreal(1e-3, 2); case 4: return 0; default: return c.bulk(a, b); } }
FACET("P12", radial_history, 9000, "at least three radii, inserted out of order or on a decreasing grid, and evaluated between two of them") {
    vector<unique_ptr<RTab>> own; NDF *d = new NDF(); vector<RObj> objs; objs.push_back({d, RModel(), {}}); bool ooo = false, between = false; size_t maxr = 0;
    auto mk = [&](double r, const Tab& t) { own.emplace_back(new RTab{r, t, t.p, t.xi, t.f}); return own.back().get(); };
    auto add = [&](RModel& m, RTab *x) { size_t k = 0; while (k < m.rt.size() && m.rt[k]->r < x->r) k++; if (k < m.rt.size()) ooo = true; m.rt.insert(m.rt.begin() + k, x); return k; };
    set<double> used; auto newr = [&] { double r; do { r = c.coin() ? (double)c.range(-8, 16) / 4 : c.bulk(-1, 4); } while (used.count(r)); used.insert(r); return r; };
    vector<vector<double>> arrays;
    auto atonce = [&](RObj& ob) {
        bool lg = c.coin(), cub = c.chance(25), desc = c.coin(); int nr = c.chance(4) ? (int)c.range(10, 24) : (int)c.range(1, 5); vector<double> R; for (int i = 0; i < nr; i++) R.push_back(newr()); sort(R.begin(), R.end()); if (desc) reverse(R.begin(), R.end());
        Tab t0 = gentab(c, lg, cub, 5); size_t N = t0.f.size(); arrays.push_back(R); arrays.push_back(t0.p); arrays.push_back(t0.xi); vector<double> all; vector<Tab> ts;
        for (int i = 0; i < nr; i++) { Tab t = t0; if (i) for (size_t k = 0; k < N; k++) t.f[k] = lg ? t0.f[k] * c.logreal(0.3, 3) : c.bulk(-1, 1) * t0.mag(); ts.push_back(t); all.insert(all.end(), t.f.begin(), t.f.end()); }
        arrays.push_back(all); auto& A = arrays; bool alloc = c.coin(); size_t b = A.size() - 4;
        c.note << "init#" << (&ob - &objs[0]) << " " << (lg ? "log " : "") << (cub ? "cubic " : "") << "r=" << strv(R) << " p=" << strv(t0.p) << " xi=" << strv(t0.xi) << " f=" << strv(all) << "; ";
        bool df = !cub && c.coin(); if (df && lg && !alloc) ob.d->InitializeLog(nr, t0.p.size(), t0.xi.size(), A[b].data(), A[b+1].data(), A[b+2].data(), A[b+3].data());
        else if (df && !lg) ob.d->Initialize(nr, t0.p.size(), t0.xi.size(), A[b].data(), A[b+1].data(), A[b+2].data(), A[b+3].data());
        else if (lg) ob.d->InitializeLog(nr, t0.p.size(), t0.xi.size(), A[b].data(), A[b+1].data(), A[b+2].data(), A[b+3].data(), cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR, alloc);
        else ob.d->Initialize(nr, t0.p.size(), t0.xi.size(), A[b].data(), A[b+1].data(), A[b+2].data(), A[b+3].data(), cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR);
        if (!lg || alloc) c.require(A[b+3] == all, "initialisation changed the caller's table");
        for (int i = 0; i < nr; i++) { RTab *x = mk(R[i], ts[i]); add(ob.m, x); } if (desc && nr > 2) c.label("decreasing grid"); maxr = max(maxr, ob.m.rt.size());
    };
    if (c.chance(40)) atonce(objs[0]);
    bool many = c.chance(4); int n = many ? (int)c.range(30, 60) : (int)c.range(4, 16); size_t cap = many ? 40 : 7; if (many) c.label("many radii");
    for (int k = 0; k < n; k++) {
        size_t o = c.draw(objs.size()); RObj& ob = objs[o]; RModel& m = ob.m; int op = (int)c.draw(10);
        if (m.rt.empty() || op <= 2) {      // insert
            if (m.rt.size() >= cap) continue;
            bool lg = c.coin(), cub = c.chance(25); int how = (int)c.draw(lg ? 3 : 2); double r = newr(); Tab t = gentab(c, lg, cub, 5); RTab *x = mk(r, t); size_t want = add(m, x); if (m.rt.size() > maxr) maxr = m.rt.size(); int idx;
            c.note << "insert#" << o << " r=" << str(r) << " how" << how << (lg ? " log" : "") << (cub ? " cubic" : "") << " p=" << strv(t.p) << " xi=" << strv(t.xi) << " f=" << strv(t.f) << "; ";
            if (how == 0) { MSDF *ms = new MSDF(); if (lg) ms->InitializeLog(t.p.size(), t.xi.size(), x->P.data(), x->X.data(), x->F.data(), cub ? CUB : LIN); else ms->Initialize(t.p.size(), t.xi.size(), x->P.data(), x->X.data(), x->F.data(), cub ? CUB : LIN); idx = ob.d->InsertMomentumSpaceDistribution(r, ms); }
            else if (!lg) idx = ob.d->InsertMomentumSpaceDistribution(t.p.size(), t.xi.size(), r, x->P.data(), x->X.data(), x->F.data(), cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR);
            else { idx = ob.d->InsertMomentumSpaceDistributionLog(t.p.size(), t.xi.size(), r, x->P.data(), x->X.data(), x->F.data(), cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR, how == 2); if (how == 2) c.require(x->F == t.f, "insertion with allocation changed the caller's table"); }
            c.require(idx == (int)want, "insertion index " + to_string(idx) + ", expected " + to_string(want)); continue;
        }
        if (op == 6 && m.rt.size() < cap && c.chance(25)) { c.label("initialised with radii present"); atonce(ob); continue; }
        if (op == 3 && objs.size() < 4) { RObj nw = {ob.d->MinClone(), m, {}}; for (auto& x : nw.m.rt) { RTab *y = mk(x->r, x->t); x = y; } objs.push_back(nw); c.note << "clone#" << o << "; "; c.label("clone"); continue; }
        if (op == 4) { bool v = c.coin(); ob.d->FlipPitchSign(v); for (auto& x : m.rt) x->t.flip = v; c.note << "flip#" << o << "=" << v << "; "; continue; }
        if (op == 5) { m.extrap = c.coin(); ob.d->SetExtrapolationPermission(m.extrap); c.note << "extrap#" << o << "=" << m.extrap << "; "; continue; }
        if (op == 6 && c.coin()) { Tab t = gentab(c, false, false, 4); auto *x = mk(0, t); x->P[1] = x->P[0]; bool r = refused(c, [&]{ ob.d->InsertMomentumSpaceDistribution(t.p.size(), t.xi.size(), newr(), x->P.data(), x->X.data(), x->F.data(), NDF::INTERPOLATION_LINEAR); }, "bad insertion"); c.require(r, "unusable momentum grid was accepted"); c.note << "refused insert; "; c.label("refused insertion"); continue; }
        double rho = evr(c, m.rt), sh = c.coin() ? 0 : (double)c.range(-8, 8) / 8, r = rho + sh; rho = r - sh; const RTab *any = m.rt[c.draw(m.rt.size())]; double p = evp(c, any->P), x = evp(c, any->X); if (any->t.flip) x = -x;
        c.note << "eval#" << o << "(" << str(r) << "," << str(p) << "," << str(x) << "," << str(sh) << "); "; vector<ld> want; double tol, got = 0; bool ok = m.ev(rho, p, x, want, tol);
        bool thrown = refused(c, [&]{ got = sh == 0 && c.coin() ? ob.d->Eval(r, p, x) : ob.d->Eval(r, p, x, sh); }, "evaluation"); c.require(thrown == !ok, ok ? "evaluation inside of the permitted range was refused" : "evaluation outside of the radial grid was not refused");
        if (ok) { oneof(c, got, want, 1e-12, tol, "value of object #" + to_string(o) + " at rho=" + str(rho)); if (m.rt.size() > 1 && want[0] != 0 && rho > m.rt[0]->r && rho < m.rt.back()->r) between = true; if (rho < m.rt[0]->r || rho > m.rt.back()->r) c.label("extrapolated"); } else c.label("refused evaluation");
        if (m.rt.size() == 1) c.label("single radius");
    }
    c.nontrivial(maxr >= 3 && ooo && between); c.label("nr" + to_string(maxr));
}
FACET("P12", bad_radii, 1500, "the radial grid is not monotonic") {
    bool lg = c.coin(); Tab t = gentab(c, lg, false, 4); int nr = (int)c.range(2, 6); vector<double> R = grid(c, nr, c.bulk(-1, 1), c.bulk(1.5, 3)), F; if (c.coin()) reverse(R.begin(), R.end()); for (int i = 0; i < nr; i++) F.insert(F.end(), t.f.begin(), t.f.end());
    int k = 1 + (int)c.draw(nr - 1); if (nr == 2 || c.coin()) R[k] = R[k-1]; else { int i = (int)c.draw(nr - 2) + 1; swap(R[i], c.coin() ? R[i-1] : R[i+1]); }
    c.note << "r=" << strv(R); NDF d; bool r = refused(c, [&]{ if (lg) d.InitializeLog(nr, t.p.size(), t.xi.size(), R.data(), t.p.data(), t.xi.data(), F.data(), 0, c.coin()); else d.Initialize(nr, t.p.size(), t.xi.size(), R.data(), t.p.data(), t.xi.data(), F.data(), 0); }, "bad radial grid"); c.require(r, "radial grid that is not monotonic was accepted"); c.nontrivial();
}

// ---------------------------------------------------------------- P13
static const ld ME = 9.10938356e-31L, CL = 299792458.0L, PIL = 3.14159265358979323846264338327950288L;
struct Ana { int kind; double a, b, q, w; };
static Ana gena(Ctx& c) { Ana a; a.kind = (int)c.draw(4); a.a = a.kind == 2 ? c.bulk(-30, 60) : c.logreal(1.01, 200); a.b = a.kind == 0 ? c.bulk(5, 25) : c.bulk(0.5, 20); a.q = a.kind == 0 ? c.bulk(0.5, 20) : (c.coin() ? 0 : c.bulk(0, 60)); a.w = a.kind == 1 && c.coin() ? c.logreal(0.1, 20) : 0; return a; }
static ld anaref(const Ana& a, ld p, ld xi, ld& e) {
    e = 0; if (a.kind == 0) { ld g = sqrtl(p*p+1), A = ((ld)a.a+1)/((ld)a.q+1)*g, g0 = (ld)a.b*sqrtl((ld)a.q+5); e = -g/g0 - A*(1-fabsl(xi)); return ME*CL*A/(2*PIL*g0*p*p)*expl(e)/(1-expl(-2*A)); }
    if (a.kind == 1) { ld D = ((ld)a.a+1)/(2*((ld)a.b+1)); e = -D*p*(1-xi*xi)/fabsl(xi); if (a.w != 0 && p >= a.q) e -= (p-a.q)*(p-a.q)/((ld)a.w*a.w); return expl(e)/(p*fabsl(xi)); }
    if (a.kind == 2) { e = a.a*fabsl(xi); return expl(e); } return 1; }
static MomentumSpaceDistributionFunction *mkana(Ctx& c, const Ana& a, AnalyticalAvalanche *A0, ConnorHastieDistribution *C0, ExponentialPitch *E0) {
    bool fresh = c.coin();
    if (a.kind == 0) { if (fresh) return new AnalyticalAvalanche(a.a, a.b, a.q); A0->Initialize(a.a, a.b, a.q); return A0; }
    if (a.kind == 1) { if (fresh) { if (a.q == 0 && a.w == 0) return new ConnorHastieDistribution(a.a, a.b); return new ConnorHastieDistribution(a.a, a.b, a.q, a.w); } if (a.q == 0 && a.w == 0) C0->Initialize(a.a, a.b); else C0->Initialize(a.a, a.b, a.q, a.w); return C0; }
    if (a.kind == 2) { if (fresh) return new ExponentialPitch(a.a); E0->Initialize(a.a); return E0; } return new UnitDistributionFunction(); }
static void chkana(Ctx& c, MomentumSpaceDistributionFunction *d, const Ana& a, double p, double xi, const string& what) { ld e, w = anaref(a, p, xi, e); double got = c.coin() ? d->Eval(p, xi) : d->Eval(c.bulk(0, 3), p, xi, c.bulk(-1, 1)); c.require(isfinite(got) && got >= 0, what + " is negative or not finite: " + str(got)); c.close(got, (double)w, 1e-14 * (20 + (double)fabsl(e)), 1e-290, what); }
FACET("P13", momentum_formulas, 15000, "the value is neither 0 nor 1") {
    AnalyticalAvalanche A0; ConnorHastieDistribution C0; ExponentialPitch E0; bool nt = false; vector<pair<MomentumSpaceDistributionFunction*, Ana>> pool; int n = (int)c.range(2, 6);
    for (int k = 0; k < n; k++) { Ana a = gena(c); MomentumSpaceDistributionFunction *d = mkana(c, a, &A0, &C0, &E0); c.note << "kind" << a.kind << "(" << str(a.a) << "," << str(a.b) << "," << str(a.q) << "," << str(a.w) << ") "; c.label("kind" + to_string(a.kind));
        double p = c.logreal(1e-2, 200), xi = c.real(-1, 1); if (c.chance(10) && a.kind == 1) p = a.q > 0 ? a.q : p; if (a.kind == 1 && fabs(xi) < 0.02) xi = 0.5; c.note << "at (" << str(p) << "," << str(xi) << ") "; chkana(c, d, a, p, xi, "value"); ld e; ld w = anaref(a, p, xi, e); nt |= w != 0 && w != 1;
        MomentumSpaceDistributionFunction *cl = d->MinClone(); pool.push_back({cl, a}); auto& pr = pool[c.draw(pool.size())]; double p2 = c.logreal(1e-2, 100), x2 = c.bulk(0.05, 1) * (c.coin() ? 1 : -1); c.note << "clone at (" << str(p2) << "," << str(x2) << ") "; chkana(c, pr.first, pr.second, p2, x2, "value of a clone"); }
    c.nontrivial(nt);
}
struct Pr { int kind; double r0, r1, a, b, w; };
static Pr genpr(Ctx& c) { Pr p; p.kind = (int)c.draw(5); p.r0 = c.coin() ? 0 : c.bulk(-0.5, 3); p.r1 = p.r0 + c.logreal(0.05, 5); p.a = p.kind == 1 ? (c.chance(15) ? (double)c.range(1, 120) : c.logreal(0.05, 8)) : c.logreal(0.1, 100); p.b = c.logreal(0.05, 5); p.w = c.logreal(0.05, 5); return p; }
static RadialProfile *mkpr(const Pr& p) { switch (p.kind) { case 0: return new LinearRadialProfile(p.r0, p.r1); case 1: return new PowerRadialProfile(p.r0, p.r1, p.a); case 2: return new GaussianRadialProfile(p.r0, p.r1, p.a, p.b, p.w); case 3: return new BesselRadialProfile(p.r0, p.r1); default: return new UniformRadialProfile(); } }
static ld j0ref(ld x) { ld s = 0, t = 1; for (int k = 1; k < 60; k++) { s += t; t *= -x*x/4/k/k; } return s; }
static ld prref(const Pr& p, double rho) { if (p.kind == 4) return 1; if (rho >= p.r1 || rho < p.r0) return 0; ld x = ((ld)rho-p.r0)/((ld)p.r1-p.r0); switch (p.kind) { case 0: return 1-x; case 1: return 1-powl(x, p.a); case 2: return p.a*expl(-((ld)rho-p.b)*((ld)rho-p.b)/((ld)p.w*p.w)); default: return j0ref(2.40482555769577L*x); } }
FACET("P13", radial_profiles, 15000, "the profile value is neither 0 nor 1") {
    Pr p = genpr(c); RadialProfile *rp = mkpr(p), *cl = rp->MinClone(); Ana a = gena(c); AnalyticalAvalanche A0; ConnorHastieDistribution C0; ExponentialPitch E0; MomentumSpaceDistributionFunction *ms = mkana(c, a, &A0, &C0, &E0);
    c.note << "profile" << p.kind << "(" << str(p.r0) << "," << str(p.r1) << "," << str(p.a) << "," << str(p.b) << "," << str(p.w) << ") "; c.label("profile" + to_string(p.kind));
    RadialDistributionFunction *rd; switch (c.draw(4)) { case 0: rd = new RadialDistributionFunction(rp, ms); break; case 1: rd = new RadialDistributionFunction(); rd->Initialize(rp, ms); break; case 2: if (p.kind == 4) { rd = ms->ToRadialDistribution(); break; } rd = ms->ToRadialDistribution(rp); break; default: { RadialDistributionFunction *r0 = ms->ToRadialDistribution(rp); rd = r0->MinClone(); } }
    int n = (int)c.range(2, 6); bool nt = false;
    for (int k = 0; k < n; k++) {
        double rho; switch (c.draw(6)) { case 0: rho = p.r0; break; case 1: rho = p.r1; break; case 2: rho = c.coin() ? nextafter(p.r1, 0) : nextafter(p.r0, -9); break; case 3: rho = c.bulk(p.r0 - 2, p.r1 + 2); break; default: rho = c.bulk(p.r0, p.r1); }
        double sh = c.coin() ? 0 : c.bulk(-1, 1), r = rho + sh; rho = r - sh; ld w = prref(p, rho), e; double got = rp->Eval(r, sh); c.note << "r=" << str(r) << " shift=" << str(sh) << " ";
        // the power profile amplifies rounding of the normalised radius by its exponent
        c.close(got, (double)w, p.kind == 2 ? 1e-12 * (1 + 2*fabs(rho - p.b) * (fabs(rho) + p.b) / (p.w * p.w)) : 1e-13, p.kind == 2 || p.kind == 4 ? 1e-290 : 1e-14 * (10 + p.a * (p.kind == 1)) * (1 + (fabs(rho) + fabs(p.r0)) / (p.r1 - p.r0)) + (p.kind == 1 && p.a < 1 ? 1e-14 * pow(fabs((rho - p.r0) / (p.r1 - p.r0)) + 1e-300, p.a - 1) * (fabs(rho) + fabs(p.r0)) / (p.r1 - p.r0) : 0), "profile value");
        if (p.kind != 4 && (rho >= p.r1 || rho < p.r0)) c.require(got == 0, "profile does not vanish outside of its interval"); else c.require(got >= -1e-13, "profile is negative inside of its interval");
        c.same(cl->Eval(r, sh), got, "value of a cloned profile"); double P = c.logreal(0.05, 50), X = c.bulk(0.1, 1); ld f = anaref(a, P, X, e); c.close(rd->Eval(r, P, X, sh), (double)(got * f), 1e-14 * (40 + (double)fabsl(e)), 1e-290, "product distribution"); nt |= w != 0 && w != 1; }
    c.nontrivial(nt);
}
FACET("P13", bad_profiles, 1000, "the radial interval is empty or a width/height/position is not positive") {
    Pr p = genpr(c); p.kind = (int)c.draw(4); if (p.kind == 2 && c.coin()) { double v = c.coin() ? 0 : -c.logreal(1e-3, 5); switch (c.draw(3)) { case 0: p.a = v; break; case 1: p.b = v; break; default: p.w = v; } } else p.r1 = c.coin() ? p.r0 : p.r0 - c.logreal(1e-6, 3);
    c.note << "profile" << p.kind << "(" << str(p.r0) << "," << str(p.r1) << "," << str(p.a) << "," << str(p.b) << "," << str(p.w) << ") "; c.require(refused(c, [&]{ mkpr(p); }, "bad profile"), "invalid profile was accepted"); c.nontrivial();
}

// ---------------------------------------------------------------- P14
struct Codef { vector<double> y, delta1; double delta, nref, Tref; bool hasn, hasT; int nleg, nt; vector<vector<double>> f; };
static const gsl_interp_type *gtype(int k) { switch (k) { case 0: return gsl_interp_linear; case 1: return gsl_interp_polynomial; case 2: return gsl_interp_cspline; case 3: return gsl_interp_cspline_periodic; case 4: return gsl_interp_akima; case 5: return gsl_interp_akima_periodic; default: return gsl_interp_steffen; } }
static const int cinterp[7] = {CODEDistributionFunction::INTERPOLATION_LINEAR, CODEDistributionFunction::INTERPOLATION_POLYNOMIAL, CODEDistributionFunction::INTERPOLATION_CSPLINE, CODEDistributionFunction::INTERPOLATION_CSPLINE_PERIODIC, CODEDistributionFunction::INTERPOLATION_AKIMA, CODEDistributionFunction::INTERPOLATION_AKIMA_PERIODIC, CODEDistributionFunction::INTERPOLATION_STEFFEN};
static Codef gencode(Ctx& c, int itype, bool full, int maxt = 4) {
    Codef d; int mn = max(itype == 3 ? 3 : 2, (int)gsl_interp_type_min_size(gtype(itype))), np = c.chance(4) && itype != 1 ? (int)c.range(20, 60) : (int)c.range(mn, mn + 4); d.y = grid(c, np, c.coin() ? 0 : c.bulk(0, 2), c.bulk(3, 40)); d.delta = c.logreal(0.01, 2); d.hasn = c.coin(); d.hasT = c.coin(); d.nref = d.hasn ? c.logreal(1e-3, 1e20) : 1; d.Tref = d.hasT ? c.logreal(1e-17, 1e3) : 1; d.nleg = c.chance(5) ? (int)c.range(9, 40) : (int)c.range(1, full ? 7 : 4); d.nt = full && c.chance(4) ? (int)c.range(9, 15) : (int)c.range(1, maxt);
    bool per = itype == 3 || itype == 5; double fs = c.chance(15) ? c.logreal(1e-150, 1e80) : 1; for (int t = 0; t < d.nt; t++) { vector<double> v; for (int k = 0; k < d.nleg; k++) { size_t b = v.size(); for (int i = 0; i < np; i++) v.push_back(fs * ((k == 0 ? 1.2 : 0) + c.bulk(-1, 1))); if (per) v.back() = v[b]; } d.f.push_back(v); } return d;
}
static void wr(SFile *sf, const string& n, const vector<double>& v, sfilesize_t r, sfilesize_t k) { vector<const double*> rows; for (sfilesize_t i = 0; i < r; i++) rows.push_back(v.data() + i * k); sf->WriteArray(n, rows.data(), r, k); }
static void wrvec(Ctx& c, SFile *sf, const string& n, const vector<double>& v) { switch (c.draw(3)) { case 0: sf->WriteList(n, v.data(), v.size()); break; case 1: wr(sf, n, v, v.size(), 1); break; default: wr(sf, n, v, 1, v.size()); } }
static void wrv2(Ctx& c, SFile *sf, const string& n, const vector<double>& v, bool matrix) { if (!matrix) { wrvec(c, sf, n, v); return; } vector<double> w = v; w.insert(w.end(), v.begin(), v.end()); if (c.coin()) wr(sf, n, w, 2, v.size()); else wr(sf, n, w, v.size(), 2); }
static void wrsc(Ctx& c, SFile *sf, const string& n, double v) { if (c.coin()) sf->WriteScalar(n, v); else wr(sf, n, {v}, 1, 1); }
static string codecorrupt(Ctx& c, Codef& d, int& bad) { bad = (int)c.draw(9); return to_string(bad); }
static void wrcode(Ctx& c, SFile *sf, const Codef& d, const string& pre, int bad = -1) {
    vector<double> y = d.y; if (bad == 0) { size_t k = 1 + c.draw(y.size() - 1); y[k] = y[k-1] - (c.coin() ? 0 : 0.5); }
    if (bad == 1) { vector<double> yy = y; yy.insert(yy.end(), y.begin(), y.end()); wr(sf, pre + "y", yy, 2, y.size()); } else if (bad != 2) wrvec(c, sf, pre + "y", y);
    if (bad == 3) wr(sf, pre + "delta", {d.delta, d.delta}, 1, 2); else wrsc(c, sf, pre + "delta", d.delta);
    if (bad == 4) wr(sf, pre + "nref", {1, 2}, 2, 1); else if (d.hasn) wrsc(c, sf, pre + "nref", d.nref); if (bad == 5) wr(sf, pre + "Tref", {1, 2}, 2, 1); else if (d.hasT) wrsc(c, sf, pre + "Tref", d.Tref);
    if (bad == 12) { int two = c.coin() ? 1 : 2; wr(sf, pre + "Nxi", {(double)d.nleg, (double)d.nleg}, two, 3 - two); } else wrsc(c, sf, pre + "Nxi", bad == 6 ? -(double)c.range(0, 3) : bad == 7 ? d.nleg + (double)c.range(1, 3) : d.nleg);
    if (bad != 8) { vector<double> all; for (auto& v : d.f) all.insert(all.end(), v.begin(), v.end()); wr(sf, pre + "f", all, d.nt, d.f[0].size()); }
}
struct CodeRef {
    vector<double> p; vector<vector<double>> f; const gsl_interp_type *ty; double amp = 0;
    CodeRef(const Codef& d, int t, int itype) : ty(gtype(itype)) { for (double y : d.y) p.push_back(y * d.delta); ld nd = 2 * PIL * ME * d.Tref, nm = d.nref / (nd * sqrtl(nd)); size_t np = p.size(); for (int k = 0; k < d.nleg; k++) { vector<double> v; for (size_t i = 0; i < np; i++) { v.push_back((double)(d.f[t][k*np+i] * nm)); amp = max(amp, fabs(v.back())); } f.push_back(v); } }
    static ld leg(int n, ld x) { ld a = 1, b = x; if (n == 0) return 1; for (int k = 1; k < n; k++) { ld t = ((2*k+1)*x*b - k*a)/(k+1); a = b; b = t; } return b; }
    ld raw(double P, double xi, ld& sc) const { ld s = 0; sc = 0; for (size_t k = 0; k < f.size(); k++) { gsl_interp *g = gsl_interp_alloc(ty, p.size()); gsl_interp_accel *ac = gsl_interp_accel_alloc(); gsl_interp_init(g, p.data(), f[k].data(), p.size()); ld v = gsl_interp_eval(g, p.data(), f[k].data(), P, ac); gsl_interp_free(g); gsl_interp_accel_free(ac); s += v * leg((int)k, xi) * (k % 2 ? -1 : 1); sc += fabsl(v); } return s; }
    bool in(double P) const { return P >= p[0] && P <= p.back(); }
    ld ev(double P, double xi, ld& sc) const { sc = 0; if (!in(P)) return 0; ld s = raw(P, xi, sc); return s > 0 ? s : 0; }
};
static void chkcode(Ctx& c, double got, const CodeRef& r, double P, double xi, const string& what) { ld sc, w = r.ev(P, xi, sc); c.require(got >= 0, what + " is negative: " + str(got)); c.close(got, (double)w, 1e-11, 1e-11 * (double)(sc + r.amp * r.in(P)), what + " at (" + str(P) + "," + str(xi) + ")"); if (!r.in(P)) c.require(got == 0, what + " is not zero outside of the momentum grid"); }
static string fmt(Ctx& c, bool multi = false) { return multi ? c.pickl<string>({"f.h5", "f.mat", "f.hdf5"}) : c.pickl<string>({"f.h5", "f.mat", "f.sdt", "f.hdf5"}); }
struct CObj { CODEDistributionFunction *d; shared_ptr<CodeRef> r; int g; };     // g: objects with the same number share their tables
FACET("P14", code_history, 2500, "at least two Legendre modes, a positive value evaluated, and a clone, conversion or reload in the history") {
    int itype = c.coin() ? 0 : (int)c.draw(7); Codef d = gencode(c, itype, true); string path = c.coin() ? "" : c.pickl<string>({"grp", "grp/"}), pre = path.empty() ? "" : "grp/", fn = c.tmp(fmt(c));
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); if (!path.empty()) sf->CreateStruct("grp"); wrcode(c, sf.get(), d, pre); sf->Close(); }
    int time = (int)c.range(-d.nt, d.nt - 1); bool deft = c.chance(20); if (deft) time = -1; int tt = time < 0 ? d.nt + time : time;
    c.note << fn.substr(fn.rfind('.')) << " interp" << itype << " path=" << path << " np=" << d.y.size() << " nleg=" << d.nleg << " nt=" << d.nt << " time=" << time << " y=" << strv(d.y) << " delta=" << str(d.delta) << " nref=" << str(d.nref) << " Tref=" << str(d.Tref) << " f=" << strv(d.f[tt]) << "; ";
    vector<CObj> objs; CODEDistributionFunction *d0; auto ref = make_shared<CodeRef>(d, tt, itype);
    switch (c.draw(3)) { case 0: if (deft && itype == 0 && path.empty()) d0 = new CODEDistributionFunction(fn); else d0 = new CODEDistributionFunction(fn, time, cinterp[itype], path); break; case 1: d0 = new CODEDistributionFunction(); if (deft && itype == 0 && path.empty()) d0->Load(fn); else d0->Load(fn, time, cinterp[itype], path); break; default: { SFile *sf = SFile::Create(fn, SFILE_MODE_READ); if (deft && itype == 0 && path.empty()) d0 = new CODEDistributionFunction(sf); else d0 = new CODEDistributionFunction(sf, time, cinterp[itype], path); sf->Close(); delete sf; } }
    int groups = 0; objs.push_back({d0, ref, groups++}); c.close(d0->GetPMin(), ref->p[0], 1e-14, 0, "GetPMin"); c.close(d0->GetPMax(), ref->p.back(), 1e-14, 0, "GetPMax");
    int n = (int)c.range(3, 14); bool pos = false, hist = false; double lastx = 0.3;
    for (int k = 0; k < n; k++) {
        size_t o = c.draw(objs.size()); CObj& ob = objs[o]; const CodeRef& R = *ob.r; int op = (int)c.draw(10);
        if (op == 9) { if (objs.size() > 1 && c.coin()) { delete ob.d; objs.erase(objs.begin() + o); c.note << "delete#" << o << "; "; c.label("deleted"); hist = true; continue; }
            int same = 0; for (auto& q : objs) same += q.g == ob.g; if (same > 1) continue; int t2 = (int)c.draw(d.nt); ob.d->Destroy(); if (c.coin()) ob.d->Destroy(); if (objs.size() > 1 && c.coin()) { delete ob.d; objs.erase(objs.begin() + o); c.note << "destroy+delete#" << o << "; "; continue; } ob.d->Load(fn, t2, cinterp[itype], path); ob.r = make_shared<CodeRef>(d, t2, itype); ob.g = groups++; c.note << "destroy+reload#" << o << " t=" << t2 << "; "; c.label("destroyed"); hist = true; continue; }
        if (op == 0) { objs.push_back({ob.d->MinClone(), ob.r, ob.g}); c.note << "clone#" << o << "; "; hist = true; continue; }
        if (op == 1) { int t2 = (int)c.draw(d.nt), it2 = c.coin() ? itype : 0; ob.d->Load(fn, t2, cinterp[it2], path); objs[o].r = make_shared<CodeRef>(d, t2, it2); objs[o].g = groups++; c.note << "reload#" << o << " t=" << t2 << " interp" << it2 << "; "; hist = true; c.label("reload"); continue; }
        if (op == 2) {
            bool lg = c.coin(), ut = c.coin(); unsigned nxi = (unsigned)c.range(5, 9), np = (unsigned)R.p.size(); bool cub = np >= 4 && !lg && c.coin(); MSDF *m = ob.d->ToMomentumSpace(lg, ut, nxi, cub ? CUB : LIN); if (c.coin()) m = m->MinClone(); hist = true; c.label("converted"); c.note << "convert#" << o << " log=" << lg << " theta=" << ut << " nxi=" << nxi << "; ";
            vector<ld> xs(nxi); for (unsigned i = 0; i < nxi; i++) xs[i] = ut ? cosl(PIL*(nxi-1-i)/(nxi-1)) : -1 + 2*(ld)i/(nxi-1);
            for (int q = 0; q < 4; q++) { unsigned i = (unsigned)c.draw(nxi), j = (unsigned)c.draw(np); double xi = ut ? cos(M_PI*((double)(nxi-i-1))/((double)nxi-1.0)) : -1.0 + 2*((double)i)/((double)nxi-1.0); double got = m->Eval(R.p[j], xi); ld s = 0, sc = 0; for (size_t l = 0; l < R.f.size(); l++) { ld v = R.f[l][j] * CodeRef::leg((int)l, xs[i]) * (l % 2 ? -1 : 1); s += v; sc += fabsl(v); }
                if (lg) { bool near0 = false; for (int di = -1; di <= 1; di++) for (int dj = -1; dj <= 1; dj++) { int a = (int)i + di, b = (int)j + dj; if (a < 0 || b < 0 || a >= (int)nxi || b >= (int)np) continue; ld z = 0; for (size_t l = 0; l < R.f.size(); l++) z += R.f[l][b] * CodeRef::leg((int)l, xs[a]) * (l % 2 ? -1 : 1); if (z <= 1e-9 * R.amp) near0 = true; } if (near0 && got == 0) continue; if (s <= 1e-9 * R.amp) { c.require(got >= 0 && got <= 1e-8 * R.amp, "converted distribution where the sum is not positive is " + str(got)); continue; } }
                c.close(got, (double)s, 1e-9, 1e-10 * (double)sc, "converted distribution at grid point p=" + str(R.p[j]) + " xi=" + str(xi)); }
            lastx = ut ? -1 : (double)xs[nxi-1]; continue; }
        double p = evp(c, R.p), xi = c.chance(40) ? lastx : c.chance(20) ? max(-1., min(1., lastx + (c.coin() ? 1 : -1) * c.logreal(1e-9, 1e-2))) : c.real(-1, 1); lastx = xi; c.note << "eval#" << o << "(" << str(p) << "," << str(xi) << "); "; double got = c.coin() ? ob.d->Eval(p, xi) : ob.d->Eval(c.bulk(0, 2), p, xi, c.bulk(-1, 1)); chkcode(c, got, R, p, xi, "value of object #" + to_string(o)); pos |= got > 0;
    }
    for (auto& q : objs) delete q.d;
    c.nontrivial(d.nleg >= 2 && pos && hist); c.label("interp" + to_string(itype)); c.label(fn.substr(fn.rfind('.')));
}
// A file with one variable of another shape, type or value: loaded or refused, and whatever was loaded can be used.
template<class L, class E> static void mangled(Ctx& c, const string& fn, L load, E eval) {
    mangle(c, fn); decltype(load()) d = nullptr; bool rf = refused(c, [&]{ d = load(); }, "mangled file"); c.label(rf ? "mangled: refused" : "mangled: loaded"); c.nontrivial(); if (rf) return;
    for (int k = (int)c.range(1, 6); k > 0; k--) { double r = c.bulk(0, 10), p = c.logreal(1e-3, 100), x = c.bulk(-1, 1); refused(c, [&]{ eval(d, r, p, x); }, "evaluation of a mangled distribution"); } refused(c, [&]{ auto *e = d->MinClone(); eval(e, 1.5, 1.0, 0.5); delete e; }, "clone of a mangled distribution"); delete d;
}
FACET("P14", code_bad_files, 1200, "the file or request is defective in one respect") {
    int itype = c.coin() ? 0 : (int)c.draw(7); Codef d = gencode(c, itype, false); int bad = (int)c.draw(14), time = (int)c.range(-d.nt, d.nt - 1), it = cinterp[itype]; if (bad == 13) { size_t keep = max(itype == 3 ? 3 : 2, (int)gsl_interp_type_min_size(gtype(itype))) - 1, np = d.y.size(); for (auto& v : d.f) { vector<double> w; for (int l = 0; l < d.nleg; l++) w.insert(w.end(), v.begin() + l * np, v.begin() + l * np + keep); v = w; } d.y.resize(keep); } string fn = c.tmp(fmt(c)), path;
    if (bad == 9) time = c.coin() ? d.nt + (int)c.draw(3) : -d.nt - 1 - (int)c.draw(3); if (bad == 10) it = c.coin() ? 7 + (int)c.draw(5) : -1 - (int)c.draw(3); if (bad == 11) path = "nosuch";
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); wrcode(c, sf.get(), d, "", bad); sf->Close(); }
    if (c.chance(25)) { { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); wrcode(c, sf.get(), d, ""); sf->Close(); } mangled(c, fn, [&]{ return new CODEDistributionFunction(fn, time, cinterp[itype]); }, [](CODEDistributionFunction *q, double, double p, double x) { q->Eval(p, x); }); return; }
    c.note << fn.substr(fn.rfind('.')) << " defect " << bad << " np=" << d.y.size() << " nt=" << d.nt << " time=" << time; c.label("defect" + to_string(bad)); c.require(refused(c, [&]{ CODEDistributionFunction x(fn, time, it, path); }, "defective file"), "defective file or request was accepted"); c.nontrivial();
}
// a field with magnetic axis radius Rm and largest launch radius Rm + a: analytical, or on a grid with a
// separatrix (and possibly a wall of another size) or with a wall alone
static MagneticField2D *mkmf(Ctx& c, double& Rm, double& a) {
    Rm = c.bulk(1, 6); a = c.bulk(0.2, 0.8) * Rm;
    if (c.chance(60)) return new MagneticFieldAnalytical2D(c.bulk(1, 6), Rm, c.coin() ? 0 : c.bulk(-0.5, 0.5), a, MFAFS_CW, MFAFS_CCW, MFASF_CONSTANT, c.bulk(1, 4), 0);
    const unsigned n = 5; double z0 = c.coin() ? 0 : c.bulk(-0.5, 0.5), h = c.bulk(0.5, 2); double *R = new double[n], *Z = new double[n], *B[3]; for (unsigned i = 0; i < n; i++) { R[i] = Rm + (i - 2.0) * a; Z[i] = z0 + (i - 2.0) * h; }
    for (auto& b : B) { b = new double[n * n]; for (unsigned i = 0; i < n * n; i++) b[i] = c.bulk(-3, 3); }
    auto poly = [&](double x, double *&r, double *&z) { r = new double[4]{Rm + x, Rm, Rm - x, Rm}; z = new double[4]{z0, z0 + h * x / a, z0, z0 - h * x / a}; };
    int kind = (int)c.draw(3); double *rs = nullptr, *zs = nullptr, *rw = nullptr, *zw = nullptr; if (kind < 2) poly(a, rs, zs); if (kind > 0) poly(kind == 1 ? a * c.bulk(1.1, 1.6) : a, rw, zw);
    c.note << (kind == 0 ? "grid field with separatrix; " : kind == 1 ? "grid field with separatrix and wall; " : "grid field with wall; "); c.label("grid field");
    auto *m = new MagneticFieldNumeric2D("m", "m", R, Z, n, n, B[0], B[1], B[2], nullptr, Rm, z0, rs, zs, rs ? 4 : 0, rw, zw, rw ? 4 : 0); a = (Rm + a) - Rm; return m;
}
FACET("P14", gocode, 900, "at least three radii and an evaluation strictly between two of them (or a defect)") {
    int itype = c.coin() ? 0 : (int)c.draw(7), nr = c.chance(5) ? (int)c.range(10, 13) : (int)c.range(1, 5), nt = nr < 6 && c.chance(5) ? (int)c.range(10, 12) : (int)c.range(1, 3), bad = c.chance(25) ? (int)c.draw(6) : -1; double Rm, am; unique_ptr<MagneticField2D> mf(mkmf(c, Rm, am)); string fn = c.tmp(fmt(c)); int time = (int)c.range(-nt, nt - 1); if (bad == 0) time = c.coin() ? nt + (int)c.draw(2) : -nt - 1;
    if ((bad == 1 || bad == 4 || bad == 5) && nr < 2) nr = 2; vector<double> r = nr == 1 ? vector<double>{c.bulk(0, 1)} : grid(c, nr, c.coin() ? 0 : c.bulk(0, 0.3), c.bulk(0.5, 2)); int ng = nt + (bad == 0 && c.coin() ? 2 : 0); vector<vector<Codef>> cd(ng); if (bad == 1) { size_t k = 1 + c.draw(nr - 1); r[k] = r[k-1] - (c.coin() ? 0 : 0.1); }
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); if (bad == 2) sf->WriteString("type", c.pickl<string>({"distribution/soft", "gocode", "distribution/gocod", ""})); else if (c.coin()) sf->WriteString("type", "distribution/gocode"); wrv2(c, sf.get(), "r", r, bad == 5); wrsc(c, sf.get(), "nt", nt);
      for (int t = 0; t < ng; t++) { sf->CreateStruct("t" + to_string(t)); for (int i = 0; i < nr; i++) { cd[t].push_back(gencode(c, itype, false, 2)); if (i) { Codef &q = cd[t][i], &q0 = cd[t][0]; q.hasn = q0.hasn; q.hasT = q0.hasT; q.nref = q.hasn ? q0.nref * c.logreal(0.1, 10) : 1; q.Tref = q.hasT ? q0.Tref * c.logreal(0.5, 2) : 1; } string g = "t" + to_string(t) + "/r" + to_string(i); if (bad == 3 && i == nr - 1) continue; sf->CreateStruct(g); wrcode(c, sf.get(), cd[t][i], g + "/", bad == 4 && i == nr - 1 ? 8 : -1); } } sf->Close(); }
    c.note << fn.substr(fn.rfind('.')) << " interp" << itype << " r=" << strv(r) << " nt=" << nt << " time=" << time << " Rm=" << str(Rm) << " defect=" << bad << "; ";
    if (bad < 0 && c.chance(12)) { mangled(c, fn, [&]{ return new GOCODEDistributionFunction(fn, mf.get(), time, cinterp[itype]); }, [](auto *q, double r, double p, double x) { q->Eval(r, p, x); }); return; }
    if (bad >= 0) { c.require(refused(c, [&]{ GOCODEDistributionFunction x(fn, mf.get(), time, cinterp[itype]); }, "defective file"), "defective GO+CODE file or request was accepted"); c.nontrivial(); c.label("defect" + to_string(bad)); return; }
    int tt = time < 0 ? nt + time : time; GOCODEDistributionFunction *g = itype == 0 && c.coin() ? new GOCODEDistributionFunction(fn, mf.get(), time) : new GOCODEDistributionFunction(fn, mf.get(), time, cinterp[itype]); vector<CodeRef> refs; for (int i = 0; i < nr; i++) refs.push_back(CodeRef(cd[tt][i], 0, itype)); vector<double> R; for (double x : r) R.push_back(x + Rm); vector<GOCODEDistributionFunction*> objs = {g}; bool btw = false;
    int n = (int)c.range(3, 10); for (int k = 0; k < n; k++) { if (c.chance(15)) { objs.push_back(objs[c.draw(objs.size())]->MinClone()); continue; } if (objs.size() > 1 && c.chance(10)) { size_t o = c.draw(objs.size()); delete objs[o]; objs.erase(objs.begin() + o); c.label("deleted"); continue; }
        double rho; switch (c.draw(5)) { case 0: rho = R[c.draw(nr)]; break; case 1: rho = R[0] - c.bulk(0, 1); break; case 2: rho = R[nr-1] + c.bulk(0, 1); break; default: rho = c.bulk(R[0], R[nr-1]); } double sh = c.coin() ? 0 : (double)c.range(-4, 4) / 8, rr = rho + sh; rho = rr - sh; const CodeRef& any = refs[c.draw(nr)]; double p = evp(c, any.p), xi = c.real(-1, 1); GOCODEDistributionFunction *ob = objs[c.draw(objs.size())];
        c.note << "eval(" << str(rr) << "," << str(p) << "," << str(xi) << "," << str(sh) << "); "; double got = ob->Eval(rr, p, xi, sh); if (nr == 1) { chkcode(c, got, refs[0], p, xi, "single-radius value"); continue; }
        int i = 0; while (i + 2 < nr && rho >= R[i+1]) i++; ld s0, s1, w1 = ((ld)rho-R[i])/((ld)R[i+1]-R[i]), w0 = 1 - w1, f0 = refs[i].ev(p, xi, s0), f1 = refs[i+1].ev(p, xi, s1); double wt = 0; for (auto& q : refs) wt = max(wt, q.amp); wt *= 1e-14 * (fabs(rho) + fabs(rr) + 1) / (R[i+1] - R[i]); c.close(got, (double)(w0*f0+w1*f1), 1e-10, wt * 10 + 1e-10 * (double)(fabsl(w0)*(s0+refs[i].amp*refs[i].in(p)) + fabsl(w1)*(s1+refs[i+1].amp*refs[i+1].in(p))) , "radial value at rho=" + str(rho)); btw |= rho > R[0] && rho < R[nr-1] && got > 0; }
    for (auto *o : objs) delete o;
    c.nontrivial(nr >= 3 && btw); c.label("nr" + to_string(nr));
}

// ---------------------------------------------------------------- P15
static void evalall(Ctx& c, NDF *d, const RModel& m, bool& between, const string& what) {
    vector<NDF*> objs = {d}; int n = (int)c.range(3, 9);
    struct Fin { vector<NDF*>& v; ~Fin() { for (size_t i = 1; i < v.size(); i++) delete v[i]; } } fin{objs};
    for (int k = 0; k < n; k++) { if (c.chance(15)) { objs.push_back(objs[c.draw(objs.size())]->MinClone()); continue; } if (objs.size() > 1 && c.chance(10)) { delete objs.back(); objs.pop_back(); continue; }
        NDF *o = objs[c.draw(objs.size())]; double rho = evr(c, m.rt), sh = c.coin() ? 0 : (double)c.range(-4, 4) / 8, r = rho + sh; rho = r - sh; const RTab *any = m.rt[c.draw(m.rt.size())]; double p = evp(c, any->t.p), x = evp(c, any->t.xi); bool pe = false; for (auto *t : m.rt) for (double e : {t->t.p[0], t->t.p.back()}) if (p != 0 && fabs(p - e) < 1e-13 * fabs(e)) pe = true; if (pe) continue; // end of a unit-converted grid
        c.note << "eval(" << str(r) << "," << str(p) << "," << str(x) << "," << str(sh) << "); "; vector<ld> w; double tol; m.ev(rho, p, x, w, tol); ld mg = 0; for (auto *t : m.rt) mg = max(mg, (ld)t->t.mag()); double amp = m.rt.size() > 1 ? 1 + 2 * (double)(fabsl(rho) + 10) / (m.rt.back()->r - m.rt[0]->r) : 1; oneof(c, o->Eval(r, p, x, sh), w, 1e-10, tol * 10 + 1e-12 * amp * (double)mg, what); between |= w[0] != 0 && m.rt.size() > 1 && rho > m.rt[0]->r && rho < m.rt.back()->r; }
}
FACET("P15", soft, 1500, "several radii evaluated between two of them, one radius loaded alone, or a defective file") {
    int nr = c.chance(6) ? (int)c.range(10, 14) : (int)c.range(1, 4), bad = c.chance(30) ? (int)c.draw(11) : -1; bool lg = c.coin(), cub = c.coin(); double Rm, am; unique_ptr<MagneticField2D> mf; bool usemf = c.coin(); if (usemf) mf.reset(mkmf(c, Rm, am)); else Rm = 0; string fn = c.tmp(fmt(c)); if ((bad == 0 || bad == 8) && nr < 2) nr = 2;
    vector<double> r = nr == 1 ? vector<double>{c.bulk(0, 1)} : grid(c, nr, c.coin() ? 0 : c.bulk(0, 0.3), c.bulk(0.5, 2)); if (bad == 0) { size_t k = 1 + c.draw(nr - 1); r[k] = r[k-1] - (c.coin() ? 0 : 0.1); }
    vector<unique_ptr<RTab>> own; RModel m; int bi = (int)c.draw(nr);
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); if (bad == 1) sf->WriteString("type", c.pickl<string>({"distribution/gocode", "soft", "", "distribution/softx"})); else if (c.coin()) sf->WriteString("type", "distribution/soft"); if (bad != 2) wrv2(c, sf.get(), "r", r, bad == 8);
      for (int i = 0; i < nr; i++) { Tab t = gentab(c, lg, cub, 6); string g = "r" + to_string(i); sf->CreateStruct(g); vector<double> P = t.p, X = t.xi; sfilesize_t np = P.size(), nx = X.size(); bool B = i == bi; if (B && bad == 3) P[1] = P[0]; if (B && bad == 4) swap(X[0], X[1]); if (!(B && bad == 5)) wrv2(c, sf.get(), g + "/p", P, B && bad == 9); wrv2(c, sf.get(), g + "/xi", X, B && bad == 10); vector<double> F = t.f; if (B && bad == 6) { if (c.coin() && np != nx) swap(np, nx); else { F.insert(F.end(), t.f.begin(), t.f.begin() + np); nx++; } } if (!(B && bad == 7)) wr(sf.get(), g + "/f", F, nx, np);
        own.emplace_back(new RTab{r[i] + Rm, t, t.p, t.xi, t.f}); m.rt.push_back(own.back().get()); } sf->Close(); }
    c.note << fn.substr(fn.rfind('.')) << (lg ? " log" : " lin") << (cub ? " cubic" : " linear") << " r=" << strv(r) << " Rm=" << str(Rm) << " defect=" << bad << "; "; c.label(fn.substr(fn.rfind('.')));
    if (bad < 0 && c.chance(12)) { mangled(c, fn, [&]{ return new SOFTDistributionFunction(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, [](auto *q, double r, double p, double x) { q->Eval(r, p, x); }); return; }
    if (bad >= 0) { c.label("defect" + to_string(bad)); c.require(refused(c, [&]{ SOFTDistributionFunction x(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, "defective file"), "defective SOFT file was accepted"); c.nontrivial(); return; }
    if (c.chance(35)) { unsigned k = (unsigned)c.draw(nr + 1); MSDF *d = nullptr; bool rf = refused(c, [&]{ d = lg && cub && c.coin() ? (k == 0 ? SOFTDistributionFunction::LoadMomentumSpace(fn, mf.get()) : SOFTDistributionFunction::LoadMomentumSpace(fn, mf.get(), lg, k)) : SOFTDistributionFunction::LoadMomentumSpace(fn, mf.get(), lg, k, cub ? CUB : LIN); }, "single radius"); c.require(rf == (k == (unsigned)nr), rf ? "valid radial index was refused" : "radial index out of range was accepted"); c.nontrivial(); c.label("single radius"); if (!rf) for (int q = 0; q < 5; q++) { const Tab& t = m.rt[k]->t; double p = evp(c, t.p), x = evp(c, t.xi); oneof(c, d->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value at radius " + to_string(k)); if (c.chance(20)) { MSDF *e = d->MinClone(); e = c.coin() ? e : e->MinClone(); oneof(c, e->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value of the clone at radius " + to_string(k)); c.label("single radius clone"); if (c.coin()) { delete e; } } } return; }
    bool btw = false; SOFTDistributionFunction *d = lg && cub && c.coin() ? new SOFTDistributionFunction(fn, mf.get()) : new SOFTDistributionFunction(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); evalall(c, d, m, btw, "SOFT distribution"); delete d; c.nontrivial(btw);
}
FACET("P15", depr_soft, 1500, "several radii evaluated between two of them, units other than normalised, one radius loaded alone, or a defective file") {
    int nr = c.chance(5) ? (int)c.range(10, 30) : (int)c.range(1, 4), bad = c.chance(35) ? (int)c.draw(11) : -1; bool lg = c.coin(), cub = c.coin(); string fn = c.tmp(fmt(c)); if (bad == 0 && nr < 3) nr = 3; if (bad == 8 && nr < 2) nr = 2; Tab t0 = gentab(c, lg, cub, 5); size_t np = t0.p.size(), nx = t0.xi.size(), N = np * nx; int un = (int)c.draw(3); double nf = un == 0 ? 5.109989461e5 : un == 1 ? 1 : 9.10938356e-31 * 299792458.0; string units = un == 0 ? "ev" : un == 1 ? "normalized" : "si"; if (bad == 1) units = c.pickl<string>({"eV", "EV", "keV", "norm", "", "SI", "n"});
    vector<double> r = nr == 1 ? vector<double>{c.bulk(0, 1)} : grid(c, nr, c.coin() ? 0 : c.bulk(0, 0.3), c.bulk(0.5, 2)); vector<double> rw = r; if (bad == 0) rw[1] = rw[0] - (rw[2] - rw[0]); bool desc = bad < 0 && c.chance(25); if (desc) reverse(rw.begin(), rw.end());
    vector<double> all, pw; for (double p : t0.p) pw.push_back(p * nf); vector<unique_ptr<RTab>> own; RModel m; vector<Tab> ts; for (int i = 0; i < nr; i++) { Tab t = t0; for (size_t k = 0; k < np; k++) t.p[k] = pw[k] / nf; if (i) for (size_t k = 0; k < N; k++) t.f[k] = lg ? t0.f[k] * c.logreal(0.3, 3) : c.bulk(-1, 1) * t0.mag(); ts.push_back(t); all.insert(all.end(), t.f.begin(), t.f.end()); }
    for (int i = 0; i < nr; i++) { const Tab& t = ts[desc ? nr - 1 - i : i]; own.emplace_back(new RTab{r[i], t, t.p, t.xi, t.f}); m.rt.push_back(own.back().get()); } int ver = bad == 2 ? 7 : (int)c.draw(8), bv = (int)c.draw(3);
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); wrv2(c, sf.get(), "r", rw, bad == 8); if (bad == 3) pw[1] = pw[0]; if (bad != 4) wrv2(c, sf.get(), "p", pw, bad == 9); wrv2(c, sf.get(), "xi", t0.xi, bad == 10); vector<double> F = all; if (bad == 5) F.insert(F.end(), all.begin(), all.begin() + np); switch (bad == 5 ? 1 : c.draw(3)) { case 0: wr(sf.get(), "f", F, nr, N); break; case 1: wr(sf.get(), "f", F, 1, F.size()); break; default: wr(sf.get(), "f", F, F.size(), 1); }
      const char *vn[3] = {"fp0", "fxi0", "fr0"}; size_t len[3] = {np, nx, (size_t)nr}, st[3] = {1, np, N}; for (int v = 0; v < 3; v++) if (ver >> v & 1) { size_t L = c.coin() ? len[v] : 1 + c.draw(len[v]); vector<double> q; for (size_t i = 0; i < L; i++) q.push_back(all[i * st[v]]); if (bad == 2 && v == bv) { size_t k = c.draw(L); q[k] = q[k] == 0 ? 1e-3 : q[k] * (1 + (c.coin() ? 1 : -1) * c.logreal(1e-12, 1)); } if (bad == 7 && v == bv) { q.resize(len[v] + 1, 0); } wrvec(c, sf.get(), vn[v], q); } else if (bad == 7 && v == bv) { wrvec(c, sf.get(), vn[v], vector<double>(len[v] + 1, 0.0)); }
      if (bad != 6) sf->WriteString("punits", units); sf->Close(); }
    c.note << fn.substr(fn.rfind('.')) << (lg ? " log" : " lin") << (cub ? " cubic" : " linear") << " r=" << strv(rw) << " p=" << strv(pw) << " xi=" << strv(t0.xi) << " units=" << units << " verify=" << ver << " defect=" << bad << "; "; c.label("units" + to_string(un));
    if (bad < 0 && c.chance(12)) { mangled(c, fn, [&]{ return new deprSOFTDistributionFunction(fn, nullptr, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, [](auto *q, double r, double p, double x) { q->Eval(r, p, x); }); return; }
    if (bad >= 0) { c.label("defect" + to_string(bad)); c.require(refused(c, [&]{ deprSOFTDistributionFunction x(fn, nullptr, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, "defective file"), "defective file was accepted"); c.nontrivial(); return; }
    if (c.chance(35)) { unsigned k = (unsigned)c.draw(nr + 1); MSDF *d = nullptr; bool rf = refused(c, [&]{ d = lg && cub && c.coin() ? (k == 0 ? deprSOFTDistributionFunction::LoadMomentumSpace(fn, nullptr) : deprSOFTDistributionFunction::LoadMomentumSpace(fn, nullptr, lg, k)) : deprSOFTDistributionFunction::LoadMomentumSpace(fn, nullptr, lg, k, cub ? CUB : LIN); }, "single radius"); c.require(rf == (k == (unsigned)nr), rf ? "valid radial index was refused" : "radial index out of range was accepted"); c.nontrivial(); c.label("single radius"); if (!rf) for (int q = 0; q < 5; q++) { const Tab& t = ts[k]; double p = evp(c, t.p), x = evp(c, t.xi); oneof(c, d->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value at radius " + to_string(k)); if (c.chance(20)) { MSDF *e = d->MinClone(); e = c.coin() ? e : e->MinClone(); oneof(c, e->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value of the clone at radius " + to_string(k)); c.label("single radius clone"); if (c.coin()) { delete e; } } } return; }
    bool btw = false; auto *d = lg && cub && c.coin() ? new deprSOFTDistributionFunction(fn) : new deprSOFTDistributionFunction(fn, nullptr, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); evalall(c, d, m, btw, "old-format SOFT distribution"); delete d; c.nontrivial(btw || un != 1);
}
FACET("P15", dream, 1200, "several time slices or radii with an evaluation between two radii, or a defective file or request") {
    int nr = c.chance(5) ? (int)c.range(8, 16) : (int)c.range(1, 4), nt = c.chance(5) ? (int)c.range(8, 16) : (int)c.range(1, 4), bad = c.chance(35) ? (int)c.draw(10) : -1; bool lg = c.coin(), cub = c.chance(30), re = c.coin(), both = c.chance(25); string fn = c.tmp(fmt(c, true)); double Rm = 0, am; unique_ptr<MagneticField2D> mf; if (c.coin()) mf.reset(mkmf(c, Rm, am)); if (bad == 0 && nr < 2) nr = 2;
    Tab t0 = gentab(c, lg, cub, 5), tb = gentab(c, lg, cub, 5); vector<double> r = nr == 1 ? vector<double>{c.bulk(0, 1)} : grid(c, nr, c.coin() ? 0 : c.bulk(0, 0.3), c.bulk(0.5, 2)); if (bad == 0) { size_t k = 1 + c.draw(nr - 1); r[k] = r[k-1] - (c.coin() ? 0 : 0.1); }
    int time = (int)c.range(-nt, nt - 1); if (bad == 1) time = c.coin() ? nt + (int)c.draw(3) : -nt - 1 - (int)c.draw(3); int tt = time < 0 ? nt + time : time; vector<unique_ptr<RTab>> own; RModel m; string name = c.pickl<string>({"", re ? "f_re" : "f_hot", re ? "/eqsys/f_re" : "/eqsys/f_hot"}); if (both && name == "" ) re = true; if (bad == 2) name = c.pickl<string>({"f_x", "/eqsys/n_re", "f", "/f_re"}); if (bad == 9) name = "";
    auto put = [&](SFile *sf, const string& dn, const string& gn, const Tab& t, bool model) { size_t np = t.p.size(), nx = t.xi.size(), N = np * nx; vector<double> all; for (int k = 0; k < nt; k++) for (int i = 0; i < nr; i++) { Tab u = t; for (size_t q = 0; q < N; q++) u.f[q] = lg ? t.f[q] * c.logreal(0.3, 3) : c.bulk(-1, 1) * t.mag(); all.insert(all.end(), u.f.begin(), u.f.end()); if (model && k == tt) { own.emplace_back(new RTab{r[i] + Rm, u, u.p, u.xi, u.f}); m.rt.push_back(own.back().get()); } }
        sfilesize_t dims[4] = {(sfilesize_t)nt, (sfilesize_t)nr, nx, np}; if (model && bad == 3) { dims[1] = nx; dims[2] = nr; if ((size_t)nr == nx) { dims[2] = np; dims[3] = nx; dims[1] = nr; if (np == nx) { dims[0] = 1; dims[1] = nt * nr; if (nt == 1) { dims[0] = nr; dims[1] = nt; if (nr == 1) { dims[2] = 1; dims[3] = nx * np; } } } } }
        if (model && bad == 4) { sfilesize_t d3[3] = {(sfilesize_t)nt * nr, nx, np}; sf->WriteMultiArray("eqsys/" + dn, all.data(), 3, d3); } else sf->WriteMultiArray("eqsys/" + dn, all.data(), 4, dims); sf->CreateStruct("grid/" + gn); vector<double> P = t.p, X = t.xi; if (model && bad == 5) { size_t k = 1 + c.draw(np - 1); P[k] = P[k-1]; } if (model && bad == 6) X.push_back(2); sf->WriteList("grid/" + gn + "/p1", P.data(), P.size()); sf->WriteList("grid/" + gn + "/p2", X.data(), X.size()); };
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); sf->CreateStruct("eqsys"); sf->CreateStruct("grid"); vector<double> tv; for (int k = 0; k < nt + (bad == 7 ? 1 : 0); k++) tv.push_back(k * 0.1); sf->WriteList("grid/t", tv.data(), tv.size()); if (bad != 8) sf->WriteList("grid/r", r.data(), r.size()); if (bad == 2) { double q = 1; sf->WriteList("eqsys/n_re", &q, 1); sf->WriteList("eqsys/f_x", &q, 1); } if (both && bad != 9) put(sf.get(), re ? "f_hot" : "f_re", re ? "hottail" : "runaway", tb, false); put(sf.get(), bad == 9 ? (re ? "n_re" : "f_x") : re ? "f_re" : "f_hot", re ? "runaway" : "hottail", t0, true); sf->Close(); }
    c.note << fn.substr(fn.rfind('.')) << (lg ? " log" : " lin") << (cub ? " cubic" : " linear") << " name=" << name << " nt=" << nt << " time=" << time << " r=" << strv(r) << " np=" << t0.p.size() << " nxi=" << t0.xi.size() << " Rm=" << str(Rm) << " defect=" << bad << "; ";
    if (bad < 0 && c.chance(12)) { mangled(c, fn, [&]{ return new DREAMDistributionFunction(fn, mf.get(), name, time, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, [](auto *q, double r, double p, double x) { q->Eval(r, p, x); }); return; }
    if (bad >= 0) { c.label("defect" + to_string(bad)); c.require(refused(c, [&]{ DREAMDistributionFunction x(fn, mf.get(), name, time, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, "defective file"), "defective DREAM file or request was accepted"); c.nontrivial(); return; }
    bool btw = false; auto *d = name == "" && time == -1 && !lg && !cub && c.coin() ? new DREAMDistributionFunction(fn, mf.get()) : new DREAMDistributionFunction(fn, mf.get(), name, time, lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); if (both) c.label("both distributions");
    NDF *cl = c.coin() ? d->MinClone() : nullptr; evalall(c, d, m, btw, "DREAM distribution"); if (cl) { evalall(c, cl, m, btw, "clone of a DREAM distribution"); delete cl; evalall(c, d, m, btw, "DREAM distribution after its clone was destroyed"); } delete d; c.nontrivial(btw || nt > 1);
}
FACET("P15", luke, 1200, "several radii evaluated between two of them, one radius loaded alone, or a defective file") {
    int nr = c.chance(5) ? (int)c.range(10, 30) : (int)c.range(2, 4), bad = c.chance(30) ? (int)c.draw(9) : -1; bool lg = c.coin(), cub = c.coin(); string fn = c.tmp(fmt(c, true)); double Rm, am; unique_ptr<MagneticField2D> mf(mkmf(c, Rm, am)); Tab t0 = gentab(c, lg, cub, 5); double beta = c.logreal(0.01, 2); size_t np = t0.p.size(), nx = t0.xi.size(), N = np * nx; vector<double> pw; for (double p : t0.p) pw.push_back(p / beta); for (size_t k = 0; k < np; k++) t0.p[k] = pw[k] * beta;
    vector<double> xr = grid(c, nr, c.coin() ? 0 : c.bulk(0, 0.3), c.coin() ? 1 : c.bulk(0.5, 0.95)), all; if (bad == 0) { if (nr > 2 && c.coin()) { swap(xr[1], xr[2]); } else xr[1] = xr[0]; } vector<unique_ptr<RTab>> own; RModel m; for (int i = 0; i < nr; i++) { Tab t = t0; for (size_t k = 0; k < N; k++) t.f[k] = lg ? t0.f[k] * c.logreal(0.3, 3) : c.bulk(-1, 1) * t0.mag(); all.insert(all.end(), t.f.begin(), t.f.end()); own.emplace_back(new RTab{Rm + xr[i] * am, t, t.p, t.xi, t.f}); m.rt.push_back(own.back().get()); }
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); wrv2(c, sf.get(), "xrhoG", xr, bad == 6); if (bad != 1) wrv2(c, sf.get(), "pn", pw, bad == 7); if (bad == 2) wr(sf.get(), "betath_ref", {beta, beta}, 1, 2); else wrsc(c, sf.get(), "betath_ref", beta); vector<double> X = t0.xi; if (bad == 3) X.push_back(2); wrv2(c, sf.get(), "mhu", X, bad == 8); sfilesize_t d3[3] = {(sfilesize_t)nr, nx, np}; if (bad == 4) { sfilesize_t d2[2] = {(sfilesize_t)nr, nx * np}; sf->WriteMultiArray("f", all.data(), 2, d2); } else if (bad == 5) { vector<double> F = all; F.insert(F.end(), all.begin(), all.begin() + N); d3[0]++; sf->WriteMultiArray("f", F.data(), 3, d3); } else sf->WriteMultiArray("f", all.data(), 3, d3); sf->Close(); }
    c.note << fn.substr(fn.rfind('.')) << (lg ? " log" : " lin") << (cub ? " cubic" : " linear") << " xrhoG=" << strv(xr) << " p=" << strv(t0.p) << " beta=" << str(beta) << " xi=" << strv(t0.xi) << " Rm=" << str(Rm) << " a=" << str(am) << " defect=" << bad << "; ";
    if (bad < 0 && c.chance(12)) { mangled(c, fn, [&]{ return new LUKEDistributionFunction(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, [](auto *q, double r, double p, double x) { q->Eval(r, p, x); }); return; }
    if (bad >= 0) { c.label("defect" + to_string(bad)); c.require(refused(c, [&]{ LUKEDistributionFunction x(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); }, "defective file"), "defective LUKE file was accepted"); c.nontrivial(); return; }
    if (c.chance(30)) { unsigned k = (unsigned)c.draw(nr + 1); MSDF *d = nullptr; bool rf = refused(c, [&]{ d = lg && cub && c.coin() ? (k == 0 ? LUKEDistributionFunction::LoadMomentumSpace(fn, mf.get()) : LUKEDistributionFunction::LoadMomentumSpace(fn, mf.get(), lg, k)) : LUKEDistributionFunction::LoadMomentumSpace(fn, mf.get(), lg, k, cub ? CUB : LIN); }, "single radius"); c.require(rf == (k == (unsigned)nr), rf ? "valid radial index was refused" : "radial index out of range was accepted"); c.nontrivial(); c.label("single radius"); if (!rf) for (int q = 0; q < 5; q++) { const Tab& t = m.rt[k]->t; double p = evp(c, t.p), x = evp(c, t.xi); oneof(c, d->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value at radius " + to_string(k)); if (c.chance(20)) { MSDF *e = d->MinClone(); e = c.coin() ? e : e->MinClone(); oneof(c, e->Eval(p, x), t.ev(p, x), t.rtol() * 10, t.atol() * 10, "value of the clone at radius " + to_string(k)); c.label("single radius clone"); if (c.coin()) { delete e; } } } return; }
    bool btw = false; auto *d = lg && cub && c.coin() ? new LUKEDistributionFunction(fn, mf.get()) : new LUKEDistributionFunction(fn, mf.get(), lg, cub ? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR); evalall(c, d, m, btw, "LUKE distribution"); delete d; c.nontrivial(btw);
}
