// P24 concurrent use: runs under helgrind (see check.py), which sees every
// memory access of the library and of GSL and reports conflicting accesses
// that no synchronisation orders, whatever the actual schedule was.
#include "dist_model.h"
#include <fstream>
#include <functional>
#include <memory>
#include <thread>
#include <unistd.h>
#include <valgrind/valgrind.h>
#include <valgrind/helgrind.h>
#include <softlib/config.h>
#include <softlib/SFile.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/RKDP45.h>
#include <softlib/Integration/PeakedIntegration.h>
#include <softlib/Timer.h>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
typedef NumericMomentumSpaceDistributionFunction MSDF;
typedef NumericDistributionFunction NDF;
typedef function<void(vector<double>&)> Act;

static string racelog() {       // first report of this process
    const char *p = getenv("PBT_HG_LOG"); if (!p) return "";
    ifstream is(string(p) + "." + to_string(getpid())); string l, s; bool on = false; int n = 0;
    while (getline(is, l)) { size_t k = l.find("== "); if (k != string::npos) l = l.substr(k + 3); if (l.find("Possible data race") != string::npos) on = true; if (on && !l.empty()) { s += l + "\n"; if (++n > 24) break; } }
    return s;
}
// Runs all actors at the same time, the first one in this thread.
static void concurrently(Ctx& c, const vector<Act>& acts, const vector<vector<double>>& want) {
    size_t n = acts.size(); vector<vector<double>> got(n); vector<string> err(n); long before = VALGRIND_COUNT_ERRORS;
    auto one = [&](size_t i) { try { acts[i](got[i]); } catch (exception& e) { err[i] = e.what(); } };
    { vector<thread> t; for (size_t i = 1; i < n; i++) t.emplace_back(one, i); one(0); for (auto& x : t) x.join(); }
    if ((long)VALGRIND_COUNT_ERRORS > before) c.fail("unordered conflicting memory accesses by threads that use different objects\n" + racelog());
    for (size_t i = 0; i < n; i++) { c.require(err[i].empty(), "thread " + to_string(i) + " failed: " + err[i]); c.require(got[i].size() == want[i].size(), "thread " + to_string(i) + " returned another number of results"); for (size_t k = 0; k < got[i].size(); k++) c.same(got[i][k], want[i][k], "result " + to_string(k) + " of thread " + to_string(i)); }
}

// ---------------------------------------------------------------- distributions
struct Keep { vector<unique_ptr<vector<double>>> v; double *add(const vector<double>& x) { v.emplace_back(new vector<double>(x)); return v.back()->data(); } };
static MSDF *mkms(Ctx& c, Keep& k, vector<double>& P, vector<double>& X) { bool lg = c.coin(), cub = c.coin(); Tab t = gentab(c, lg, cub, 6); P = t.p; X = t.xi; MSDF *d = new MSDF(); if (lg) d->InitializeLog(t.p.size(), t.xi.size(), k.add(t.p), k.add(t.xi), k.add(t.f), cub ? MSDF::INTERPOLATION_CUBIC : MSDF::INTERPOLATION_LINEAR); else d->Initialize(t.p.size(), t.xi.size(), k.add(t.p), k.add(t.xi), k.add(t.f), cub ? MSDF::INTERPOLATION_CUBIC : MSDF::INTERPOLATION_LINEAR); if (c.chance(30)) d->FlipPitchSign(true); return d; }
static CODEDistributionFunction *mkcode(Ctx& c, Keep& k, vector<double>& P) { int np = (int)c.range(6, 9), nl = (int)c.range(1, 5); P = grid(c, np, 0, c.bulk(3, 30)); vector<double> f; for (int i = 0; i < np * nl; i++) f.push_back((i < np ? 2 : 0) + c.bulk(-1, 1)); int it[4] = {CODEDistributionFunction::INTERPOLATION_LINEAR, CODEDistributionFunction::INTERPOLATION_CSPLINE, CODEDistributionFunction::INTERPOLATION_STEFFEN, CODEDistributionFunction::INTERPOLATION_AKIMA}; auto *d = new CODEDistributionFunction(); d->Initialize(np, nl, k.add(P), k.add(f), it[c.draw(4)]); return d; }
static RadialProfile *mkpr(Ctx& c) { double a = c.bulk(0, 1), b = a + c.bulk(0.2, 2); switch (c.draw(5)) { case 0: return new LinearRadialProfile(a, b); case 1: return new PowerRadialProfile(a, b, c.bulk(0.5, 4)); case 2: return new GaussianRadialProfile(a, b, c.bulk(0.5, 4), c.bulk(0.5, 4), c.bulk(0.5, 4)); case 3: return new BesselRadialProfile(a, b); default: return new UniformRadialProfile(); } }
static MomentumSpaceDistributionFunction *mkmom(Ctx& c, Keep& k, vector<double>& P, vector<double>& X) {
    P = {0.1, 1, 10}; X = {-1, -0.5, 0.3, 1};
    switch (c.draw(6)) { case 0: return new AnalyticalAvalanche(c.bulk(2, 50), c.bulk(5, 20), c.bulk(1, 5)); case 1: return new ConnorHastieDistribution(c.bulk(2, 50), c.bulk(1, 5), c.bulk(0, 20), c.bulk(0.5, 5)); case 2: return new ExponentialPitch(c.bulk(-5, 20)); case 3: return new UnitDistributionFunction(); case 4: return mkms(c, k, P, X); default: return mkcode(c, k, P); }
}
static DistributionFunction *mkdist(Ctx& c, Keep& k, vector<double>& R, vector<double>& P, vector<double>& X, int& kind) {
    kind = (int)c.draw(4); R = {0, 0.5, 1, 2, 3};
    switch (kind) {
        case 0: return mkmom(c, k, P, X);
        case 1: { auto *d = new NDF(); int nr = (int)c.range(1, 4); R = grid(c, max(nr, 2), 1, 2); R.resize(nr); for (double r : R) d->InsertMomentumSpaceDistribution(r, mkms(c, k, P, X)); return d; }
        case 2: { int nr = (int)c.range(1, 4); R = grid(c, max(nr, 2), 1, 2); R.resize(nr); auto **cd = new CODEDistributionFunction*[nr]; for (int i = 0; i < nr; i++) cd[i] = mkcode(c, k, P); X = {-1, -0.5, 0.3, 1}; auto *g = new GOCODEDistributionFunction(); double *rr = new double[nr]; for (int i = 0; i < nr; i++) rr[i] = R[i]; g->Initialize(nr, rr, cd); return g; }
        default: { auto *m = mkmom(c, k, P, X); return new RadialDistributionFunction(mkpr(c), m); } }
}
struct Pt { double r, p, x, s; };
FACET("P24", clones_of_distributions, 700, "at least two threads, each evaluating its own clone several times") {
    Keep k; vector<double> R, P, X; int kind; DistributionFunction *d = mkdist(c, k, R, P, X, kind); int n = (int)c.range(2, 4); vector<DistributionFunction*> o = {d}; c.note << "kind" << kind << " p=" << strv(P) << " xi=" << strv(X) << "; ";
    for (int i = 1; i < n; i++) { size_t s = c.coin() ? 0 : c.draw(o.size()); o.push_back(o[s]->MinClone()); c.note << "clone of #" << s << "; "; }
    DistributionFunction *ref = d->MinClone(); vector<Act> acts; vector<vector<double>> want(n);
    for (int i = 0; i < n; i++) { vector<Pt> pts; int m = (int)c.range(2, 8); for (int q = 0; q < m; q++) { double x = evp(c, X); if (fabs(x) < 0.01) x = 0.3; pts.push_back({c.coin() ? R[c.draw(R.size())] : c.bulk(0, 3), fabs(evp(c, P)) + 1e-3, x, c.coin() ? 0 : c.bulk(-1, 1)}); c.note << "#" << i << "(" << str(pts.back().r) << "," << str(pts.back().p) << "," << str(x) << ") "; }
        auto work = [pts](DistributionFunction *D, vector<double>& out) { for (auto& t : pts) out.push_back(D->Eval(t.r, t.p, t.x, t.s)); }; work(ref, want[i]); DistributionFunction *D = o[i]; acts.push_back([work, D](vector<double>& out) { work(D, out); }); }
    concurrently(c, acts, want); c.nontrivial(n >= 2); c.label("kind" + to_string(kind));
}
FACET("P24", clones_of_profiles, 250, "at least two threads, each evaluating its own clone of a momentum distribution or profile") {
    Keep k; vector<double> P, X; RadialProfile *rp = mkpr(c); MomentumSpaceDistributionFunction *m = mkmom(c, k, P, X); int n = (int)c.range(2, 4); vector<Act> acts; vector<vector<double>> want(n); RadialProfile *rr = rp->MinClone(); MomentumSpaceDistributionFunction *mr = m->MinClone();
    for (int i = 0; i < n; i++) { RadialProfile *ro = i ? rp->MinClone() : rp; MomentumSpaceDistributionFunction *mo = i ? m->MinClone() : m; vector<Pt> pts; int q = (int)c.range(2, 6); while (q--) { double x = evp(c, X); if (fabs(x) < 0.01) x = 0.3; pts.push_back({c.bulk(0, 3), fabs(evp(c, P)) + 1e-3, x, c.bulk(-1, 1)}); c.note << "#" << i << "(" << str(pts.back().r) << "," << str(pts.back().p) << "," << str(x) << ") "; }
        auto work = [pts](RadialProfile *A, MomentumSpaceDistributionFunction *B, vector<double>& out) { for (auto& t : pts) { out.push_back(A->Eval(t.r, t.s)); out.push_back(B->Eval(t.p, t.x)); } }; work(rr, mr, want[i]); acts.push_back([work, ro, mo](vector<double>& out) { work(ro, mo, out); }); }
    concurrently(c, acts, want); c.nontrivial();
}

// ---------------------------------------------------------------- magnetic fields
static MagneticFieldAnalytical2D *mkaf(Ctx& c, double& Rm, double& a) { Rm = c.bulk(1, 6); a = c.bulk(0.2, 0.8) * Rm; enum MFASafetyFactorType qt[5] = {MFASF_CONSTANT, MFASF_LINEAR, MFASF_QUADRATIC, MFASF_EXPONENTIAL, MFASF_CURRENT}; int q = (int)c.draw(5); return new MagneticFieldAnalytical2D(c.bulk(1, 6), Rm, c.coin() ? 0 : c.bulk(-0.5, 0.5), a, c.coin() ? MFAFS_CW : MFAFS_CCW, c.coin() ? MFAFS_CW : MFAFS_CCW, qt[q], c.bulk(1, 4), c.bulk(1, 3)); }
static MagneticField2D *mkmf(Ctx& c, double& Rm, double& a, int& kind) {
    MagneticFieldAnalytical2D *af = mkaf(c, Rm, a); kind = (int)c.draw(2); if (kind == 0) return af; MagneticFieldNumeric2D *nf = af->ToNumeric2D((unsigned)c.range(6, 10), (unsigned)c.range(6, 10)); return nf;
}
static void ask(MagneticField2D *f, int op, const double *v, vector<double>& out) {
    switch (op) {
        case 0: { slibreal_t *B = f->Eval(v[0], v[1], v[2]); out.insert(out.end(), B, B + 3); break; }
        case 1: { auto& d = f->EvalDerivatives(v[0], v[1], v[2]); out.push_back(d.Babs); for (int i = 0; i < 3; i++) { out.push_back(d.B[i]); out.push_back(d.gradB[i]); out.push_back(d.curlB[i]); for (int j = 0; j < 3; j++) out.push_back(d.J[i][j]); } break; }
        case 2: if (f->HasMagneticFlux()) out.push_back(f->EvalFlux(v[0], v[1], v[2])); break;
        case 3: if (f->HasMagneticFlux()) { struct flux_diff *d = f->EvalFluxDerivatives(v[0], v[1], v[2]); out.push_back(d->psi); out.push_back(d->dpsi_dR); out.push_back(d->dpsi_dZ); } break;
        case 4: out.push_back(f->CrossesDomain(v[0], v[1], v[2], v[3], v[4], v[5])); break;
        case 5: out.push_back(f->IntersectsDomain3D(v[0], v[1], v[2], v[3], v[4], v[5], v[0] > 0)); break;
        case 6: { double a, b, d, e; f->GetDomainBounds(a, b, d, e); out.insert(out.end(), {a, b, d, e}); break; }
        default: out.push_back(f->GetMaxRadius()); out.push_back(f->GetMinRadius()); out.push_back(f->GetMagneticAxisR()); out.push_back(f->GetMagneticAxisZ()); break; }
}
struct Q { int op; double v[6]; };
static vector<Q> genq(Ctx& c, double Rm, double a) { vector<Q> qs; int m = (int)c.range(2, 7); while (m--) { Q q; q.op = (int)c.draw(8); for (int h = 0; h < 2; h++) { double rho = a * c.bulk(0.05, h || q.op > 3 ? 1.6 : 0.9), th = c.bulk(0, 6.28), ph = c.bulk(0, 6.28), R = max(0.05, Rm + rho * cos(th)); q.v[3*h] = R * cos(ph); q.v[3*h+1] = R * sin(ph); q.v[3*h+2] = rho * sin(th); } qs.push_back(q); c.note << "op" << q.op << "(" << str(q.v[0]) << "," << str(q.v[1]) << "," << str(q.v[2]) << ") "; } return qs; }
FACET("P24", clones_of_fields, 500, "at least two threads, each querying its own clone several times") {
    double Rm, a; int kind; MagneticField2D *f = mkmf(c, Rm, a, kind); int n = (int)c.range(2, 4); vector<MagneticField2D*> o = {f}; c.note << "kind" << kind << " Rm=" << str(Rm) << " a=" << str(a) << "; "; for (int i = 1; i < n; i++) o.push_back(o[c.coin() ? 0 : c.draw(o.size())]->Clone());
    MagneticField2D *ref = f->Clone(); vector<Act> acts; vector<vector<double>> want(n);
    for (int i = 0; i < n; i++) { c.note << "#" << i << ": "; vector<Q> qs = genq(c, Rm, a); for (auto& q : qs) ask(ref, q.op, q.v, want[i]); MagneticField2D *F = o[i]; acts.push_back([qs, F](vector<double>& out) { for (auto& q : qs) ask(F, q.op, q.v, out); }); }
    concurrently(c, acts, want); c.nontrivial(); c.label("kind" + to_string(kind));
}

// ---------------------------------------------------------------- independent objects
struct Osc : IntegratorEquation<2> { double w, g; Vector<2>& Evaluate(const slibreal_t, const Vector<2>& y, Vector<2>& o) override { o[0] = y[1]; o[1] = -w * w * y[0] - g * y[1]; return o; } };
static Act genwork(Ctx& c, int slot, int& op) {
    op = (int)c.draw(7); double u = c.bulk(0.2, 3), v = c.bulk(0, 0.5), tol = c.logreal(1e-8, 1e-3); int m = (int)c.range(3, 15); string fn = c.tmp("t" + to_string(slot));
    switch (op) {
        case 0: { bool dense = c.coin(); return [=](vector<double>& out) { Osc e; e.w = u; e.g = v; RKDP45<2> S(tol); S.SetEquation(&e); double y[2] = {1, v}; S.InitialValue(Vector<2>(y)); for (int i = 0; i < m; i++) out.push_back(S.Step()); out.push_back(S.LastSolution()[0]); out.push_back(S.LastSolution()[1]); if (dense) { vector<double> o(2 * m), t(m); S.OutputDense(m, 0, S.LastTime(), o.data(), t.data()); out.insert(out.end(), o.begin(), o.end()); } }; }
        case 1: { string s; for (int i = 0; i < m; i++) s += "s" + to_string(i) + " = " + to_string(i * u) + (i % 2 ? "" : "," + to_string(i)) + ";\n"; if (c.coin()) s += "# comment\n@ZZ b (t) { q = \"x y\"; }\n"; return [=](vector<double>& out) { ConfigurationScript cf; cf.RegisterBlockType("@ZZ"); ConfigBlock *r = cf.FromString(s); for (auto *x : r->GetAllSettings()) { for (slibreal_t d : x->GetNumericVector()) out.push_back(d); } out.push_back((double)r->GetAllSubBlocks().size()); }; }
        case 2: return [=](vector<double>& out) { PeakedIntegration I; function<slibreal_t(slibreal_t)> f = [=](slibreal_t x) { return exp(-(x - u) * (x - u) / 0.1); }; double mx = I.FindMaximum(f, 1e-3, 0, 6); out.push_back(mx); out.push_back(I.Evaluate(f, 0, 6, 0.05, 1e-6, mx, f(mx))); };
        case 3: { string path = fn + ".sdt"; return [=](vector<double>& out) { vector<double> w; for (int i = 0; i < 2 * m; i++) w.push_back(i * u + v); const double *rows[2] = {w.data(), w.data() + m}; { unique_ptr<SFile> sf(SFile::Create(path, SFILE_MODE_WRITE)); sf->WriteArray("a", rows, 2, m); sf->WriteString("s", "text"); sf->CreateStruct("g"); sf->WriteScalar("g/x", u); sf->Close(); } unique_ptr<SFile> sf(SFile::Create(path, SFILE_MODE_READ)); sfilesize_t d[2]; double **a = sf->GetDoubles("a", d); out.insert(out.end(), a[0], a[0] + d[0] * d[1]); out.push_back(sf->GetScalar("g/x")); out.push_back((double)sf->GetString("s").size()); sf->Close(); }; }
        case 4: { string path = fn + ".ppm"; return [=](vector<double>& out) { vector<double> im; for (int i = 0; i < m * 3; i++) im.push_back(fmod(i * u, 1)); ImageGenerator::gen(ImageGenerator::IMAGE_TYPE_PPM, path, im.data(), (unsigned)m, 3u); ifstream is(path, ios::binary); for (char ch; is.get(ch); ) out.push_back((unsigned char)ch); }; }
        case 5: { int nl = m; return [=](vector<double>& out) { MagneticFieldAnalytical2D f(5, 2 + u, 0, 1, MFAFS_CW, MFAFS_CCW, MFASF_LINEAR, 1 + v, 1); double x[6] = {2 + u + 0.3, 0.1, 0.2, 1, 1, 1}; for (int i = 0; i < 8; i++) ask(&f, i, x, out); Vector<3> a, b; for (int i = 0; i < 3; i++) { a[i] = x[i]; b[i] = x[i+3]; } Vector<3> cr = Vector<3>::Cross(a, b); out.push_back(cr.Norm()); out.push_back(a.Dot(b)); out.push_back(nl); }; }
        default: return [=](vector<double>& out) { vector<double> p, x, f; for (int i = 0; i < 6; i++) { p.push_back(i); x.push_back(-1 + i * 0.4); } for (int i = 0; i < 36; i++) f.push_back(2 + sin(i * u)); MSDF d; d.InitializeLog(6, 6, p.data(), x.data(), f.data(), m % 2 ? MSDF::INTERPOLATION_CUBIC : MSDF::INTERPOLATION_LINEAR); for (int i = 0; i < m; i++) out.push_back(d.Eval(i * 0.3, v)); AnalyticalAvalanche A(10 * u, 10, 2); out.push_back(A.Eval(u, v)); }; }
}
FACET("P24", independent_objects, 500, "at least two threads working on objects of their own") {
    int n = (int)c.range(2, 4); vector<Act> acts; vector<vector<double>> want(n); for (int i = 0; i < n; i++) { int op; acts.push_back(genwork(c, i, op)); acts.back()(want[i]); c.note << "thread " << i << " job " << op << "; "; c.label("job" + to_string(op)); } concurrently(c, acts, want); c.nontrivial();
}
