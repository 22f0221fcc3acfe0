// P09 vector/matrix algebra, P10 ODE integrator, P22 peaked integration
#include "pbt.h"
#include <memory>
#include <algorithm>
#include <complex>
#include <softlib/Vector.h>
#include <softlib/Matrix.h>
#include <softlib/RKDP45.h>
#include <softlib/GeneralEquation.h>
#include <softlib/SOFTLibException.h>
#include <softlib/Integration/PeakedIntegration.h>
using namespace std; using namespace pbt;
typedef long double ld;

static double gv(Ctx& c, int style) { switch (style) { case 0: return (double)c.range(-9, 9); case 1: return c.bulk(-3, 3); case 2: { double m = c.logreal(1e-40, 1e40); return c.coin() ? m : -m; } default: { double m = c.logreal(1e-140, 1e140); return c.coin() ? m : -m; } } }
template<unsigned N> static void genv(Ctx& c, double *a, int style) { for (unsigned i = 0; i < N; i++) a[i] = gv(c, style); }
template<unsigned N> static void eqv(Ctx& c, const Vector<N>& v, const double *w, const string& what, double rtol = 0) {
    c.require(v.size() == N, what + ": size");
    for (unsigned i = 0; i < N; i++) if (rtol == 0) { if (!(v[i] == w[i])) c.fail(what + ": component " + to_string(i) + " is " + str(v[i]) + ", expected " + str(w[i])); } else c.close(v[i], w[i], rtol, 0, what + ": component " + to_string(i)); }
template<unsigned N> static void vec_case(Ctx& c) {
    int st = (int)c.draw(4); double a[N], b[N], w[N], s; genv<N>(c, a, st); genv<N>(c, b, st); s = gv(c, st); if (s == 0) s = 2;
    c.note << "N=" << N << " a="; for (double x : a) c.note << str(x) << " "; c.note << "b="; for (double x : b) c.note << str(x) << " "; c.note << "s=" << str(s);
    Vector<N> A(a), B(b), Z; const Vector<N> CA(A); for (unsigned i = 0; i < N; i++) { w[i] = 0; } eqv<N>(c, Z, w, "default vector"); eqv<N>(c, A, a, "vector from array"); eqv<N>(c, CA, a, "copied vector");
    Vector<N> R;
#define EL(expr) for (unsigned i = 0; i < N; i++) w[i] = (expr)
#define UNCH(op) eqv<N>(c, A, a, string(op) + " changed its left operand"); eqv<N>(c, B, b, string(op) + " changed its right operand")
    R = A + B; EL(a[i] + b[i]); eqv<N>(c, R, w, "a+b"); UNCH("a+b"); R = A - B; EL(a[i] - b[i]); eqv<N>(c, R, w, "a-b"); UNCH("a-b");
    R = A + s; EL(a[i] + s); eqv<N>(c, R, w, "a+s"); R = s + A; eqv<N>(c, R, w, "s+a"); R = A - s; EL(a[i] - s); eqv<N>(c, R, w, "a-s"); R = s - A; EL(s - a[i]); eqv<N>(c, R, w, "s-a"); UNCH("scalar sum");
    R = A * s; EL(a[i] * s); eqv<N>(c, R, w, "a*s"); R = s * A; eqv<N>(c, R, w, "s*a"); R = A / s; EL(a[i] / s); eqv<N>(c, R, w, "a/s", 4e-16 * 2); R = -A; EL(-a[i]); eqv<N>(c, R, w, "-a"); UNCH("scaling");
    { Vector<N> X(A); Vector<N>& r = (X += B); EL(a[i] + b[i]); eqv<N>(c, X, w, "a+=b"); c.require(&r == &X, "+= returns a reference to itself"); X = A; X -= B; EL(a[i] - b[i]); eqv<N>(c, X, w, "a-=b"); X = A; X += s; EL(a[i] + s); eqv<N>(c, X, w, "a+=s"); X = A; X -= s; EL(a[i] - s); eqv<N>(c, X, w, "a-=s"); X = A; X *= s; EL(a[i] * s); eqv<N>(c, X, w, "a*=s"); X = A; X /= s; EL(a[i] / s); eqv<N>(c, X, w, "a/=s", 1e-15); UNCH("compound"); }
    { Vector<N> X(A); X += X; EL(2 * a[i]); eqv<N>(c, X, w, "a+=a"); X = A; X -= X; EL(0.0); eqv<N>(c, X, w, "a-=a"); X = A; X = X; eqv<N>(c, X, a, "a=a"); unsigned k = (unsigned)c.draw(N); X = A; X *= X[k]; EL(a[i] * a[k]); eqv<N>(c, X, w, "a*=a[k]"); X = A; X += X[k]; EL(a[i] + a[k]); eqv<N>(c, X, w, "a+=a[k]"); X = A; X -= X[k]; EL(a[i] - a[k]); eqv<N>(c, X, w, "a-=a[k]"); if (a[k] != 0) { X = A; X /= X[k]; EL(a[i] / a[k]); eqv<N>(c, X, w, "a/=a[k]", 1e-15); } X = A; X = X[k]; EL(a[k]); eqv<N>(c, X, w, "a=a[k]"); X = A; X = X + X; EL(2 * a[i]); eqv<N>(c, X, w, "a=a+a"); }
    { Vector<N> X; X = a; eqv<N>(c, X, a, "assignment from array"); X = s; EL(s); eqv<N>(c, X, w, "assignment from scalar"); double arr[N + 1]; arr[N] = 77; A.ToArray(arr); for (unsigned i = 0; i < N; i++) c.require(arr[i] == a[i], "ToArray"); c.require(arr[N] == 77, "ToArray wrote past the end"); X = A; unsigned k = (unsigned)c.draw(N); X[k] = s; EL(i == k ? s : a[i]); eqv<N>(c, X, w, "element assignment"); }
    { ld d = 0, ab = 0, n2 = 0; for (unsigned i = 0; i < N; i++) { d += (ld)a[i] * b[i]; ab += fabsl((ld)a[i] * b[i]); n2 += (ld)a[i] * a[i]; } c.close(A.Dot(B), (double)d, 0, 1e-15 * N * (double)ab, "dot product"); c.require(A.Dot(B) == B.Dot(A), "dot product is not symmetric"); c.close(A.Norm(), (double)sqrtl(n2), 1e-14, 0, "norm"); UNCH("dot/norm");
      if (n2 > 0) { Vector<N> X(A); X.Normalize(); EL((double)(a[i] / sqrtl(n2))); eqv<N>(c, X, w, "normalised vector", 1e-14); } }
    { Vector<N, float> F(A); for (unsigned i = 0; i < N; i++) if (fabs(a[i]) < 1e37 && fabs(a[i]) > 1e-37) c.require(F[i] == (float)a[i], "converted vector"); }
    bool nz = false; for (unsigned i = 0; i < N; i++) nz |= a[i] != b[i]; c.nontrivial(nz); c.label("N" + to_string(N));
}
FACET("P09", vectors, 20000, "the two operands differ") { switch (c.draw(5)) { case 0: vec_case<1>(c); break; case 1: vec_case<2>(c); break; case 2: vec_case<3>(c); break; case 3: vec_case<4>(c); break; default: vec_case<6>(c); } }
// Vectors of complex and single-precision numbers obey the same rules (the norm is the sum of squared moduli).
template<class T> struct Num; template<> struct Num<complex<double>> { static complex<double> gen(Ctx& c, int st) { double a = gv(c, st); return complex<double>(a, c.chance(20) ? 0 : gv(c, st)); } static constexpr double eps = 2e-15; }; template<> struct Num<float> { static float gen(Ctx& c, int st) { return st == 0 ? (float)c.range(-9, 9) : (float)((c.coin() ? 1 : -1) * c.logreal(1e-8, 1e8)); } static constexpr double eps = 5e-7; };
template<unsigned N, class T> static void gen_case(Ctx& c) {
    int st = (int)c.draw(3); T a[N], b[N], s = Num<T>::gen(c, st); if (abs(s) == 0) s = T(2); for (unsigned i = 0; i < N; i++) { a[i] = Num<T>::gen(c, st); b[i] = Num<T>::gen(c, st); } c.note << "N=" << N << " s=" << s << " a="; for (auto& x : a) c.note << x << " "; typedef Vector<N,T> V; V A(a), B(b); const double eps = Num<T>::eps;
    auto eq = [&](const V& v, function<T(unsigned)> w, function<double(unsigned)> scale, const char *what) { for (unsigned i = 0; i < N; i++) { T e = w(i); if (!((double)abs(v[i] - e) <= eps * scale(i))) { ostringstream o; o.precision(17); o << what << ": component " << i << " is " << v[i] << ", expected " << e; c.fail(o.str()); } } };
    auto mag = [&](unsigned i) { return (double)abs(a[i]) + (double)abs(b[i]) + (double)abs(s); }; auto pr = [&](unsigned i) { return (double)abs(a[i]) * (double)abs(s); }; auto qu = [&](unsigned i) { return (double)abs(a[i]) / (double)abs(s); }; auto zero = [](unsigned) { return 0.0; };
    V Z; eq(Z, [&](unsigned) { return T(0); }, zero, "default vector"); eq(A, [&](unsigned i) { return a[i]; }, zero, "vector from array"); eq(A + B, [&](unsigned i) { return a[i] + b[i]; }, mag, "a+b"); eq(A - B, [&](unsigned i) { return a[i] - b[i]; }, mag, "a-b"); eq(A + s, [&](unsigned i) { return a[i] + s; }, mag, "a+s"); eq(s - A, [&](unsigned i) { return s - a[i]; }, mag, "s-a"); eq(A * s, [&](unsigned i) { return a[i] * s; }, pr, "a*s"); eq(s * A, [&](unsigned i) { return a[i] * s; }, pr, "s*a"); eq(A / s, [&](unsigned i) { return a[i] / s; }, qu, "a/s"); eq(-A, [&](unsigned i) { return -a[i]; }, zero, "-a");
    { V X(A); X += B; X -= B; X = A; X *= s; eq(X, [&](unsigned i) { return a[i] * s; }, pr, "a*=s"); X = A; X /= s; eq(X, [&](unsigned i) { return a[i] / s; }, qu, "a/=s"); X = s; eq(X, [&](unsigned) { return s; }, zero, "assignment from scalar"); }
    ld n2 = 0; for (unsigned i = 0; i < N; i++) { ld m = abs(a[i]); n2 += m * m; } double nn = (double)sqrtl(n2); T nrm = A.Norm(); if (!((double)abs(nrm - T(nn)) <= 4 * eps * nn)) { ostringstream o; o.precision(17); o << "norm is " << nrm << ", expected " << nn; c.fail(o.str()); }
    if (nn > 0) { V X(A); X.Normalize(); eq(X, [&](unsigned i) { return a[i] / T(nn); }, [&](unsigned i) { return 6 * (double)abs(a[i]) / nn; }, "normalised vector"); }
    if constexpr (N == 3) { V X = V::Cross(A, B); eq(X, [&](unsigned i) { unsigned j = (i + 1) % 3, k = (i + 2) % 3; return a[j] * b[k] - a[k] * b[j]; }, [&](unsigned i) { unsigned j = (i + 1) % 3, k = (i + 2) % 3; return 2 * ((double)abs(a[j]) * (double)abs(b[k]) + (double)abs(a[k]) * (double)abs(b[j])); }, "a x b"); }
    eq(A, [&](unsigned i) { return a[i]; }, zero, "left operand afterwards"); eq(B, [&](unsigned i) { return b[i]; }, zero, "right operand afterwards"); c.nontrivial(nn > 0);
}
FACET("P09", othertypes, 8000, "vector is not zero") { switch (c.draw(4)) { case 0: gen_case<3, complex<double>>(c); break; case 1: gen_case<2, complex<double>>(c); break; case 2: gen_case<3, float>(c); break; default: gen_case<5, float>(c); } }
FACET("P09", cross, 10000, "operands are not parallel") {
    double a[3], b[3], w[3]; int st = (int)c.draw(4); genv<3>(c, a, st); genv<3>(c, b, st); ld m = 0; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; w[i] = (double)((ld)a[j] * b[k] - (ld)a[k] * b[j]); }
    auto chk = [&](const Vector<3>& v, const string& what, double sign = 1) { for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; c.close(v[i], sign * w[i], 0, 1e-15 * (fabs(a[j] * b[k]) + fabs(a[k] * b[j])), what); } };
    c.note << str(a[0]) << " " << str(a[1]) << " " << str(a[2]) << " x " << str(b[0]) << " " << str(b[1]) << " " << str(b[2]);
    Vector<3> A(a), B(b), C; chk(Vector<3>::Cross(A, B), "a x b"); chk(Vector<3>::Cross(B, A), "b x a", -1); Vector<3>& r = Vector<3>::Cross(A, B, C); c.require(&r == &C, "Cross returns its destination"); chk(C, "a x b into c"); eqv<3>(c, A, a, "Cross changed its left operand"); eqv<3>(c, B, b, "Cross changed its right operand");
    { Vector<3> X(A); Vector<3>::Cross(X, B, X); chk(X, "a = a x b"); X = B; Vector<3>::Cross(A, X, X); chk(X, "b = a x b"); X = A; Vector<3>::Cross(X, X, X); for (int i = 0; i < 3; i++) c.require(X[i] == 0, "a x a"); }
    { bool thrown = false; Vector<4> P, Q, S; try { Vector<4>::Cross(P, Q, S); } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "cross product of 4-vectors was not refused"); }
    (void)m; c.nontrivial(w[0] != 0 || w[1] != 0 || w[2] != 0);
}
template<unsigned M, unsigned N> static void eqm(Ctx& c, const Matrix<M,N>& m, const double *w, const string& what, const double *tol = nullptr) {
    c.require(m.Rows() == M && m.Cols() == N, what + ": dimensions");
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) { double x = m(i, j), y = w[i * N + j]; if (x != m(i * N + j)) c.fail(what + ": linear and two-index access differ"); if (tol ? !(fabs(x - y) <= tol[i * N + j]) : !(x == y)) c.fail(what + ": element (" + to_string(i) + "," + to_string(j) + ") is " + str(x) + ", expected " + str(y)); } }
template<unsigned M, unsigned N, unsigned K> static void mulref(const double *a, const double *b, double *w, double *tol) { for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < K; j++) { ld s = 0, t = 0; for (unsigned k = 0; k < N; k++) { s += (ld)a[i*N+k] * b[k*K+j]; t += fabsl((ld)a[i*N+k] * b[k*K+j]); } w[i*K+j] = (double)s; tol[i*K+j] = (double)t * 1e-15 * (N + 1); } }
template<unsigned M, unsigned N, unsigned K> static void mat_case(Ctx& c) {
    int st = (int)c.draw(3); double a[M*N], b[M*N], k_[N*K], q[N*N], w[M*N], x[N], y[M], s = gv(c, st); genv<M*N>(c, a, st); genv<M*N>(c, b, st); genv<N*K>(c, k_, st); genv<N*N>(c, q, st); genv<N>(c, x, st); genv<M>(c, y, st);
    c.note << M << "x" << N << "x" << K << " s=" << str(s) << " a="; for (double v : a) c.note << str(v) << " ";
    typedef Matrix<M,N> MM; MM A(a), B(b), Z; const Matrix<N,K> Kc(k_); const double *rows[M]; for (unsigned i = 0; i < M; i++) rows[i] = a + i * N; MM AR((const double**)rows);
#define MEL(expr) for (unsigned i = 0; i < M*N; i++) w[i] = (expr)
#define MUN(op) eqm<M,N>(c, A, a, string(op) + " changed its left operand"); eqm<M,N>(c, B, b, string(op) + " changed its right operand")
    MEL(0.0); eqm<M,N>(c, Z, w, "default matrix"); eqm<M,N>(c, A, a, "matrix from array"); eqm<M,N>(c, AR, a, "matrix from rows"); { MM X(A); eqm<M,N>(c, X, a, "copied matrix"); X = B; eqm<M,N>(c, X, b, "assigned matrix"); X = X; eqm<M,N>(c, X, b, "self-assigned matrix"); unsigned k = (unsigned)c.draw(M*N); X(k) = s; X(k / N, k % N) += 1; MEL(i == k ? s + 1 : b[i]); eqm<M,N>(c, X, w, "element assignment"); }
    MEL(a[i] + b[i]); eqm<M,N>(c, A + B, w, "A+B"); MUN("A+B"); MEL(a[i] - b[i]); eqm<M,N>(c, A - B, w, "A-B"); MEL(a[i] + s); eqm<M,N>(c, A + s, w, "A+s"); eqm<M,N>(c, s + A, w, "s+A"); MEL(a[i] - s); eqm<M,N>(c, A - s, w, "A-s"); MEL(s - a[i]); eqm<M,N>(c, s - A, w, "s-A"); MEL(a[i] * s); eqm<M,N>(c, A * s, w, "A*s"); eqm<M,N>(c, s * A, w, "s*A"); MEL(-a[i]); eqm<M,N>(c, -A, w, "-A"); MUN("matrix arithmetic");
    { MM X(A); X += B; MEL(a[i] + b[i]); eqm<M,N>(c, X, w, "A+=B"); X = A; X -= B; MEL(a[i] - b[i]); eqm<M,N>(c, X, w, "A-=B"); X = A; X += s; MEL(a[i] + s); eqm<M,N>(c, X, w, "A+=s"); X = A; X -= s; MEL(a[i] - s); eqm<M,N>(c, X, w, "A-=s"); X = A; X *= s; MEL(a[i] * s); eqm<M,N>(c, X, w, "A*=s"); X = A; X += X; MEL(2 * a[i]); eqm<M,N>(c, X, w, "A+=A"); X = A; X -= X; MEL(0.0); eqm<M,N>(c, X, w, "A-=A"); unsigned k = (unsigned)c.draw(M*N); X = A; X *= X(k); MEL(a[i] * a[k]); eqm<M,N>(c, X, w, "A*=A(k)"); MUN("compound"); }
    { double p[M*K], tol[M*K]; mulref<M,N,K>(a, k_, p, tol); eqm<M,K>(c, A * Kc, p, "A*B", tol); eqm<N,K>(c, Kc, k_, "A*B changed B"); MUN("A*B"); }
    { double p[M*N], tol[M*N]; mulref<M,N,N>(a, q, p, tol); MM X(A); Matrix<N,N> Q(q); X *= Q; eqm<M,N>(c, X, p, "A*=B", tol); eqm<N,N>(c, Q, q, "A*=B changed B"); double q2[N*N], t2[N*N]; mulref<N,N,N>(q, q, q2, t2); Q *= Q; eqm<N,N>(c, Q, q2, "A*=A", t2); }
    { Vector<N> X(x); Vector<M> Y(y); double p[M], t[M], p2[N], t2[N]; mulref<M,N,1>(a, x, p, t); Vector<M> r = A * X; for (unsigned i = 0; i < M; i++) c.close(r[i], p[i], 0, t[i], "A*x"); mulref<1,M,N>(y, a, p2, t2); Vector<N> l = Y * A; for (unsigned i = 0; i < N; i++) c.close(l[i], p2[i], 0, t2[i], "y*A"); MM O(Y, X); for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) c.require(O(i, j) == y[i] * x[j], "outer product"); eqv<N>(c, X, x, "product changed its vector"); eqv<M>(c, Y, y, "product changed its vector"); MUN("A*x"); }
    bool nz = false; for (unsigned i = 0; i < M*N; i++) nz |= a[i] != b[i]; c.nontrivial(nz);
}
FACET("P09", matrices, 15000, "the two operands differ") { switch (c.draw(5)) { case 0: mat_case<3,3,3>(c); break; case 1: mat_case<2,3,4>(c); break; case 2: mat_case<4,2,3>(c); break; case 3: mat_case<1,4,2>(c); break; default: mat_case<3,1,2>(c); } }

// ---------------------------------------------------------------- P10
struct Comp { int kind; double p, q, z0, z1; };
template<unsigned N> struct Prob : IntegratorEquation<N> {
    vector<Comp> comp; double h[N]; bool mix = false; double t0 = 0; uint64_t evals = 0; // t0: problem time offset
    void mul(const double *in, double *out) const { double d = 0; for (unsigned i = 0; i < N; i++) d += h[i] * in[i]; for (unsigned i = 0; i < N; i++) out[i] = mix ? in[i] - 2 * d * h[i] : in[i]; }
    void rhs(double t, const double *z, double *f) const { for (unsigned i = 0; i < N; i++) { const Comp& k = comp[i]; switch (k.kind) {
        case 0: f[i] = k.p * z[i]; break; case 1: f[i] = k.p * z[i+1]; f[i+1] = -k.p * z[i]; i++; break; case 2: f[i] = k.q * cos(k.p * t); break; case 3: f[i] = k.p * z[i] * (1 - z[i]); break; case 4: f[i] = -2 * k.p * t * z[i]; break; case 5: f[i] = -k.p * z[i] * z[i] * z[i]; break; default: f[i] = k.q * k.p * pow(t, k.p - 1); } } }
    void exact(double t, double *y) const { double z[N]; for (unsigned i = 0; i < N; i++) { const Comp& k = comp[i]; switch (k.kind) {
        case 0: z[i] = k.z0 * exp(k.p * t); break; case 1: z[i] = k.z0 * cos(k.p * t) + k.z1 * sin(k.p * t); z[i+1] = -k.z0 * sin(k.p * t) + k.z1 * cos(k.p * t); i++; break; case 2: z[i] = k.z0 + k.q * sin(k.p * t) / k.p; break; case 3: z[i] = k.z0 / (k.z0 + (1 - k.z0) * exp(-k.p * t)); break; case 4: z[i] = k.z0 * exp(-k.p * t * t); break; case 5: z[i] = k.z0 / sqrt(1 + 2 * k.p * k.z0 * k.z0 * t); break; default: z[i] = k.z0 + k.q * pow(t, k.p); } } mul(z, y); }
    Vector<N>& Evaluate(const slibreal_t t, const Vector<N>& y, Vector<N>& out) override { evals++; double a[N], z[N], f[N], o[N]; y.ToArray(a); mul(a, z); rhs(t, z, f); mul(f, o); for (unsigned i = 0; i < N; i++) out[i] = o[i]; return out; }
    void gen(Ctx& c) { for (unsigned i = 0; i < N; i++) { Comp k; k.kind = (int)c.draw(7); if (k.kind == 1 && i + 1 >= N) k.kind = 0; k.z0 = c.bulk(-2, 2); k.z1 = c.bulk(-2, 2); k.p = 1; k.q = 1; switch (k.kind) { case 0: k.p = c.bulk(-4, 0.15); break; case 1: k.p = c.bulk(0.2, 6); break; case 2: k.p = c.bulk(0.2, 5); k.q = c.bulk(-2, 2); break; case 3: k.p = c.bulk(0.2, 3); k.z0 = c.bulk(0.05, 2); break; case 4: k.p = c.bulk(0.05, 1); break; case 5: k.p = c.bulk(0.1, 1) / max(1.0, k.z0 * k.z0); break; default: k.p = (double)c.range(1, 5); k.q = c.bulk(-0.1, 0.1); if (k.p > 3) k.q *= 0.01; } comp.push_back(k); if (k.kind == 1) { comp.push_back(k); i++; } }
        double n = 0; for (unsigned i = 0; i < N; i++) { h[i] = c.bulk(-1, 1); n += h[i] * h[i]; } mix = N > 1 && c.coin() && n > 0.01; for (unsigned i = 0; i < N; i++) h[i] /= sqrt(n + 1e-300); }
    string desc() const { ostringstream o; for (auto& k : comp) o << k.kind << "(p=" << k.p << ",q=" << k.q << ",z0=" << k.z0 << ") "; if (mix) o << "mixed"; return o.str(); }
    Vector<N> y0() const { double y[N]; exact(0, y); return Vector<N>(y); }
};
static double g_worst[4];
// The error estimate of a step can vanish by coincidence (isolated parameter values, mostly on the very first step,
// which is always attempted with h=1).  An inaccurate result only counts when it persists for neighbouring problems.
template<unsigned N> static bool persists(const Prob<N>& P, const function<void(RKDP45<N>&)>& cfg, double tol, double T, double lim, bool dense) {
    for (double f : {0.93, 0.975, 1.02, 1.06}) { Prob<N> Q(P); for (auto& k : Q.comp) { if (k.kind != 6) k.p *= f; } RKDP45<N> S(tol); cfg(S); S.SetEquation(&Q); S.InitialValue(Q.y0()); unsigned n = 1; while (S.LastTime() < T && n < 60000) { S.Step(); n++; }
        double worst = 0, scale = 1, grow = 1, ex[N]; for (auto& k : Q.comp) if (k.kind == 0 && k.p > 0) grow = max(grow, exp(k.p * S.LastTime()));
        auto at = [&](double t, const double *y) { Q.exact(t, ex); for (unsigned j = 0; j < N; j++) { scale = max(scale, fabs(ex[j])); double r = (fabs(y[j] - ex[j]) - 1e-14 * scale * (n + 10)) / (tol * scale * grow * (1 + t)); if (!(r <= worst)) worst = std::isnan(r) ? 1e300 : r; } };
        for (unsigned i = 0; i < n; i++) at(S.TimeAt(i), S.SolutionAt(i)); if (dense) { unsigned m = 8 * n; vector<double> t(m), o(m * N); S.OutputDense(m, 0, S.LastTime(), o.data(), t.data()); for (unsigned i = 0; i < m; i++) at(t[i], &o[i * N]); }
        if (worst <= lim) return false; }
    return true;
}
template<unsigned N> static void solve_case(Ctx& c) {
    Prob<N> P; P.gen(c); double tol = pow(10, c.bulk(-11, -4)); double T = c.logreal(0.1, 12); bool dense = c.chance(85); bool longrun = c.chance(3); if (longrun) { tol = 1e-13; T = 40; for (auto& k : P.comp) { if (k.kind == 6 || k.kind == 4) k.kind = 2; if (k.kind == 0 && k.p > 0) k.p = -0.1; } }
    RKDP45<N> S(tol); double sf = c.chance(20) ? c.bulk(0.7, 0.95) : 0, mx = c.chance(20) ? c.bulk(1.5, 10) : 0, mn = c.chance(20) ? c.bulk(0.1, 0.5) : 0, eb = c.chance(15) ? c.bulk(0.01, 0.08) : 0;
    function<void(RKDP45<N>&)> cfg = [=](RKDP45<N>& s) { if (!dense) s.ToggleDenseOutput(false); if (sf) s.SetSafetyFactor(sf); if (mx) s.SetMaxScaleFactor(mx); if (mn) s.SetMinScaleFactor(mn); if (eb) { s.SetExponentBeta(eb); s.SetExponentAlpha(0.2 - 0.75 * eb); } }; cfg(S); bool coincidence = false;
    c.note << "N=" << N << " tol=" << tol << " T=" << T << " " << P.desc();
    S.SetEquation(&P); S.InitialValue(P.y0()); double last = 0; c.require(S.StepsTaken() == 1 && S.LastTime() == 0, "after InitialValue there must be one stored step at t=0");
    unsigned n = 1; while (last < T) { double t = S.Step(); n++; c.require(t > last, "time does not advance"); c.require(t == S.LastTime() && S.StepsTaken() == n, "Step does not return the stored time"); last = t; c.require(n < 60000, "solver does not make progress"); }
    double maxratio = 0, ymax = 0, grow = 1; for (auto& k : P.comp) if (k.kind == 0 && k.p > 0) grow = max(grow, exp(k.p * last)); double ex[N], e0[N];
    vector<double> tt, yy; double scale = 1;
    for (unsigned i = 0; i < n; i++) { double t = S.TimeAt(i); P.exact(t, ex); double *y = S.SolutionAt(i), *d = S.DerivativeAt(i); for (unsigned j = 0; j < N; j++) scale = max(scale, fabs(ex[j])); 
        double lim = tol * scale * grow * (1 + t); for (unsigned j = 0; j < N; j++) { double e = fabs(y[j] - ex[j]) - 1e-14 * scale * (n + 10); double r = e / lim; if (r > maxratio) maxratio = r; if (!(r <= 150)) { if (!coincidence && !persists<N>(P, cfg, tol, T, 150, false)) coincidence = true; if (!coincidence) c.fail("solution at t=" + str(t) + " component " + to_string(j) + " is " + str(y[j]) + ", exact " + str(ex[j]) + ", off by " + str(e / tol) + " tolerances"); } }
        Vector<N> v(y), f; P.Evaluate(t, v, f); for (unsigned j = 0; j < N; j++) c.close(d[j], f[j], 1e-12, 1e-13 * scale, "stored derivative at t=" + str(t)); tt.push_back(t); }
    c.require(S.TimeAt(0) == 0, "first stored time"); P.exact(0, e0); for (unsigned j = 0; j < N; j++) c.require(S.SolutionAt(0)[j] == e0[j], "initial value is not stored unchanged"); for (unsigned j = 0; j < N; j++) c.require(S.LastSolution()[j] == S.SolutionAt(n-1)[j] && S.LastDerivative()[j] == S.DerivativeAt(n-1)[j], "last solution");
    g_worst[0] = max(g_worst[0], maxratio);
    if (dense) {
        c.require(S.HasDenseOutput(), "HasDenseOutput"); unsigned m = (unsigned)c.range(2, 40); vector<double> ot(m), o(m * N, 777.0); double lo = c.coin() ? 0 : c.bulk(0, last * 0.5), hi = c.coin() ? last : c.bulk(last * 0.5, last);
        S.OutputDense(m, lo, hi, o.data(), ot.data()); c.require(ot[0] == lo && ot[m-1] == hi, "dense output times do not span the requested interval"); double r1 = 0;
        auto check = [&](double t, const double *y, const string& w) { P.exact(t, ex); double lim = tol * scale * grow * (1 + t); size_t k = upper_bound(tt.begin(), tt.end(), t) - tt.begin(); double step = k < tt.size() ? tt[k] - tt[k-1] : 0; (void)step; for (unsigned j = 0; j < N; j++) { double e = fabs(y[j] - ex[j]) - 1e-14 * scale * (n + 10); r1 = max(r1, e / lim); if (!(e / lim <= 1000) && !coincidence) { if (!persists<N>(P, cfg, tol, T, 1000, true)) coincidence = true; else c.fail(w + " at t=" + str(t) + " is " + str(y[j]) + ", exact " + str(ex[j]) + ", off by " + str(e / tol) + " tolerances"); } } };
        for (unsigned i = 0; i < m; i++) { c.close(ot[i], lo + (hi - lo) * i / (m - 1.0), 1e-14, 1e-14, "dense output time"); check(ot[i], &o[i * N], "dense output"); }
        // arbitrary (also unsorted) times, and the stored times themselves
        vector<double> q; for (int i = 0; i < 12; i++) { if (c.coin()) q.push_back(tt[c.draw(n)]); else q.push_back(c.bulk(0, last)); } if (c.coin()) sort(q.begin(), q.end()); vector<double> oq(q.size() * N); S.OutputDense((unsigned)q.size(), q.data(), oq.data());
        for (size_t i = 0; i < q.size(); i++) { check(q[i], &oq[i * N], "dense output at chosen time"); auto it = lower_bound(tt.begin(), tt.end(), q[i]); if (it != tt.end() && *it == q[i]) { double *y = S.SolutionAt((unsigned)(it - tt.begin())); for (unsigned j = 0; j < N; j++) c.close(oq[i * N + j], y[j], 1e-12, 1e-13 * scale, "dense output at a stored time"); } }
        g_worst[1] = max(g_worst[1], r1);
        { double tq = c.coin() ? tt[c.draw(n)] : c.bulk(0, last), t1[1], y1[N]; S.OutputDense(1, tq, tq, y1, t1); c.require(t1[0] == tq, "single dense output time"); check(tq, y1, "single dense output"); bool th = false; try { S.OutputDense(0, 0, last, y1, t1); } catch (SOFTLibException&) { th = true; } c.require(th, "dense output at no times at all was not refused"); th = false; try { S.OutputDense(1, 0, last, y1, t1); } catch (SOFTLibException&) { th = true; } c.require(th, "one dense output time for a whole interval was not refused"); }
        bool thrown = false; double far[1] = {last * 1.5 + 1}, of[N]; try { S.OutputDense(1, far, of); } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "dense output beyond the integrated interval was not refused");
        thrown = false; double near[1] = {-0.5}; try { S.OutputDense(1, near, of); } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "dense output before the integrated interval was not refused");
    } else { bool thrown = false; double t1[1] = {last / 2}, o1[N]; try { S.OutputDense(1, t1, o1); } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "dense output although disabled was not refused"); }
    (void)ymax; if (n > 1000) c.label("over1000steps"); if (coincidence) c.label("coincidence"); c.nontrivial(n > 3);
    if (getenv("PBT_DBG")) { FILE *dbg = fopen(getenv("PBT_DBG"), "a"); fprintf(dbg, "worst %g %g\n", g_worst[0], g_worst[1]); fclose(dbg); }
}
FACET("P10", solve, 4000, "at least three accepted steps") { switch (c.draw(4)) { case 0: solve_case<1>(c); break; case 1: solve_case<2>(c); break; case 2: solve_case<3>(c); break; default: solve_case<4>(c); } }

template<unsigned N> static void smooth_case(Ctx& c) { // resolved oscillations: error stays close to the tolerance
    Prob<N> P; P.gen(c); for (auto& k : P.comp) if (k.kind != 1) { k.kind = 2; k.p = max(0.5, fabs(k.p)); k.q = k.q < 0 ? min(k.q, -0.3) : max(k.q, 0.3); } double tol = pow(10, c.bulk(-10, -7)), T = c.bulk(2, 8), ex[N], scale = 1, worst = 0, dworst = 0; c.note << "tol=" << tol << " T=" << T << " " << P.desc();
    RKDP45<N> S(tol); S.SetEquation(&P); S.InitialValue(P.y0()); while (S.LastTime() < T) S.Step();
    unsigned n = S.StepsTaken(), m = 4 * n; for (unsigned i = 0; i < n; i++) { P.exact(S.TimeAt(i), ex); for (unsigned j = 0; j < N; j++) { scale = max(scale, fabs(ex[j])); worst = max(worst, (fabs(S.SolutionAt(i)[j] - ex[j]) - 1e-13 * scale) / (tol * scale * (1 + S.TimeAt(i)))); } }
    vector<double> t(m), o(m * N); S.OutputDense(m, 0, S.LastTime(), o.data(), t.data()); for (unsigned i = 0; i < m; i++) { P.exact(t[i], ex); for (unsigned j = 0; j < N; j++) dworst = max(dworst, (fabs(o[i * N + j] - ex[j]) - 1e-13 * scale) / (tol * scale * (1 + t[i]))); }
    if (getenv("PBT_DBG")) { FILE *dbg = fopen(getenv("PBT_DBG"), "a"); fprintf(dbg, "smooth %g %g %g\n", worst, dworst, n * pow(tol, 0.2) / T); fclose(dbg); }
    function<void(RKDP45<N>&)> cfg = [](RKDP45<N>&) {}; if ((!(worst <= 30) && !persists<N>(P, cfg, tol, T, 30, false)) || (!(dworst <= 150) && !persists<N>(P, cfg, tol, T, 150, true))) { c.label("coincidence"); return; } c.require(worst <= 30, "stored solution is off by " + str(worst) + " tolerances"); c.require(dworst <= 150, "dense output is off by " + str(dworst) + " tolerances"); c.nontrivial(n > 10);
}
FACET("P10", smooth, 2500, "at least ten steps") { switch (c.draw(3)) { case 0: smooth_case<1>(c); break; case 1: smooth_case<2>(c); break; default: smooth_case<4>(c); } }
// Components of very different size: each one is solved to the tolerance on its own scale.
template<unsigned N> static void scales_case(Ctx& c) {
    Prob<N> P; double amp[N]; for (unsigned i = 0; i < N; i++) { Comp k; k.kind = i + 1 < N && c.coin() ? 1 : 2; double A = pow(10, c.bulk(-2, 6)); k.p = c.bulk(0.5, 5); k.z0 = A * c.bulk(0.3, 1); k.z1 = A * c.bulk(-1, 1); k.q = A * k.p * (c.coin() ? 1 : -1); P.comp.push_back(k); amp[i] = 2 * A; if (k.kind == 1) { P.comp.push_back(k); amp[++i] = 2 * A; } } P.mix = false;
    double tol = pow(10, c.bulk(-9, -5)), T = c.bulk(2, 8); c.note << "tol=" << tol << " T=" << T << " " << P.desc(); string what;
    auto run = [&](Prob<N>& Q, string *msg) { RKDP45<N> S(tol); S.SetEquation(&Q); S.InitialValue(Q.y0()); unsigned n = 1; while (S.LastTime() < T && n < 100000) { S.Step(); n++; } double worst = 0, ex[N]; auto at = [&](double t, const double *y, const char *w) { Q.exact(t, ex); for (unsigned j = 0; j < N; j++) { double r = (fabs(y[j] - ex[j]) - 1e-15 * amp[j] * (n + 10)) / (tol * (1 + amp[j]) * (1 + t)); if (!(r <= worst)) { worst = std::isnan(r) ? 1e300 : r; if (msg) *msg = string(w) + " component " + to_string(j) + " at t=" + str(t) + " is " + str(y[j]) + ", exact " + str(ex[j]); } } }; for (unsigned i = 0; i < n; i++) at(S.TimeAt(i), S.SolutionAt(i), "solution"); unsigned m = 3 * n; vector<double> t(m), o(m * N); S.OutputDense(m, 0, S.LastTime(), o.data(), t.data()); for (unsigned i = 0; i < m; i++) at(t[i], &o[i * N], "dense output"); return worst; };
    double w = run(P, &what); if (getenv("PBT_DBG")) { FILE *dbg = fopen(getenv("PBT_DBG"), "a"); fprintf(dbg, "scales %g\n", w); fclose(dbg); } if (!(w <= 200)) { bool pers = true; for (double f : {0.93, 0.975, 1.02, 1.06}) { Prob<N> Q(P); for (auto& k : Q.comp) k.p *= f; if (run(Q, nullptr) <= 200) { pers = false; break; } } if (pers) c.fail(what + ", off by " + str(w) + " tolerances on the scale of that component"); c.label("coincidence"); return; }
    double lo = 1e300, hi = 0; for (double x : amp) { lo = min(lo, x); hi = max(hi, x); } c.nontrivial(hi > 100 * lo);
}
FACET("P10", scales, 1500, "components differ in size by more than a factor of hundred") { switch (c.draw(3)) { case 0: scales_case<2>(c); break; case 1: scales_case<3>(c); break; default: scales_case<5>(c); } }
// An equation whose right-hand side is undefined where too long trial steps end up.
struct Gompertz : IntegratorEquation<2> { double a, K, b; Vector<2>& Evaluate(const slibreal_t, const Vector<2>& y, Vector<2>& o) override { o[0] = a * y[0] * log(K / y[0]); o[1] = -b * sqrt(y[1]); return o; } };
FACET("P10", domain, 1500, "initial trial step leaves the domain of the equation") {
    Gompertz G; G.a = c.logreal(0.2, 1e5); G.K = c.logreal(0.1, 50); double r = c.logreal(1e-3, 1e3), y0[2] = {G.K * r, c.logreal(0.1, 10)}, T = c.bulk(0.5, 5) / G.a; G.b = c.bulk(0.05, 0.9) * 2 * sqrt(y0[1]) / (T * 6); double tol = pow(10, c.bulk(-9, -4)); c.note << "a=" << G.a << " K=" << G.K << " y0=" << y0[0] << " tol=" << tol << " T=" << T << " b=" << G.b;
    RKDP45<2> S(tol); S.SetEquation(&G); S.InitialValue(Vector<2>(y0)); unsigned n = 1; double scale[2] = {max(1.0, max(y0[0], G.K)), max(1.0, y0[1])}, worst = 0, last = 0; string what; auto at = [&](double t, const double *y, const char *w) { if (t > T) return; double ex[2] = {G.K * exp(log(r) * exp(-G.a * t)), pow(sqrt(y0[1]) - G.b * t / 2, 2)}; for (int j = 0; j < 2; j++) { double q = (fabs(y[j] - ex[j]) - 1e-13 * scale[j]) / (tol * scale[j] * (1 + fabs(log(r)))); if (!(q <= worst)) { worst = std::isnan(q) ? 1e300 : q; what = string(w) + " component " + to_string(j) + " at t=" + str(t) + " is " + str(y[j]) + ", exact " + str(ex[j]); } } };
    while (last < T && n < 50000) { double t = S.Step(); c.require(t > last, "time does not advance"); last = t; n++; } c.require(last >= T, "solver does not make progress"); for (unsigned i = 0; i < n; i++) { at(S.TimeAt(i), S.SolutionAt(i), "solution"); for (int j = 0; j < 2; j++) c.require(std::isfinite(S.SolutionAt(i)[j]), "stored solution is not finite"); } unsigned m = 3 * n; vector<double> t(m), o(2 * m); S.OutputDense(m, 0, last, o.data(), t.data()); for (unsigned i = 0; i < m; i++) at(t[i], &o[i * 2], "dense output");
    if (getenv("PBT_DBG")) { FILE *dbg = fopen(getenv("PBT_DBG"), "a"); fprintf(dbg, "domain %g\n", worst); fclose(dbg); } c.require(worst <= 2000, what + ", off by " + str(worst) + " tolerances"); c.nontrivial(G.a > 5);
}
// A problem that cannot be integrated any further leaves nothing behind for the next one.
struct Wall1 : IntegratorEquation<2> { double tb, s; Vector<2>& Evaluate(const slibreal_t t, const Vector<2>& y, Vector<2>& o) override { o[0] = t > tb ? NAN : y[1] * s; o[1] = -y[0] * s; return o; } };
FACET("P10", after_failure, 1500, "always") {
    double tol = pow(10, c.bulk(-9, -3)); RKDP45<2> S(tol), F(tol); Wall1 W; W.tb = c.logreal(0.01, 5); W.s = c.logreal(0.1, 10); double y0[2] = {c.bulk(-2, 2), c.bulk(-2, 2)}; S.SetEquation(&W); S.InitialValue(Vector<2>(y0)); bool thrown = false; int n = 0; try { for (; n < 3000; n++) { S.Step(); for (int j = 0; j < 2; j++) c.require(std::isfinite(S.LastSolution()[j]), "a step with undefined result was accepted"); } } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "stuck integration was not reported"); c.require(S.LastTime() <= W.tb * (1 + 1e-12), "integration passed the point where the equation is undefined");
    Prob<2> P; P.gen(c); c.note << "fails at " << W.tb << " then " << P.desc(); for (RKDP45<2> *s : {&S, &F}) { s->SetEquation(&P); s->InitialValue(P.y0()); } for (int i = 0; i < 15; i++) { double a = S.Step(), b = F.Step(); c.require(a == b, "solver re-used after a failure takes the time step to " + str(a) + ", a fresh one to " + str(b)); for (int j = 0; j < 2; j++) c.require(S.LastSolution()[j] == F.LastSolution()[j], "solver re-used after a failure gives another solution"); } c.nontrivial();
}
// Dense output that is switched on and off on the way is either that of a solver which always had it, or refused.
template<unsigned N> static void toggle_case(Ctx& c) {
    double tol = pow(10, c.bulk(-8, -3)); RKDP45<N> S(tol), F(tol); Prob<N> P; bool on = true, part = false, mixed = false; int probs = (int)c.range(1, 2);
    for (int r = 0; r < probs; r++) {
        P = Prob<N>(); P.gen(c); c.note << P.desc(); for (RKDP45<N> *s : {&S, &F}) { s->SetEquation(&P); s->InitialValue(P.y0()); } vector<bool> has; int n = (int)c.range(1, 14), seg = (int)c.range(1, 3);
        for (int g = 0; g < seg; g++) {
            for (int i = 0; i < n; i++) { if (c.chance(30)) { on = !on; S.ToggleDenseOutput(on); c.note << (on ? "on " : "off "); c.require(S.HasDenseOutput() == on, "HasDenseOutput"); } double a = S.Step(), b = F.Step(); c.require(a == b, "switching dense output changed the time steps"); has.push_back(on); c.note << "step "; }
            if (c.coin()) { on = true; S.ToggleDenseOutput(true); c.note << "on "; }
            for (int k = 0; k < 6; k++) { size_t i = c.draw(has.size()); double lo = S.TimeAt((unsigned)i), hi = S.TimeAt((unsigned)i + 1), t = c.chance(25) ? hi : lo + (hi - lo) * c.bulk(0.01, 0.99), y[N], w[N], tt[1] = {t}; bool edge = t == hi || t == lo, must = on && has[i] && (!edge || ((i == 0 || has[i-1]) && (i + 1 >= has.size() || has[i+1]))), thrown = false; for (double& v : y) v = 777; F.OutputDense(1, tt, w);
                c.note << "at " << str(t) << " "; try { if (c.coin()) S.OutputDense(1, tt, y); else { double o[1]; S.OutputDense(1, t, t, y, o); } } catch (SOFTLibException&) { thrown = true; } if (must) c.require(!thrown, "dense output at t=" + str(t) + " was refused"); if (!thrown) for (unsigned j = 0; j < N; j++) c.close(y[j], w[j], 1e-12, 1e-13, "dense output at t=" + str(t) + " of a solver with dense output switched on and off"); if (must) part = true; if (on && !has[i]) mixed = true; }
            n = (int)c.range(1, 6); } }
    c.nontrivial(part && mixed);
}
FACET("P10", dense_toggle, 2500, "times within steps taken with and without dense output are requested") { switch (c.draw(3)) { case 0: toggle_case<1>(c); break; case 1: toggle_case<2>(c); break; default: toggle_case<4>(c); } }
template<unsigned N> static void reuse_case(Ctx& c) {
    double tol = pow(10, c.bulk(-9, -3)); RKDP45<N> S(tol); int rounds = (int)c.range(2, 4); vector<unique_ptr<Prob<N>>> keep;
    for (int r = 0; r < rounds; r++) { auto *P = new Prob<N>(); keep.emplace_back(P); P->gen(c); RKDP45<N> F(tol); F.SetEquation(P); F.InitialValue(P->y0()); if (r == 0 || c.coin()) S.SetEquation(P); S.SetEquation(P); S.InitialValue(P->y0()); int steps = (int)c.range(1, 25); c.note << P->desc() << "x" << steps << "; ";
        for (int i = 0; i < steps && F.LastTime() < 10; i++) { double a = S.Step(), b = F.Step(); c.require(a == b, "re-used solver takes the time step to " + str(a) + ", a fresh one to " + str(b)); }
        c.require(S.StepsTaken() == F.StepsTaken(), "number of steps"); for (unsigned i = 0; i < F.StepsTaken(); i++) for (unsigned j = 0; j < N; j++) { c.require(S.SolutionAt(i)[j] == F.SolutionAt(i)[j] && S.DerivativeAt(i)[j] == F.DerivativeAt(i)[j] && S.TimeAt(i) == F.TimeAt(i), "re-used solver gives another solution than a fresh one"); }
        vector<double> t, o1(10 * N), o2(10 * N), tt(10); S.OutputDense(10, 0, S.LastTime(), o1.data(), tt.data()); F.OutputDense(10, 0, F.LastTime(), o2.data(), tt.data()); c.require(o1 == o2, "re-used solver gives another dense output than a fresh one"); }
    c.nontrivial(rounds > 1);
}
FACET("P10", reuse, 3000, "at least two problems on one solver") { switch (c.draw(3)) { case 0: reuse_case<1>(c); break; case 1: reuse_case<2>(c); break; default: reuse_case<3>(c); } }

static Vector<1>& geq(const slibreal_t t, const Vector<1>& y, Vector<1>& o) { o[0] = -y[0] + t; return o; }
template<unsigned N> static void order_case(Ctx& c) {
    Prob<N> P; P.gen(c); RKDP45<N> S(1e-6); S.SetEquation(&P); double t0 = c.bulk(0, 2), h = c.bulk(0.03, 0.06); double y[N]; P.exact(t0, y); Vector<N> Y(y), D; P.Evaluate(t0, Y, D); c.note << P.desc() << " t=" << t0 << " h=" << h;
    double err[2], est[2], scale = 1; for (int k = 0; k < 2; k++) { double hh = k ? h / 2 : h, ex[N]; Vector<N> R = S.InnerStep(t0, hh, Y, D); P.exact(t0 + hh, ex); err[k] = 0; for (unsigned j = 0; j < N; j++) { err[k] = max(err[k], fabs(R[j] - ex[j])); scale = max(scale, fabs(ex[j])); } Vector<N> one; est[k] = S.EstimateError(Y, R) * 1e-6; }
    double lam = 1; for (auto& k : P.comp) lam = max(lam, fabs(k.p) * (k.kind == 3 || k.kind == 5 ? 5 : 1));
    // fifth order: one-step error C h^6 with C bounded by the problem's derivatives
    double x = lam * h * 2; c.require(err[0] <= scale * (0.004 * pow(x, 6) + 1e-14), "one step of h=" + str(h) + " is off by " + str(err[0]) + ": not fifth-order accurate"); c.require(err[1] <= scale * (0.004 * pow(x / 2, 6) + 1e-14), "one step of h=" + str(h / 2) + " is off by " + str(err[1]) + ": not fifth-order accurate");
    c.require(est[0] <= 0.004 * pow(x, 5) + 1e-14, "error estimate " + str(est[0]) + " of one step of h=" + str(h) + " is not of fifth order"); c.require(est[1] <= 0.004 * pow(x / 2, 5) + 1e-14, "error estimate " + str(est[1]) + " of one step is not of fifth order");
    if (getenv("PBT_DBG")) { g_worst[2] = max(g_worst[2], (err[0] - 1e-14 * scale) / scale / pow(x, 6)); g_worst[3] = max(g_worst[3], (est[0] - 1e-14) / pow(x, 5)); FILE *dbg = fopen(getenv("PBT_DBG"), "a"); fprintf(dbg, "order %g %g\n", g_worst[2], g_worst[3]); fclose(dbg); }
    // the estimate does not miss the error
    c.require(est[0] * sqrt((double)N) * 2 * scale * 3 + 1e-12 * scale + pow(x, 6) * scale >= err[0], "error estimate misses the error");
    c.nontrivial(err[0] > 1e-13);
}
FACET("P10", order, 10000, "one-step error above rounding") { switch (c.draw(3)) { case 0: order_case<1>(c); break; case 1: order_case<2>(c); break; default: order_case<4>(c); } 
    GeneralEquation<1> G(geq); RKDP45<1> S(1e-8); S.SetEquation(&G); double y0 = c.bulk(-2, 2); S.InitialValue(Vector<1>(&y0)); for (int i = 0; i < 5; i++) S.Step(); double t = S.LastTime(); c.close(S.LastSolution()[0], t - 1 + (y0 + 1) * exp(-t), 0, 1e-7 * (1 + t), "function-pointer equation"); }

// ---------------------------------------------------------------- P22
struct Peak { int kind; double m, w, A; 
    double f(double x) const { double u = (x - m) / w; switch (kind) { case 0: return A * exp(-u * u); case 1: return A / (cosh(u) * cosh(u)); case 2: return A / cosh(u); case 3: return u < 0 ? A * exp(-u * u) : A * exp(-u * u / 4); default: return A / (1 + u * u * u * u * u * u); } }
    double F(double x) const { double u = (x - m) / w; switch (kind) { case 0: return A * w * sqrt(M_PI) / 2 * erf(u); case 1: return A * w * tanh(u); case 2: return A * w * 2 * atan(tanh(u / 2)); case 3: return u < 0 ? A * w * sqrt(M_PI) / 2 * erf(u) : A * w * sqrt(M_PI) * erf(u / 2); default: return 0; } } };
FACET("P22", maximum, 15000, "peak narrower than half of the interval and not in its middle") {
    PeakedIntegration I; Peak p; p.kind = (int)c.draw(5); double a = 0, b = 2 * M_PI; bool range = c.coin(); if (range) { a = c.bulk(-20, 20); b = a + c.logreal(0.05, 50); } double tol = c.logreal(1e-7, 0.3) * (b - a) / 6; bool deftol = !range && c.coin(); if (deftol) tol = 1e-2;
    p.m = c.real(a, b); p.w = (b - a) * c.logreal(0.15, 3); p.A = c.logreal(1e-6, 1e6); double lo = 1e300, hi = -1e300; int n = 0; c.note << "peak kind " << p.kind << " at " << p.m << " width " << p.w << " in [" << a << "," << b << "] tol " << tol;
    function<slibreal_t(slibreal_t)> f = [&](slibreal_t x) { lo = min(lo, x); hi = max(hi, x); n++; return p.f(x); };
    double m = deftol ? I.FindMaximum(f) : range ? I.FindMaximum(f, tol, a, b) : I.FindMaximum(f, tol); double fuzz = p.kind == 4 ? 4e-3 : 5e-8; // flat tops are not resolved below rounding
    c.require(fabs(m - p.m) <= 0.51 * tol + 3 * fuzz * p.w, "located maximum is " + str(m) + ", true maximum " + str(p.m)); c.require(m >= a && m <= b, "located maximum is outside of the interval"); double e = 1e-12 * (fabs(a) + fabs(b)); c.require(lo >= a - e && hi <= b + e, "function was evaluated at " + str(lo) + ".." + str(hi) + ", outside of the interval"); c.require(n < 200, "too many evaluations");
    c.nontrivial(p.w < (b - a) / 2 && fabs(p.m - 0.5 * (a + b)) > 0.1 * (b - a));
}
FACET("P22", integral, 15000, "peak decays inside the interval") {
    PeakedIntegration I; Peak p; p.kind = (int)c.draw(4); double a = c.coin() ? 0 : c.bulk(-5, 5), L = c.coin() ? 2 * M_PI : c.logreal(0.2, 20), b = a + L; double cutoff = c.logreal(1e-10, 1e-2), fall;
    p.w = L * c.logreal(0.01, 0.2); p.A = c.logreal(1e-4, 1e4); bool edge = c.chance(25); p.m = edge ? (c.coin() ? a + c.bulk(0, 2) * p.w : b - c.bulk(0, 2) * p.w) : c.bulk(a, b); fall = p.w * c.logreal(0.005, 0.4); p.m = min(max(p.m, a), b);
    double lo = 1e300, hi = -1e300; long n = 0; function<slibreal_t(slibreal_t)> f = [&](slibreal_t x) { lo = min(lo, x); hi = max(hi, x); n++; return p.f(x); };
    uint64_t how = c.draw(3); double v; if (how == 0) p.w = max(p.w, 0.12 * L); c.note << "peak kind " << p.kind << " at " << p.m << " width " << p.w << " height " << p.A << " in [" << a << "," << b << "] step " << fall << " cutoff " << cutoff << " how " << how;
    if (how == 0) v = I.Evaluate(f, a, b, fall, cutoff); else if (how == 1) v = I.Evaluate(f, a, b, fall, cutoff, p.m, p.A); else { double off = min(max(p.m + c.bulk(-3, 3) * p.w, a), b); v = I.Evaluate(f, a, b, fall, cutoff, off, p.f(off)); }
    double exact = p.F(b) - p.F(a); // sampling error of the resolved peak, tail below the cutoff, ends of the interval
    double tailw = p.kind == 0 ? 0.5 : p.kind == 1 ? 0.6 : p.kind == 2 ? 1.2 : 2.0; double ends = fall * (p.f(a) + p.f(b)); double smooth = p.kind == 3 ? 0.2 * p.A * fall * fall / p.w : 0; 
    double lim = ends * 1.05 + 2 * tailw * p.w * cutoff * p.A + 2 * fall * cutoff * p.A + smooth + 1e-9 * p.A * p.w + (fall > 0.35 * p.w ? 1e-5 * p.A * p.w : 0);
    c.require(fabs(v - exact) <= lim, "integral is " + str(v) + ", exact " + str(exact) + ", error limit " + str(lim)); double e = 1e-12 * (fabs(a) + fabs(b)); c.require(lo >= a - e && hi <= b + e, "integrand was evaluated at " + str(lo) + ".." + str(hi) + ", outside of the interval");
    c.nontrivial(p.f(a) < 0.01 * p.A && p.f(b) < 0.01 * p.A);
}
FACET("P22", zero_falloff, 200, "always") { PeakedIntegration I; function<slibreal_t(slibreal_t)> f = [](slibreal_t x) { return exp(-x * x); }; bool t = false; try { I.Evaluate(f, -1, 1, 0, c.logreal(1e-6, 1e-2), 0, 1); } catch (SOFTLibException&) { t = true; } c.require(t, "zero fall-off was not refused"); c.nontrivial(); }
