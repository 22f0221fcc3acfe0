// Reference model of a data file: an ordered map of typed variables.
#ifndef SFILE_MODEL_H
#define SFILE_MODEL_H
#include "pbt.h"
#include <H5Cpp.h>
#include <softlib/SFile.h>
#include <softlib/SFile_HDF5.h>
#include <softlib/SFile_MAT.h>
#include <softlib/SFile_SDT.h>
#include <softlib/SFileException.h>
#include <limits>
#include <memory>

enum NT { T_D, T_I32, T_I64, T_U32, T_U64, T_STR };
static const char *ntname[] = {"double","int32","int64","uint32","uint64","string"};

template<class T> struct NTof;
template<> struct NTof<double>   { static const NT v = T_D; };
template<> struct NTof<int32_t>  { static const NT v = T_I32; };
template<> struct NTof<int64_t>  { static const NT v = T_I64; };
template<> struct NTof<uint32_t> { static const NT v = T_U32; };
template<> struct NTof<uint64_t> { static const NT v = T_U64; };

struct Var {
    NT type = T_D;
    std::vector<sfilesize_t> dims;      // as the file format stores them (1 or more)
    std::vector<double> d; std::vector<int64_t> i; std::vector<uint64_t> u; // i: signed, u: unsigned
    std::string s;
    size_t n() const { return type==T_D ? d.size() : (type==T_I32||type==T_I64) ? i.size() : u.size(); }
    bool is_signed() const { return type==T_I32 || type==T_I64; }
    double asD(size_t k) const { return type==T_D ? d[k] : is_signed() ? (double)i[k] : (double)u[k]; }
};
typedef std::map<std::string, Var> Model;

inline std::string describe(const Var& v) {
    std::ostringstream o; o.precision(17); o << ntname[v.type];
    if (v.type == T_STR) { o << pbt::str(v.s); return o.str(); }
    o << "("; for (size_t k=0;k<v.dims.size();k++) o << (k?"x":"") << v.dims[k]; o << "){";
    for (size_t k=0;k<v.n() && k<12;k++) { if (k) o << ","; if (v.type==T_D) o << v.d[k]; else if (v.is_signed()) o << v.i[k]; else o << v.u[k]; }
    if (v.n()>12) o << ",..."; o << "}"; return o.str();
}

// ---- typed accessors over the public interface ---------------------------
template<class T> struct Acc;
#define ACC(T, get2, get1, list, array, multi) \
template<> struct Acc<T> { \
    static T **g2(SFile *s, const std::string& n, sfilesize_t *d) { return s->get2(n, d); } \
    static T *g1(SFile *s, const std::string& n, sfilesize_t *d) { return s->get1(n, d); } \
    static void wl(SFile *s, const std::string& n, const T *a, sfilesize_t k, bool gen) { if (gen) s->WriteList(n, a, k); else s->list(n, a, k); } \
    static void wa(SFile *s, const std::string& n, const T *const*a, sfilesize_t r, sfilesize_t c, bool gen) { if (gen) s->WriteArray(n, a, r, c); else s->array(n, a, r, c); } \
    static void wm(SFile *s, const std::string& n, const T *a, sfilesize_t nd, const sfilesize_t *d) { s->multi(n, a, nd, d); } };
ACC(double, GetDoubles, GetDoubles1D, WriteList, WriteArray, WriteMultiArray)
ACC(int32_t, GetInt32_2D, GetInt32_1D, WriteInt32List, WriteInt32Array, WriteMultiInt32Array)
ACC(int64_t, GetInt64_2D, GetInt64_1D, WriteInt64List, WriteInt64Array, WriteMultiInt64Array)
ACC(uint32_t, GetUInt32_2D, GetUInt32_1D, WriteUInt32List, WriteUInt32Array, WriteMultiUInt32Array)
ACC(uint64_t, GetUInt64_2D, GetUInt64_1D, WriteUInt64List, WriteUInt64Array, WriteMultiUInt64Array)

inline void setv(Var& v, size_t k, double x)   { v.d[k] = x; }
inline void setv(Var& v, size_t k, int32_t x)  { v.i[k] = x; }
inline void setv(Var& v, size_t k, int64_t x)  { v.i[k] = x; }
inline void setv(Var& v, size_t k, uint32_t x) { v.u[k] = x; }
inline void setv(Var& v, size_t k, uint64_t x) { v.u[k] = x; }
inline bool eqv(const Var& v, size_t k, double x) { double w = v.d[k]; if (std::isnan(w)) return std::isnan(x); return memcmp(&w,&x,8)==0; }
inline bool eqv(const Var& v, size_t k, int32_t x) { return v.i[k]==x; }
inline bool eqv(const Var& v, size_t k, int64_t x) { return v.i[k]==x; }
inline bool eqv(const Var& v, size_t k, uint32_t x) { return v.u[k]==x; }
inline bool eqv(const Var& v, size_t k, uint64_t x) { return v.u[k]==x; }

template<class T> T genval(pbt::Ctx& c, bool special);
template<> inline double genval<double>(pbt::Ctx& c, bool special) {
    if (c.chance(special ? 4 : 2)) { double sp[] = {INFINITY, -INFINITY, std::nan("")}; return sp[c.draw(3)]; }
    return c.anyfinite();
}
template<class T> T genint(pbt::Ctx& c) {
    switch (c.draw(4)) { case 0: return (T)c.range(0, 9); case 1: return std::numeric_limits<T>::max() - (T)c.draw(3); case 2: return std::numeric_limits<T>::min() + (T)c.draw(3); default: return (T)c.anyu64(); }
}
template<> inline int32_t genval<int32_t>(pbt::Ctx& c, bool) { return genint<int32_t>(c); }
template<> inline uint32_t genval<uint32_t>(pbt::Ctx& c, bool) { return genint<uint32_t>(c); }
// 'special' = full 64-bit range; otherwise restricted to integers a double represents exactly
template<> inline int64_t genval<int64_t>(pbt::Ctx& c, bool special) { int64_t v = genint<int64_t>(c); if (special) return v; v %= 1ll<<53; return c.chance(30) ? v * (1ll << c.draw(11)) : v; }
template<> inline uint64_t genval<uint64_t>(pbt::Ctx& c, bool special) { uint64_t v = genint<uint64_t>(c); if (special) return v; v %= 1ull<<53; return c.chance(30) ? v << c.draw(12) : v; }

template<class T> void alloc(Var& v, size_t n) { v.type = NTof<T>::v; if (v.type==T_D) v.d.resize(n); else if (v.is_signed()) v.i.resize(n); else v.u.resize(n); }

enum Shape { S_LIST, S_ARRAY, S_MULTI, S_SCALAR, S_IMAGE };

// Generates a variable and writes it through the interface.
template<class T> Var gen_write(pbt::Ctx& c, SFile *sf, const std::string& name, Shape sh, bool special, size_t big=6) {
    Var v; std::vector<sfilesize_t> dims; size_t n = 1;
    auto dim = [&]{ return (sfilesize_t)(c.chance(3) ? c.range(1, 40) : c.chance(2) ? c.range(60, 300) : c.range(1, (int64_t)big)); };
    switch (sh) {
        case S_LIST: dims = {c.draw(200) == 199 ? (sfilesize_t)c.range(1000, c.chance(10) ? 70000 : 5000) : dim()}; break;
        case S_ARRAY: dims = {dim(), dim()}; break;
        case S_IMAGE: { sfilesize_t k = dim(); dims = {k, k}; } break;
        case S_SCALAR: dims = {1}; break;
        case S_MULTI: { int nd = (int)c.range(1, c.chance(25) ? 7 : 4); for (int k=0;k<nd;k++) dims.push_back((sfilesize_t)c.range(1, nd>4 ? 3 : 4)); } break;
    }
    if (sh != S_SCALAR && c.chance(4)) { size_t z = c.draw(dims.size()); if (sh == S_IMAGE) dims = {0, 0}; else dims[z] = 0; if (c.chance(10)) for (auto& x : dims) x = 0; }   // empty arrays
    for (auto x : dims) n *= x;
    alloc<T>(v, n); v.dims = dims;
    std::unique_ptr<T[]> a(new T[n]);
    bool ramp = n > 64;
    T base = genval<T>(c, special);
    for (size_t k=0;k<n;k++) { a[k] = ramp && k ? (T)k : k ? genval<T>(c, special) : base; setv(v, k, a[k]); }
    bool gen = c.coin();
    switch (sh) {
        case S_LIST: Acc<T>::wl(sf, name, a.get(), n, gen); break;
        case S_SCALAR: if (NTof<T>::v==T_D) sf->WriteScalar(name, (double)a[0]); else Acc<T>::wl(sf, name, a.get(), 1, gen); break;
        case S_ARRAY: case S_IMAGE: { std::vector<T*> rows; std::vector<std::unique_ptr<T[]>> own; bool apart = c.chance(20);   // rows need not lie next to each other
            for (size_t r=0;r<dims[0];r++) {
                if (!apart) { rows.push_back(a.get()+r*dims[1]); continue; }
                own.emplace_back(new T[dims[1]]); std::copy(a.get()+r*dims[1], a.get()+(r+1)*dims[1], own.back().get()); rows.push_back(own.back().get());
            }
            if (apart && dims[0] > 1) c.label("rows apart");
            if (sh==S_IMAGE && NTof<T>::v==T_D) sf->WriteImage(name, (const double*const*)rows.data(), dims[0]); else Acc<T>::wa(sf, name, rows.data(), dims[0], dims[1], gen); } break;
        case S_MULTI: Acc<T>::wm(sf, name, a.get(), dims.size(), dims.data()); break;
    }
    return v;
}

// Reads a variable back with the reader of its own type through several entry
// points and compares; scribbles over what it got before releasing it.
template<class T> void check_read(pbt::Ctx& c, SFile *sf, const std::string& name, const Var& v, int how) {
    std::string w = "variable " + pbt::str(name) + " written as " + describe(v);
    size_t rank = v.dims.size();
    sfilesize_t r = rank==1 ? 1 : v.dims[0], k = rank==1 ? v.dims[0] : v.dims[1];
    if (rank > 2) how = 2;
    if (how == 1 && r != 1 && k != 1) how = 0; // a matrix is not a list
    if (how == 0) {
        sfilesize_t d[2] = {777,777}; T **a = Acc<T>::g2(sf, name, d);
        if (d[0]!=r || d[1]!=k) c.fail(w + ": 2-D read has shape " + std::to_string(d[0]) + "x" + std::to_string(d[1]));
        for (size_t i=0;i<r;i++) for (size_t j=0;j<k;j++) if (!eqv(v, i*k+j, a[i][j])) { std::ostringstream o; o.precision(17); o << w << ": 2-D read element (" << i << "," << j << ") is " << a[i][j]; c.fail(o.str()); }
        for (size_t i=0;i<r*k;i++) a[0][i] = (T)7;
        delete [] a[0]; delete [] a;
    } else if (how == 1) {
        sfilesize_t n = 777; T *a = Acc<T>::g1(sf, name, &n);
        if (n != r*k) c.fail(w + ": 1-D read has length " + std::to_string(n));
        for (size_t i=0;i<n;i++) if (!eqv(v, i, a[i])) { std::ostringstream o; o.precision(17); o << w << ": 1-D read element " << i << " is " << a[i]; c.fail(o.str()); }
        for (size_t i=0;i<n;i++) a[i] = (T)9;
        delete [] a;
    }
}
inline void check_var(pbt::Ctx& c, SFile *sf, const std::string& name, const Var& v, bool multi) {
    int how = (int)c.draw(multi ? 4 : 3);
    c.require(sf->HasVariable(name), "HasVariable(" + pbt::str(name) + ") is false although it was written");
    if (v.type == T_STR) {
        std::string g = sf->GetString(name);
        c.require(g == v.s, "string " + pbt::str(name) + ": got " + pbt::str(g) + ", expected " + pbt::str(v.s));
        c.require(sf->GetDataType(name) == SFile::SFILE_DATA_STRING, "data type of string " + pbt::str(name) + " is not STRING");
        return;
    }
    size_t rank = v.dims.size();
    if (rank > 2 || how == 3) {
        // The multi-dimensional readers convert to double.
        sfilesize_t nd = 777, d[8]; double *a;
        bool ptr = c.coin();
        std::string w = "variable " + pbt::str(name) + " written as " + describe(v);
        if (c.chance(20) && rank > 1) { void *p = sf->GetMultiArray_linear(name, rank-1, nd, d); c.require(p == nullptr && nd == rank, w + ": reading with too few dimensions allowed must return a null pointer and the rank"); }
        void *p = ptr ? sf->GetMultiArray(name, 8, nd, d) : (void*)sf->GetMultiArray_linear(name, 8, nd, d);
        c.require(p != nullptr, w + ": multi-dimensional read returned null");
        c.require(nd == rank, w + ": rank " + std::to_string(nd));
        for (size_t k=0;k<rank;k++) c.require(d[k] == v.dims[k], w + ": dimension " + std::to_string(k) + " is " + std::to_string(d[k]));
        a = (double*)p;
        if (ptr) {
            // walk every index path through the pointer structure
            size_t n = v.n();
            for (size_t k=0;k<n;k++) {
                std::vector<size_t> idx(rank); size_t q = k; for (size_t m=rank; m-- > 0;) { idx[m] = q % v.dims[m]; q /= v.dims[m]; }
                void *cur = p; for (size_t m=0;m+1<rank;m++) cur = ((void**)cur)[idx[m]];
                double got = ((double*)cur)[idx[rank-1]];
                c.same(got, v.asD(k), w + ": multi-dimensional element " + std::to_string(k));
            }
            void *cur = p; for (size_t m=0;m+1<rank;m++) { void *nx = ((void**)cur)[0]; delete [] (double**)cur; cur = nx; } delete [] (double*)cur;
        } else {
            for (size_t k=0;k<v.n();k++) c.same(a[k], v.asD(k), w + ": linear element " + std::to_string(k));
            delete [] a;
        }
        return;
    }
    if (how == 2 && v.n() == 1) {
        std::string w = "scalar " + pbt::str(name) + " written as " + describe(v);
        switch (v.type) {
            case T_D: c.require(eqv(v,0,sf->GetScalar(name)), w + ": GetScalar differs"); break;
            case T_I32: c.require(eqv(v,0,sf->GetInt32(name)), w + ": GetInt32 differs"); break;
            case T_I64: c.require(eqv(v,0,sf->GetInt64(name)), w + ": GetInt64 differs"); break;
            case T_U32: c.require(eqv(v,0,sf->GetUInt32(name)), w + ": GetUInt32 differs"); break;
            case T_U64: c.require(eqv(v,0,sf->GetUInt64(name)), w + ": GetUInt64 differs"); break;
            default: break;
        }
        return;
    }
    if (how == 2 && v.type == T_D && (rank == 1 || v.dims[0]==1 || v.dims[1]==1)) {
        sfilesize_t n[2] = {777,777}; double *a = sf->GetList(name, n);
        c.require(n[0] == v.n(), "list " + pbt::str(name) + " = " + describe(v) + ": length " + std::to_string(n[0]));
        for (size_t k=0;k<v.n();k++) c.same(a[k], v.d[k], "list " + pbt::str(name) + " element " + std::to_string(k));
        for (size_t k=0;k<v.n();k++) a[k] = -5;
        delete [] a; return;
    }
    if (how == 2) how = 0;
    switch (v.type) {
        case T_D: check_read<double>(c, sf, name, v, how); break;
        case T_I32: check_read<int32_t>(c, sf, name, v, how); break;
        case T_I64: check_read<int64_t>(c, sf, name, v, how); break;
        case T_U32: check_read<uint32_t>(c, sf, name, v, how); break;
        case T_U64: check_read<uint64_t>(c, sf, name, v, how); break;
        default: break;
    }
}
inline Var gen_write_any(pbt::Ctx& c, SFile *sf, const std::string& name, bool multi, bool special) {
    Shape sh = multi ? c.pickl({S_LIST, S_ARRAY, S_SCALAR, S_IMAGE, S_MULTI, S_MULTI}) : c.pickl({S_LIST, S_ARRAY, S_SCALAR, S_IMAGE});
    switch (c.draw(6)) {
        case 0: case 1: return gen_write<double>(c, sf, name, sh, special);
        case 2: return gen_write<int32_t>(c, sf, name, sh, special);
        case 3: return gen_write<int64_t>(c, sf, name, sh, special);
        case 4: return gen_write<uint32_t>(c, sf, name, sh, special);
        default: return gen_write<uint64_t>(c, sf, name, sh, special);
    }
}
#endif
