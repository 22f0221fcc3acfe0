// Structural damage to a data file: one variable is replaced by something of another shape, type or value.
#ifndef MANGLE_H
#define MANGLE_H
#include "pbt.h"
#include <cstdio>
#include <fstream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <H5Cpp.h>
namespace mangle_ns {
using namespace std; using pbt::Ctx;
static inline herr_t visit(hid_t, const char *name, const H5O_info_t *info, void *p) { if (info->type == H5O_TYPE_DATASET) ((vector<string>*)p)->push_back(name); return 0; }
static inline double odd(Ctx& c) { return c.pickl<double>({0, -1, 1, 0.5, 2, -3, 1e9, 1e300, -1e300, 4294967296.0, 4294967297.0, numeric_limits<double>::quiet_NaN(), numeric_limits<double>::infinity(), -numeric_limits<double>::infinity()}); }
static inline void sdt(Ctx& c, const string& fn) {
    ifstream is(fn); vector<string> L; string l; while (getline(is, l)) L.push_back(l); is.close(); vector<size_t> h; for (size_t i = 0; i < L.size(); i++) if (L[i].compare(0, 8, "@matrix ") == 0) h.push_back(i); if (h.empty()) c.discard();
    size_t i = h[c.draw(h.size())]; istringstream ss(L[i]); string w, nm; size_t r, k; ss >> w >> nm >> r >> k; vector<double> v; for (size_t q = 0; q < r; q++) { istringstream t(L[i+1+q]); double x; while (t >> x) v.push_back(x); } int op = (int)c.draw(6);
    switch (op) { case 0: r = k = 0; break; case 1: if (c.coin()) r = 0; else k = 0; break; case 2: swap(r, k); break; case 3: (c.coin() ? r : k) += 1; break; case 4: if (c.coin() && r > 1) r--; else if (k > 1) k--; break; default: if (!v.empty()) v[c.draw(v.size())] = c.pickl<double>({0, -1, 0.5, 2, -3, 1e9, 1e300, -1e300}); }
    v.resize(r * k, 1.0); c.note << "mangled " << nm << " op" << op << " " << r << "x" << k << "; "; ofstream o(fn); o.precision(17); size_t e = h.back() == i ? L.size() : 0; if (!e) for (size_t q : h) if (q > i) { e = q; break; } for (size_t q = i + 1; q < L.size(); q++) if (L[q][0] == '@') { e = q; break; }
    for (size_t q = 0; q < i; q++) o << L[q] << "\n"; o << "@matrix " << nm << " " << r << " " << k << "\n"; for (size_t a = 0; a < r; a++) { for (size_t b = 0; b < k; b++) o << v[a*k+b] << " "; o << "\n"; } o << "\n"; for (size_t q = e; q < L.size(); q++) o << L[q] << "\n";
}
static inline void hdf5(Ctx& c, const string& fn) {
    H5::H5File f(fn, H5F_ACC_RDWR); vector<string> names; H5Ovisit(f.getId(), H5_INDEX_NAME, H5_ITER_INC, visit, &names); if (names.empty()) c.discard(); string nm = c.pick(names); vector<double> v; vector<hsize_t> d; int op = (int)c.draw(13); bool num = true;
    { H5::DataSet ds = f.openDataSet(nm); num = ds.getTypeClass() == H5T_FLOAT || ds.getTypeClass() == H5T_INTEGER; H5::DataSpace s = ds.getSpace(); d.resize(s.getSimpleExtentNdims()); if (!d.empty()) s.getSimpleExtentDims(d.data()); if (num) { v.resize(s.getSimpleExtentNpoints()); ds.read(v.data(), H5::PredType::NATIVE_DOUBLE); } }
    c.note << "mangled " << nm << " op" << op << " "; f.unlink(nm); size_t n = v.size(); if (!num && op != 0) { op = 1 + (int)c.draw(5); if (op == 4) op = 11; }
    switch (op) {
        case 0: return;                                                                                   // gone
        case 1: d = {0}; break; case 2: d = {0, 0}; break; case 3: d = {0, 3}; if (c.coin()) d = {3, 0}; break;      // empty
        case 4: { int k = (int)c.range(1, 3); for (auto& x : d) if (x > 1 && k) { x = 1; } break; }        // collapsed
        case 5: { H5::StrType st(H5::PredType::C_S1, 3); f.createDataSet(nm, st, H5::DataSpace(H5S_SCALAR)).write(string("abc"), st); return; }
        case 6: d = {n}; if (c.coin()) d.push_back(1); if (c.coin()) d.insert(d.begin(), 1); if (c.coin()) d.insert(d.begin(), 1); break;    // other rank, same data
        case 7: if (d.size() > 1) swap(d[c.draw(d.size())], d[c.draw(d.size())]); else d.push_back(2); break;
        case 8: if (!d.empty()) d[c.draw(d.size())]++; break; case 9: if (!d.empty()) { auto& x = d[c.draw(d.size())]; if (x > 0) x--; } break;
        case 10: case 12: if (n) { v[c.draw(n)] = odd(c); c.note << "value "; } break;
        default: if (c.coin()) f.createGroup(nm); else f.createDataSet(nm, H5::PredType::IEEE_F64LE, H5::DataSpace(H5S_NULL)); return; }
    size_t N = 1; for (auto x : d) { N *= x; c.note << x << " "; } v.resize(N, 1.0); H5::DataSpace sp = d.empty() ? H5::DataSpace(H5S_SCALAR) : H5::DataSpace((int)d.size(), d.data()); f.createDataSet(nm, H5::PredType::IEEE_F64LE, sp).write(v.data(), H5::PredType::NATIVE_DOUBLE);
}
}
static inline void mangle(pbt::Ctx& c, const std::string& fn) { if (fn.substr(fn.rfind('.')) == ".sdt") mangle_ns::sdt(c, fn); else { mangle_ns::hdf5(c, fn); if (c.chance(20)) mangle_ns::hdf5(c, fn); } c.label("mangled"); }
#endif
