#include "sfile_model.h"
#include "faketime.h"
#include <chrono>
#include <ctime>
#include <fstream>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace std; using namespace pbt;

static const char *NAMECH = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_";
static string gen_string(Ctx& c, bool anybyte, bool nul) {
    size_t n = c.chance(5) ? (size_t)c.range(100, 700) : (size_t)c.range(0, 14);
    string s; bool wide = anybyte && c.coin();
    if (c.draw(200) == 199) { n = (size_t)c.range(1000, c.chance(20) ? 60000 : 5000); uint64_t x = c.draw(1000000); for (size_t i=0;i<n;i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)(32 + (x >> 40) % 95); } c.label("very long string"); return s; }
    for (size_t i=0;i<n;i++) { unsigned char ch = wide ? (unsigned char)c.range(nul?0:1, 255) : (unsigned char)(32 + c.draw(95)); s += (char)ch; }
    if (nul && n > 0 && c.chance(8)) { s[c.coin() ? n-1 : c.draw(n)] = '\0'; c.label("string with null character"); }
    return s;
}
static string fresh(Ctx& c, const set<string>& used, const vector<string>& structs) {
    string pre = (!structs.empty() && c.chance(40)) ? c.pick(structs) + "/" : "";
    string n;
    for (int k=0;;k++) { n = pre + string(1, "abcdefgh"[c.draw(8)]) + (c.coin() && k<6 ? "" : c.draw(100) == 99 ? c.word(30, 120, NAMECH) : c.word(0, k>5?12:5, NAMECH)); if (!used.count(n)) return n; if (k>50) c.discard(); }
}
// names related to written ones (members without their struct, prefixes, other case) that were not written themselves
static void neverwritten(Ctx& c, SFile *sf, const set<string>& used) {
    auto no = [&](const string& n) { if (!n.empty() && !used.count(n) && n[0] != '/' && n.back() != '/') c.require(!sf->HasVariable(n), "HasVariable(" + str(n) + ") is true although no such variable was written"); };
    for (auto& n : used) { size_t p = n.find_last_of('/'); if (p != string::npos) { no(n.substr(p+1)); no(n.substr(0, p) + "_" + n.substr(p+1)); } no(n.substr(0, n.size()-1)); no(n + "_"); no(n + "x"); string u = n; for (auto& ch : u) ch = isupper(ch) ? tolower(ch) : toupper(ch); no(u); }
}
static herr_t visit(hid_t, const char *name, const H5O_info_t *info, void *p) {
    if (info->type == H5O_TYPE_DATASET) ((set<string>*)p)->insert(name);
    if (info->type == H5O_TYPE_GROUP && strcmp(name, ".")) ((set<string>*)p)->insert(string(name) + "/");
    return 0;
}
static set<string> contents(const string& fn) {
    set<string> s; H5::H5File f(fn, H5F_ACC_RDONLY);
    H5Ovisit(f.getId(), H5_INDEX_NAME, H5_ITER_NATIVE, visit, &s); return s;
}
static string matclass(H5::H5Object& o) {
    if (!o.attrExists("MATLAB_class")) return "(none)";
    H5::Attribute a = o.openAttribute("MATLAB_class"); H5::StrType t = a.getStrType(); string s; a.read(t, s); return s;
}
static void check_mat_header(Ctx& c, const string& fn, time_t t0, time_t t1) {
    ifstream is(fn, ios::binary); string h(512, 0); is.read(&h[0], 512); c.require((bool)is, "MAT file shorter than its 512-byte header");
    bool ok = false; string want;
    for (time_t t=t0; t<=t1; t++) { tm l = *localtime(&t); char b[200]; strftime(b, sizeof b, "MATLAB 7.3 MAT-file, Platform: libsoft, Created on: %a %b %d %H:%M:%S %Y HDF5 schema 1.00 .", &l); string e = b; e.resize(116, ' '); want = e; if (h.compare(0,116,e)==0) ok = true; }
    c.require(ok, "MAT header text is " + str(h.substr(0,116)) + ", expected " + str(want));
    const unsigned char tail[12] = {0,0,0,0,0,0,0,0,0x00,0x02,0x49,0x4d};
    c.require(memcmp(h.data()+116, tail, 12)==0, "MAT header version/endianness bytes are wrong");
}
static void check_list(Ctx& c, SFile *s, const string& n, const double *v, size_t k) { sfilesize_t q = 0; unique_ptr<double[]> p(s->GetList(n, &q)); c.require(q == k, "list has another length"); for (size_t i = 0; i < k; i++) c.same(p[i], v[i], "list element"); }
struct Att { bool isstr; double x; string s; };

static void roundtrip(Ctx& c, bool mat) {
    string fn = c.tmp(mat ? "f.mat" : c.coin() ? "f.h5" : "f.hdf5");
    Model m; vector<string> structs; map<pair<string,string>, Att> atts; set<string> used;
    fake_offset_s = c.chance(70) ? (long)c.range(0, 366*4)*86400 + (long)c.draw(86400) : 0; // any date
    time_t t0 = time(nullptr), t1 = t0; int phases = 1 + (int)c.draw(3); bool typed = c.coin();
    unique_ptr<SFile> sf; bool atty = c.chance(20), upd = false, multi = false, nested = false;
    for (int ph=0; ph<phases; ph++) {
        enum sfile_mode mode = ph==0 ? SFILE_MODE_WRITE : SFILE_MODE_UPDATE; upd |= ph>0;
        if (sf && c.coin()) sf->Open(fn, mode); // re-use the object after Close()
        else { sf.reset(); sf.reset(typed ? SFile::Create(fn, mode, mat?SFILE_TYPE_MATLAB:SFILE_TYPE_HDF5) : SFile::Create(fn, mode)); }
        if (ph == 0) t1 = chrono::system_clock::to_time_t(chrono::system_clock::now());
        c.note << (ph?"update: ":"write ") << (ph?"":fn.substr(fn.rfind('.'))) << ": ";
        int ops = c.draw(150) == 149 ? (int)c.range(20, 60) : (int)c.range(1, atty ? 10 : 7);
        for (int k=0;k<ops;k++) {
            uint64_t op = atty ? c.pickl<uint64_t>({9,0,3,3,3,2}) : c.draw(10);
            if (!m.empty() && c.chance(12)) { auto it = m.begin(); advance(it, c.draw(m.size())); c.note << "read " << it->first << "; "; c.label("read while writing"); c.require(sf->HasVariable(it->first), "a variable of a file being written is not there: " + it->first); check_var(c, sf.get(), it->first, it->second, true); }
            if (op == 0) { string n = fresh(c, used, structs); sf->CreateStruct(n); structs.push_back(n); used.insert(n); c.note << "struct " << n << "; "; }
            else if (op <= 2) { string n = fresh(c, used, structs); Var v; v.type = T_STR; v.s = gen_string(c, true, true); sf->WriteString(n, v.s); m[n] = v; used.insert(n); c.note << n << "=" << describe(v) << "; "; nested |= n.find('/')!=string::npos; }
            else if (op == 3 && !m.empty()) {
                auto it = m.begin(); advance(it, c.draw(m.size())); string an = string(1, "pqr"[c.draw(3)]) + (c.coin() ? "" : c.word(0,3,NAMECH)); Att a; a.isstr = c.coin(); a.x = 0;
                if (atts.count({it->first,an})) continue;
                if (mat) { if (used.count(it->first+"_"+an)) continue; used.insert(it->first+"_"+an); }
                if (a.isstr) { a.s = gen_string(c, true, true); sf->WriteAttribute_string(it->first, an, a.s); } else { a.x = genval<double>(c,true); sf->WriteAttribute_scalar(it->first, an, a.x); }
                atts[{it->first,an}] = a; c.note << "attr " << it->first << "." << an << (a.isstr ? str(a.s) : str(a.x)) << "; ";
            } else { string n = fresh(c, used, structs); Var v = gen_write_any(c, sf.get(), n, true, true); m[n] = v; used.insert(n); c.note << n << "=" << describe(v) << "; "; multi |= v.dims.size()>2; nested |= n.find('/')!=string::npos; }
        }
        uint64_t fin = c.draw(10); if (fin == 9) { sf.reset(); c.note << "(deleted) "; } else if (fin == 8 && ph + 1 < phases) c.note << "(left open) "; else sf->Close();   // an object that is deleted or opened again closes its file
    }
    if (mat) check_mat_header(c, fn, t0, t1);
    set<string> want; for (auto& kv : m) want.insert(kv.first); for (auto& s : structs) want.insert(s + "/");
    if (mat) for (auto& a : atts) want.insert(a.first.first + "_" + a.first.second);
    set<string> have = contents(fn);
    for (auto& x : want) c.require(have.count(x), "file lacks " + x);
    for (auto& x : have) c.require(want.count(x), "file contains unexpected object " + x);
    if (mat) { H5::H5File f(fn, H5F_ACC_RDONLY);
        for (auto& kv : m) { H5::DataSet ds = f.openDataSet(kv.first); string cl = matclass(ds);
            if (kv.second.type==T_STR) { c.require(cl=="char", "MATLAB class of string "+kv.first+" is "+cl); vector<unsigned short> b(kv.second.s.size() + 1); c.require(ds.getSpace().getSimpleExtentNpoints() == (hssize_t)kv.second.s.size(), "stored string "+kv.first+" has another length"); c.require(ds.attrExists("MATLAB_int_decode"), "string "+kv.first+" is not tagged as character codes"); if (!kv.second.s.empty()) ds.read(b.data(), H5::PredType::NATIVE_USHORT); for (size_t i = 0; i < kv.second.s.size(); i++) if (b[i] != (unsigned char)kv.second.s[i]) c.fail("character " + to_string(i) + " of " + str(kv.second.s) + " is stored as code " + to_string(b[i])); }
            else if (kv.second.dims.size()>=2) c.require(cl==ntname[kv.second.type], "MATLAB class of "+kv.first+" = "+describe(kv.second)+" is "+cl); }
        for (auto& s : structs) { H5::Group g = f.openGroup(s); c.require(matclass(g)=="struct", "MATLAB class of struct "+s+" is "+matclass(g)); } }
    // read back
    static const SFile::sfile_data_type dt[] = {SFile::SFILE_DATA_DOUBLE, SFile::SFILE_DATA_INT32, SFile::SFILE_DATA_INT64, SFile::SFILE_DATA_UINT32, SFile::SFILE_DATA_UINT64, SFile::SFILE_DATA_STRING};
    if (c.coin() && sf) { sf->Open(fn, SFILE_MODE_READ); } else { sf.reset(); sf.reset(SFile::Create(fn, SFILE_MODE_READ)); }
    int reads = 2 + (int)c.draw(6); vector<string> names; for (auto& kv : m) names.push_back(kv.first);
    for (int k=0;k<reads && !names.empty();k++) { string n = c.pick(names); check_var(c, sf.get(), n, m[n], true); }
    for (auto& n : names) { check_var(c, sf.get(), n, m[n], true); c.require(sf->GetDataType(n)==dt[m[n].type], "GetDataType("+n+") wrong for "+describe(m[n])); }
    for (auto& a : atts) { if (a.second.isstr) { string g = sf->GetAttributeString(a.first.first, a.first.second); c.require(g==a.second.s, "attribute "+a.first.first+"."+a.first.second+" is "+str(g)+", expected "+str(a.second.s)); }
        else c.same(sf->GetAttributeScalar(a.first.first, a.first.second), a.second.x, "attribute "+a.first.first+"."+a.first.second); }
    { set<string> u2 = used; for (auto& a : atts) if (mat) u2.insert(a.first.first + "_" + a.first.second); neverwritten(c, sf.get(), u2); }
    string no = "zz" + c.word(0,4,NAMECH); c.require(!sf->HasVariable(no), "HasVariable true for a name never written");
    for (auto& s : structs) c.require(!sf->HasVariable(s+"/zz"), "HasVariable true for a member never written");
    sf->Close();
    // reading must not have changed anything: read it all again from a fresh object
    sf.reset(); sf.reset(SFile::Create(fn, SFILE_MODE_READ)); for (auto& n : names) check_var(c, sf.get(), n, m[n], true); sf->Close();
    if (c.chance(10)) { // an object that moves on to another file lets go of the first one
        string ext = mat ? ".mat" : ".h5", A = c.tmp("first" + ext), B = c.tmp("second" + ext); double v[2] = {1, 2}; c.label("moved on"); c.note << "moves on; "; bool ro = c.coin(); sf->Open(A, SFILE_MODE_WRITE); sf->WriteList("v", v, 2); if (ro) { sf->Open(A, SFILE_MODE_READ); } sf->Open(B, SFILE_MODE_WRITE); sf->WriteList("w", v, 1);
        try { unique_ptr<SFile> t(SFile::Create(A, SFILE_MODE_READ)); check_list(c, t.get(), "v", v, 2); t->Close(); t.reset(SFile::Create(A, SFILE_MODE_WRITE)); t->WriteList("u", v, 2); t->Close(); } catch (SOFTLibException& e) { c.fail("file left by an object that moved on to another file: " + e.whats()); }
        sf.reset(); unique_ptr<SFile> t(SFile::Create(B, SFILE_MODE_READ)); check_list(c, t.get(), "w", v, 1); }
    c.nontrivial(m.size() >= 2);
    if (upd) c.label("update"); if (multi) c.label("rank>2"); if (nested) c.label("nested"); if (!atts.empty()) c.label("attributes"); if (!structs.empty()) c.label("structs");
}
FACET("P01", hdf5_roundtrip, 6000, "write/update history of 1-21 operations, then reads in random order; non-trivial = at least two variables stored") { roundtrip(c, false); }
FACET("P01", mat_roundtrip, 6000, "as hdf5_roundtrip, plus header and class tags") { roundtrip(c, true); }

// ------------------------------------------------------------------ P02
template<class F> static bool refused(Ctx& c, const string& what, F f);
FACET("P02", sdt_roundtrip, 40000, "write history of 1-10 operations, then reads in random order and repeatedly; non-trivial = at least two variables stored") {
    string fn = c.tmp(c.coin() ? "f.sdt" : "f.out"); Model m; map<string,Att> attnames; vector<string> structs; set<string> used; map<pair<string,string>,Att> atts;
    unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); bool atty = c.chance(20); int ops = c.draw(150) == 149 ? (int)c.range(20, 60) : (int)c.range(1,atty?16:10);
    for (int k=0;k<ops;k++) {
        if (c.chance(4)) { string n = fresh(c, used, structs); sfilesize_t d[3] = {1+c.draw(3), 1+c.draw(3), 1+c.draw(3)}; vector<double> z(27, 1.5); vector<int32_t> i4(27, 3); vector<int64_t> i8(27, 4); vector<uint32_t> u4(27, 5); vector<uint64_t> u8(27, 6); int ty = (int)c.draw(5); c.note << "rank-3 " << n << "; "; c.label("rank 3 refused"); // the format has no such variables: refused, and nothing is left behind
            c.require(refused(c, "writing a three-dimensional array", [&]{ switch (ty) { case 0: sf->WriteMultiArray(n, z.data(), 3, d); break; case 1: sf->WriteMultiInt32Array(n, i4.data(), 3, d); break; case 2: sf->WriteMultiInt64Array(n, i8.data(), 3, d); break; case 3: sf->WriteMultiUInt32Array(n, u4.data(), 3, d); break; default: sf->WriteMultiUInt64Array(n, u8.data(), 3, d); } }), "three-dimensional array was silently accepted by the SDT format"); }
        uint64_t op = atty ? c.pickl<uint64_t>({9,0,3,3,3,2}) : c.draw(10);
        if (op==0) { string n = fresh(c, used, structs); sf->CreateStruct(n); structs.push_back(n); used.insert(n); }
        else if (op<=2) { string n = fresh(c, used, structs); Var v; v.type=T_STR; v.s = gen_string(c, true, true); sf->WriteString(n, v.s); m[n]=v; used.insert(n); c.note << n << "=" << describe(v) << "; "; c.label("string"); }
        else if (op==3 && !m.empty()) { auto it=m.begin(); advance(it, c.draw(m.size())); string an = string(1,"pqr"[c.draw(3)])+(c.coin() ? "" : c.word(0,3,NAMECH)); if (used.count(it->first+"_"+an)) continue; used.insert(it->first+"_"+an);
            Att a; a.isstr=c.coin(); a.x=0; if (a.isstr) { a.s=gen_string(c,true,true); sf->WriteAttribute_string(it->first,an,a.s);} else { a.x=genval<double>(c, false); sf->WriteAttribute_scalar(it->first,an,a.x);} atts[{it->first,an}]=a; c.note << "attr " << it->first << "." << an << "=" << (a.isstr?str(a.s):str(a.x)) << "; "; c.label("attributes"); }
        else { string n = fresh(c, used, structs); Var v = gen_write_any(c, sf.get(), n, false, false); if (v.dims.size()==1) v.dims={1,v.dims[0]}; m[n]=v; used.insert(n); c.note << n << "=" << describe(v) << "; "; }
    }
    bool left = false; { uint64_t fin = c.draw(10); left = fin == 8; if (fin == 9) { sf.reset(); sf.reset(SFile::Create(c.tmp("dummy.sdt"), SFILE_MODE_WRITE)); c.note << "(deleted) "; } else if (fin != 8) sf->Close(); else c.note << "(left open) "; }
    if (c.chance(35)) { // append in update mode
        c.label("update"); c.note << "update: "; if (left || c.coin()) sf->Open(fn, SFILE_MODE_UPDATE); else sf.reset(SFile::Create(fn, SFILE_MODE_UPDATE));
        int n2 = (int)c.range(1,4); for (int k=0;k<n2;k++) { string n = fresh(c, used, structs); used.insert(n); Var v; if (c.chance(25)) { v.type=T_STR; v.s=gen_string(c,true,true); sf->WriteString(n,v.s); } else { v = gen_write_any(c, sf.get(), n, false, false); if (v.dims.size()==1) v.dims={1,v.dims[0]}; } m[n]=v; c.note << n << "=" << describe(v) << "; "; }
        sf->Close(); left = false;
    }
    if (left || c.coin()) sf->Open(fn, SFILE_MODE_READ); else sf.reset(SFile::Create(fn, SFILE_MODE_READ));
    vector<string> names; for (auto& kv : m) names.push_back(kv.first);
    int reads = 2 + (int)c.draw(10);
    for (int k=0;k<reads && !names.empty();k++) { string n=c.pick(names); check_var(c, sf.get(), n, m[n], false); }
    for (auto& n : names) check_var(c, sf.get(), n, m[n], false);
    for (auto& a : atts) { if (a.second.isstr) { string g=sf->GetAttributeString(a.first.first,a.first.second); c.require(g==a.second.s, "attribute string is "+str(g)+", expected "+str(a.second.s)); } else c.same(sf->GetAttributeScalar(a.first.first,a.first.second), a.second.x, "attribute "+a.first.first+"."+a.first.second); }
    c.require(!sf->HasVariable("zz"+c.word(0,3,NAMECH)), "HasVariable true for a name never written"); neverwritten(c, sf.get(), used);
    for (auto& s : structs) c.require(!sf->HasVariable(s) || m.count(s), "struct name appears as a variable");
    c.nontrivial(m.size()>=2);
    if (c.chance(30)) { // the same object opened on another file must show that file only
        string f2 = c.tmp("g.sdt"); Model m2; { unique_ptr<SFile> s2(SFile::Create(f2, SFILE_MODE_WRITE)); int n2=(int)c.range(0,3); set<string> u2;
            for (int k=0;k<n2;k++) { string n = (!names.empty() && c.coin()) ? c.pick(names) : fresh(c,u2,{}); if (u2.count(n)) continue; u2.insert(n); Var v = gen_write_any(c, s2.get(), n, false, false); if (v.dims.size()==1) v.dims={1,v.dims[0]}; m2[n]=v; }
            s2->Close(); }
        c.note << " | second file: "; for (auto& kv : m2) c.note << kv.first << "=" << describe(kv.second) << "; ";
        sf->Open(f2, SFILE_MODE_READ); for (auto& kv : m2) check_var(c, sf.get(), kv.first, kv.second, false);
        for (auto& n : names) if (!m2.count(n)) c.require(!sf->HasVariable(n), "variable "+n+" of the previously opened file is still visible");
        c.label("second-file");
    }
}

// ------------------------------------------------------------------ P03
// 'f' must either return or raise the library's exception.
template<class F> static bool refused(Ctx& c, const string& what, F f) {
    try { f(); return false; }
    catch (SOFTLibException&) { return true; }
    catch (H5::Exception& e) { c.fail(what + ": an HDF5 exception escaped: " + e.getDetailMsg()); }
    catch (Failure&) { throw; } catch (Discard&) { throw; }
    catch (std::exception& e) { c.fail(what + ": a foreign exception escaped: " + e.what()); }
}
template<class T> static bool fits(double x) { return x > (double)numeric_limits<T>::min() - 1.0 && x < (double)numeric_limits<T>::max() && fabs(x) < 9.2e18; }
template<> bool fits<double>(double) { return true; }
// expected conversion of element k to T; false = not representable (no claim)
template<class T> static bool conv(const Var& v, size_t k, T& out) {
    if (v.type == T_D) { double x = trunc(v.d[k]); if (!isfinite(v.d[k]) || !fits<T>(x)) return false; out = (T)x; return true; }
    if (v.is_signed()) { int64_t x = v.i[k]; if (numeric_limits<T>::is_integer) { if (numeric_limits<T>::is_signed ? (x < (int64_t)numeric_limits<T>::min() || x > (int64_t)numeric_limits<T>::max()) : (x < 0 || (uint64_t)x > (uint64_t)numeric_limits<T>::max())) return false; } out = (T)x; return true; }
    uint64_t x = v.u[k]; if (x > (uint64_t)numeric_limits<T>::max()) return false; out = (T)x; return true;
}
template<> bool conv<double>(const Var& v, size_t k, double& out) { out = v.asD(k); return true; }
template<class T> static void cmp(Ctx& c, const string& w, const Var& v, size_t k, T got) {
    T want; if (!conv<T>(v, k, want)) return;
    if (got == want || (got != got && want != want)) return;
    if (!numeric_limits<T>::is_integer && fabs((double)got-(double)want) <= 1e-15*fabs((double)want)) return; // 64-bit integer to real: either rounding
    ostringstream o; o.precision(17); o << w << ": element " << k << " is " << got << ", expected " << want; c.fail(o.str());
}
static void rc(const Var& v, sfilesize_t& r, sfilesize_t& k) { if (v.dims.size()==1) { r=1; k=v.dims[0]; } else { r=v.dims[0]; k=v.dims[1]; } }

template<class T> static void acc2(Ctx& c, SFile *sf, const string& w, const string& n, const Var *v, T **(*get)(SFile*, const string&, sfilesize_t*), bool codes) {
    sfilesize_t d[2] = {777,777}; T **a = nullptr;
    bool ref = refused(c, w, [&]{ a = get(sf, n, d); });
    bool ok = v && v->type != T_STR && v->dims.size() <= 2;
    if (ref) { c.require(!ok, w + ": refused although it is a numeric matrix"); return; }
    if (v && v->type == T_STR && codes) { delete [] a[0]; delete [] a; return; }
    c.require(ok, w + ": returned data, expected a refusal");
    sfilesize_t r, k; rc(*v, r, k);
    c.require(d[0]==r && d[1]==k, w + ": shape " + to_string(d[0]) + "x" + to_string(d[1]));
    for (size_t i=0;i<r;i++) for (size_t j=0;j<k;j++) cmp<T>(c, w, *v, i*k+j, a[i][j]);
    delete [] a[0]; delete [] a;
}
template<class T> static void acc1(Ctx& c, SFile *sf, const string& w, const string& n, const Var *v, T *(*get)(SFile*, const string&, sfilesize_t*), bool codes, bool strict) {
    sfilesize_t d = 777; T *a = nullptr; bool ref = refused(c, w, [&]{ a = get(sf, n, &d); });
    bool num = v && v->type != T_STR && v->dims.size() <= 2; sfilesize_t r=0, k=0; if (num) rc(*v, r, k);
    bool vec = num && (r==1 || k==1);
    if (ref) { c.require(!vec, w + ": refused although it is a vector"); return; }
    if (v && v->type == T_STR && codes) { delete [] a; return; }
    c.require(num && (vec || !strict), w + ": returned data, expected a refusal");
    c.require(d == r*k, w + ": length " + to_string(d));
    for (size_t i=0;i<d;i++) cmp<T>(c, w, *v, i, a[i]);
    delete [] a;
}
template<class T> static void acc0(Ctx& c, SFile *sf, const string& w, const string& n, const Var *v, T (SFile::*get)(const string&), bool codes) {
    T x = T(); bool ref = refused(c, w, [&]{ x = (sf->*get)(n); });
    bool ok = v && v->type != T_STR && v->dims.size() <= 2 && v->n()==1;
    if (ref) { c.require(!ok, w + ": refused although it is a scalar"); return; }
    if (v && v->type == T_STR && codes && v->s.size()==1) return;
    c.require(ok, w + ": returned a value, expected a refusal");
    cmp<T>(c, w, *v, 0, x);
}
FACET("P03", access, 10000, "file in any of the three formats, then 3-30 typed accesses right and wrong; non-trivial = at least one refused and one successful access expected") {
    int fmt = (int)c.draw(3); string fn = c.tmp(fmt==0 ? "a.h5" : fmt==1 ? "a.mat" : "a.sdt"); Model m; set<string> used; map<pair<string,string>,Att> atts;
    { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); int n = (int)c.range(1,5);
      for (int k=0;k<n;k++) { string nm = fresh(c, used, {}); used.insert(nm); Var v; bool mk = c.chance(20);
        if (mk) { v.type = T_STR; v.s = gen_string(c, true, true); sf->WriteString(nm, v.s); }
        else { v = gen_write_any(c, sf.get(), nm, fmt!=2, fmt!=2); if (fmt==2 && v.dims.size()==1) v.dims={1,v.dims[0]}; }
        m[nm]=v; c.note << nm << "=" << describe(v) << "; ";
        if (c.chance(30)) { string an(1,"pqr"[c.draw(3)]); Att a; a.isstr=c.coin(); a.x=0; if (a.isstr) { a.s=gen_string(c,true,true); sf->WriteAttribute_string(nm,an,a.s);} else { a.x=c.anyfinite(); sf->WriteAttribute_scalar(nm,an,a.x);} atts[{nm,an}]=a; used.insert(nm+"_"+an); c.note << "attr " << nm << "." << an << "; "; }
        if (c.chance(10) && !used.count(nm+"_z")) { double q[3] = {1,2,3}; sf->WriteList(nm+"_z", q, 3); used.insert(nm+"_z"); Var l; l.type = T_D; l.dims = {3}; l.d = {1,2,3}; if (fmt==2) l.dims={1,3}; m[nm+"_z"] = l; }   // a variable whose name looks like an attribute
      }
      sf->CreateStruct("zstruct"); sf->Close(); }
    unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_READ)); vector<string> names; for (auto& kv : m) names.push_back(kv.first);
    int ops = (int)c.range(3,30); bool good=false, wrong=false;
    for (int k=0;k<ops;k++) {
        string n = c.chance(12) ? c.pickl<string>({"zmissing","zstruct","zstruct/q","z/y/x","Z"}) : c.pick(names); const Var *v = m.count(n) ? &m[n] : nullptr; bool codes = fmt==1;
        uint64_t op = c.draw(19); string w = "access " + to_string(op) + " of " + str(n) + (v ? " = " + describe(*v) : " (missing)") + " in " + fn.substr(fn.rfind('.'));
        (v && v->type!=T_STR ? good : wrong) = true;
        switch (op) {
            case 0: acc2<int64_t>(c, sf.get(), w+" GetIntArray", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetIntArray(q,d); }, false); break;
            case 1: acc1<int64_t>(c, sf.get(), w+" GetIntList", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetIntList(q,d); }, false, true); break;
            case 2: acc0<int64_t>(c, sf.get(), w+" GetInt", n, v, &SFile::GetInt, false); break;
            case 3: acc2<double>(c, sf.get(), w+" GetDoubles", n, v, Acc<double>::g2, codes); break;
            case 4: acc2<int32_t>(c, sf.get(), w+" GetInt32_2D", n, v, Acc<int32_t>::g2, codes); break;
            case 5: acc2<int64_t>(c, sf.get(), w+" GetInt64_2D", n, v, Acc<int64_t>::g2, codes); break;
            case 6: acc2<uint32_t>(c, sf.get(), w+" GetUInt32_2D", n, v, Acc<uint32_t>::g2, codes); break;
            case 7: acc2<uint64_t>(c, sf.get(), w+" GetUInt64_2D", n, v, Acc<uint64_t>::g2, codes); break;
            case 8: acc1<double>(c, sf.get(), w+" GetList", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetList(q,d); }, codes, true); break;
            case 9: acc1<double>(c, sf.get(), w+" GetDoubles1D", n, v, Acc<double>::g1, codes, true); break;
            case 10: acc1<int32_t>(c, sf.get(), w+" GetInt32_1D", n, v, Acc<int32_t>::g1, codes, true); break;
            case 11: acc1<uint64_t>(c, sf.get(), w+" GetUInt64_1D", n, v, Acc<uint64_t>::g1, codes, true); break;
            case 12: acc0<double>(c, sf.get(), w+" GetScalar", n, v, &SFile::GetScalar, codes); break;
            case 13: if (c.coin()) acc0<int32_t>(c, sf.get(), w+" GetInt32", n, v, &SFile::GetInt32, codes); else acc0<int64_t>(c, sf.get(), w+" GetInt64", n, v, &SFile::GetInt64, codes); break;
            case 14: if (c.coin()) acc0<uint32_t>(c, sf.get(), w+" GetUInt32", n, v, &SFile::GetUInt32, codes); else acc0<uint64_t>(c, sf.get(), w+" GetUInt64", n, v, &SFile::GetUInt64, codes); break;
            case 15: { string s; bool ref = refused(c, w+" GetString", [&]{ s = sf->GetString(n); }); bool ok = v && v->type==T_STR; c.require(ref != ok, w + (ref ? " GetString refused a string" : " GetString returned "+str(s)+" for something that is no string")); if (ok) c.require(s==v->s, w+" GetString: "+str(s)); wrong |= !ok; } break;
            case 16: { c.require(sf->HasVariable(n) == (v!=nullptr), w+" HasVariable wrong"); if (!v) c.require(sf->GetDataType(n)==SFile::SFILE_DATA_UNDEFINED, w+": data type of a missing variable is not UNDEFINED"); else c.require((sf->GetDataType(n)==SFile::SFILE_DATA_STRING) == (v->type==T_STR), w+" GetDataType wrong"); } break;
            case 17: { string an(1,"pqrz"[c.draw(4)]); auto it = atts.find({n,an}); bool ex = it!=atts.end(); w += " attribute " + an;
                if (c.coin()) { double x=0; bool ref = refused(c, w, [&]{ x = sf->GetAttributeScalar(n,an); }); bool ok = ex && !it->second.isstr; if (ref) c.require(!ok, w+": scalar attribute refused"); else if (ok) c.same(x, it->second.x, w); else if (!(fmt==1 && ex && it->second.s.size()==1)) c.fail(w+": made-up scalar "+str(x)); wrong |= !ok; }
                else { string x; bool ref = refused(c, w, [&]{ x = sf->GetAttributeString(n,an); }); bool ok = ex && it->second.isstr; if (ref) c.require(!ok, w+": string attribute refused"); else { c.require(ok, w+": made-up string "+str(x)); c.require(x==it->second.s, w+": got "+str(x)); } wrong |= !ok; } } break;
            case 18: { sfilesize_t nd=0, d[8]; double *a=nullptr; bool ref = refused(c, w+" GetMultiArray_linear", [&]{ a = sf->GetMultiArray_linear(n, 8, nd, d); }); bool ok = v && v->type!=T_STR && fmt!=2;
                if (ref) c.require(!ok, w+": multi-dimensional read refused"); else if (v && v->type==T_STR && codes) delete [] a; else { c.require(ok, w+": multi-dimensional read returned data, expected a refusal"); c.require(a && nd==v->dims.size(), w+": rank"); for (size_t q=0;q<v->n();q++) cmp<double>(c, w, *v, q, a[q]); delete [] a; } } break;
        }
    }
    sf->Close(); c.nontrivial(good && wrong); c.label(fmt==0?"hdf5":fmt==1?"mat":"sdt");
}
// files made by other programs: number types, byte orders, ranks and string layouts that the library itself does not write
FACET("P03", foreign, 4000, "HDF5/MAT file written with HDF5 itself; non-trivial = a number type or layout the library does not write") {
    bool mat = c.coin(); string fn = c.tmp(mat ? "f.mat" : "f.h5"); Model m; set<string> used, lib, nulls, chars; bool nt = false; map<string,double> an; map<string,string> as; string g = c.chance(30) ? "grp/" : "";
    struct TY { H5::PredType t; int bits; char k; bool lib; };
    static const TY TS[] = {{H5::PredType::IEEE_F64LE,64,'f',true},{H5::PredType::IEEE_F64BE,64,'f',false},{H5::PredType::IEEE_F32LE,32,'f',false},{H5::PredType::IEEE_F32BE,32,'f',false},
        {H5::PredType::STD_I8LE,8,'i',false},{H5::PredType::STD_I16LE,16,'i',false},{H5::PredType::STD_I16BE,16,'i',false},{H5::PredType::STD_I32LE,32,'i',true},{H5::PredType::STD_I32BE,32,'i',false},{H5::PredType::STD_I64LE,64,'i',true},{H5::PredType::STD_I64BE,64,'i',false},
        {H5::PredType::STD_U8LE,8,'u',false},{H5::PredType::STD_U16LE,16,'u',false},{H5::PredType::STD_U16BE,16,'u',false},{H5::PredType::STD_U32LE,32,'u',true},{H5::PredType::STD_U32BE,32,'u',false},{H5::PredType::STD_U64LE,64,'u',true},{H5::PredType::STD_U64BE,64,'u',false}};
    { H5::H5File f(fn, H5F_ACC_TRUNC); if (!g.empty()) f.createGroup("grp"); int n = (int)c.range(1, 4);
      for (int q = 0; q < n; q++) { string nm = fresh(c, used, {}); used.insert(nm); nm = g + nm; Var v; hsize_t d[3] = {1,1,1}; int rank = c.chance(70) ? 2 : (int)c.draw(4); for (int k = 0; k < rank; k++) d[k] = c.coin() ? 1 : (hsize_t)c.range(c.chance(5) ? 0 : 1, 6);
        size_t N = (size_t)(d[0]*d[1]*d[2]); H5::DataSpace sp = rank == 0 ? H5::DataSpace(H5S_SCALAR) : H5::DataSpace(rank, d);
        if (c.chance(25)) { // a string
            v.type = T_STR; v.s = gen_string(c, true, false); if (v.s.empty()) v.s = "s"; hsize_t L = v.s.size(); int lay = (int)c.draw(mat ? 5 : 2); nt = true;
            if (lay == 0) { H5::StrType st(H5::PredType::C_S1, L + c.draw(2)); H5::DataSpace s0(H5S_SCALAR); if (mat) { hsize_t one = 1; s0 = H5::DataSpace(1, &one); } f.createDataSet(nm, st, s0).write(v.s, st); }
            else if (lay == 1) { H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE); H5::DataSpace s0(H5S_SCALAR); if (mat) { hsize_t one = 1; s0 = H5::DataSpace(1, &one); } f.createDataSet(nm, st, s0).write(v.s, st); }
            else { hsize_t s1[2] = {L, 1}; int r = lay == 2 ? 1 : 2; if (lay == 4) { s1[0] = 1; s1[1] = L; } vector<unsigned short> b; for (unsigned char ch : v.s) b.push_back(ch); f.createDataSet(nm, H5::PredType::STD_U16LE, H5::DataSpace(r, s1)).write(b.data(), H5::PredType::NATIVE_USHORT); chars.insert(nm); }
            m[nm] = v; c.note << nm << "=" << describe(v) << " layout " << lay << "; "; continue; }
        if (c.chance(4)) { f.createDataSet(nm, H5::PredType::IEEE_F64LE, H5::DataSpace(H5S_NULL)); nulls.insert(nm); m[nm] = Var(); c.note << nm << " without a value; "; nt = true; continue; }
        const TY& t = TS[c.draw(sizeof TS / sizeof *TS)]; v.type = t.k == 'f' ? T_D : t.k == 'i' ? T_I64 : T_U64; for (int k = 0; k < rank; k++) v.dims.push_back(d[k]); if (rank == 0) v.dims = {1, 1};
        for (size_t k = 0; k < N; k++) { uint64_t u = c.anyu64(); if (t.k == 'f') { double x = c.anyfinite(); if (t.bits == 32) { float y = (float)x; x = isfinite(y) ? y : 1; } v.d.push_back(x); } else if (t.k == 'i') { int64_t x = (int64_t)u; if (t.bits < 64) x = (int64_t)((uint64_t)x << (64 - t.bits)) >> (64 - t.bits); v.i.push_back(x); } else v.u.push_back(t.bits < 64 ? u & ((1ull << t.bits) - 1) : u); }
        H5::DataSet ds = f.createDataSet(nm, t.t, sp); if (t.k == 'f') ds.write(v.d.data(), H5::PredType::NATIVE_DOUBLE); else if (t.k == 'i') ds.write(v.i.data(), H5::PredType::NATIVE_INT64); else ds.write(v.u.data(), H5::PredType::NATIVE_UINT64);
        if (t.lib) lib.insert(nm); else nt = true; if (rank == 0) nt = true; if (mat && t.bits == 16 && t.k == 'u') chars.insert(nm);
        if (!mat && c.chance(30)) { H5::DataSpace s0(H5S_SCALAR); if (c.coin()) { float y = (float)c.bulk(-9, 9); ds.createAttribute("a", H5::PredType::IEEE_F32LE, s0).write(H5::PredType::NATIVE_FLOAT, &y); an[nm] = y; } else { string s = gen_string(c, true, false) + "!"; H5::StrType st(H5::PredType::C_S1, c.coin() ? H5T_VARIABLE : s.size() + 1); ds.createAttribute("a", st, s0).write(st, s); as[nm] = s; } }
        m[nm] = v; c.note << nm << "=" << describe(v) << " type " << t.k << t.bits << " rank " << rank << "; "; } }
    unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_READ)); vector<string> names; for (auto& kv : m) names.push_back(kv.first); int ops = (int)c.range(2, 16);
    for (int k = 0; k < ops; k++) { string n = c.pick(names); const Var *v = &m[n]; uint64_t op = c.draw(13); bool codes = chars.count(n); string w = "foreign access " + to_string(op) + " of " + str(n) + " = " + describe(*v) + " in " + fn.substr(fn.rfind('.'));
        if (nulls.count(n)) { c.require(refused(c, w, [&]{ sfilesize_t d[8], nd; switch (op % 5) { case 0: sf->GetDoubles(n, d); break; case 1: sf->GetList(n, d); break; case 2: sf->GetScalar(n); break; case 3: sf->GetDoubles1D(n, d); break; default: sf->GetMultiArray_linear(n, 8, nd, d); } }), w + ": made-up data for a variable without a value"); continue; }
        // the generic integer readers may refuse types the library does not know, but never return wrong values
        auto generic = [&](auto f) { if (v->type == T_STR || !lib.count(n)) { bool ref = refused(c, w, [&]{ f(); }); if (!ref) c.require(v->type != T_STR, w + ": returned numbers for a string"); return ref; } return false; };
        switch (op) {
            case 0: if (!generic([&]{ sfilesize_t d[2]; auto a = sf->GetIntArray(n, d); delete [] a[0]; delete [] a; })) acc2<int64_t>(c, sf.get(), w+" GetIntArray", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetIntArray(q,d); }, codes); break;
            case 1: if (!generic([&]{ sfilesize_t d; delete [] sf->GetIntList(n, &d); })) acc1<int64_t>(c, sf.get(), w+" GetIntList", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetIntList(q,d); }, codes, true); break;
            case 2: if (!generic([&]{ sf->GetInt(n); })) acc0<int64_t>(c, sf.get(), w+" GetInt", n, v, &SFile::GetInt, codes); break;
            case 3: acc2<double>(c, sf.get(), w+" GetDoubles", n, v, Acc<double>::g2, codes); break;
            case 4: acc2<int32_t>(c, sf.get(), w+" GetInt32_2D", n, v, Acc<int32_t>::g2, codes); break;
            case 5: acc2<uint64_t>(c, sf.get(), w+" GetUInt64_2D", n, v, Acc<uint64_t>::g2, codes); break;
            case 6: acc1<double>(c, sf.get(), w+" GetList", n, v, [](SFile *s, const string& q, sfilesize_t *d){ return s->GetList(q,d); }, codes, true); break;
            case 7: acc1<double>(c, sf.get(), w+" GetDoubles1D", n, v, Acc<double>::g1, codes, true); break;
            case 8: acc1<int64_t>(c, sf.get(), w+" GetInt64_1D", n, v, Acc<int64_t>::g1, codes, true); break;
            case 9: acc0<double>(c, sf.get(), w+" GetScalar", n, v, &SFile::GetScalar, codes); break;
            case 10: { string s; bool ref = refused(c, w+" GetString", [&]{ s = sf->GetString(n); }); if (v->type == T_STR) { c.require(!ref, w+" GetString: refused"); c.require(s == v->s, w+" GetString: "+str(s)); } else if (!codes) c.require(ref, w+" GetString: "+str(s)+" for numbers"); } break;
            case 11: { sfilesize_t nd=0, d[8]; double *a=nullptr; bool ref = refused(c, w+" GetMultiArray_linear", [&]{ a = sf->GetMultiArray_linear(n, 8, nd, d); }); if (v->type == T_STR) { if (!codes) c.require(ref, w+": multi-dimensional read of a string"); delete [] a; break; } c.require(!ref && a, w+": multi-dimensional read refused"); for (size_t q=0;q<v->n();q++) cmp<double>(c, w, *v, q, a[q]); delete [] a; } break;
            default: if (an.count(n)) c.same(sf->GetAttributeScalar(n, "a"), an[n], w + " attribute"); else if (!mat) c.require(refused(c, w, [&]{ sf->GetAttributeScalar(n, "a"); }), w + ": made-up attribute"); if (as.count(n)) c.require(sf->GetAttributeString(n, "a") == as[n], w + " string attribute"); else if (!mat) c.require(refused(c, w, [&]{ sf->GetAttributeString(n, "a"); }), w + ": made-up string attribute");
        } }
    sf->Close(); c.nontrivial(nt); c.label(mat ? "mat" : "hdf5");
}
// An object without an open file: nothing can be read or written, and there is nothing to close.
static void nothing_open(Ctx& c, SFile *sf, bool sdt) {
    for (int k = (int)c.range(1, 5); k > 0; k--) { uint64_t op = c.draw(11); sfilesize_t nd, d[8]; int32_t i = 3; uint64_t u = 4; double x = 1.5, *px = &x; bool r = true; c.note << "closed:" << op << " ";
        switch (op) { case 0: sf->Close(); break; case 1: refused(c, "HasVariable without a file", [&]{ r = !sf->HasVariable("x"); }); r = r || sdt; break;
            case 2: r = sdt || refused(c, "read without a file", [&]{ sf->GetScalar("x"); }); break; case 3: r = sdt || refused(c, "read without a file", [&]{ sf->GetString("x"); }); break; case 4: r = sdt || refused(c, "read without a file", [&]{ if (c.coin()) sf->GetDoubles("x", d); else sf->GetIntList("x", &nd); }); break; case 5: r = sdt || refused(c, "read without a file", [&]{ if (c.coin()) sf->GetMultiArray_linear("x", 8, nd, d); else if (c.coin()) sf->GetAttributeScalar("x", "a"); else sf->GetAttributeString("x", "a"); }); break;
            case 6: r = refused(c, "write without a file", [&]{ if (c.coin()) sf->WriteScalar("y", x); else sf->WriteString("y", "text"); }); break; case 7: r = refused(c, "write without a file", [&]{ if (c.coin()) sf->WriteInt32List("y", &i, 1); else sf->WriteArray("y", &px, 1, 1); }); break; case 8: r = refused(c, "write without a file", [&]{ if (c.coin()) sf->WriteAttribute_scalar("x", "a", x); else sf->WriteAttribute_string("x", "a", "text"); }); break; case 9: d[0] = d[1] = d[2] = 1; r = refused(c, "write without a file", [&]{ sf->WriteMultiUInt64Array("y", &u, 3, d); }); break; default: r = sdt || refused(c, "struct without a file", [&]{ sf->CreateStruct("s"); }); }
        c.require(r, "an object without an open file was read or written (operation " + to_string(op) + ")"); }
    c.label("no open file"); }
FACET("P03", file_names, 6000, "file names and openings: table look-up of extensions, missing files, non-files; non-trivial = a refusal is expected") {
    static const map<string,sfile_type> table = {{"h5",SFILE_TYPE_HDF5},{"hdf5",SFILE_TYPE_HDF5},{"mat",SFILE_TYPE_MATLAB},{"sdt",SFILE_TYPE_SDT},{"out",SFILE_TYPE_SDT}};
    string base = c.word(0,6,"abc._-"), ext = c.pickl<string>({"h5","hdf5","mat","sdt","out","txt","H5","","mat2","h","csv","so","ou","outt"}); if (c.chance(30)) ext = c.word(0,4,"hdf5matsou.");
    string name = base + (c.chance(85) ? "." : "") + ext; size_t p = name.rfind('.'); sfile_type want = SFILE_TYPE_UNKNOWN;
    if (p != string::npos) { auto it = table.find(name.substr(p+1)); if (it != table.end()) want = it->second; }
    c.note << str(name);
    c.require(SFile::TypeOfFile(name) == want, "TypeOfFile(" + str(name) + ") is " + to_string((int)SFile::TypeOfFile(name)) + ", expected " + to_string((int)want));
    if (p != string::npos && table.count(name.substr(p+1))) c.require(SFile::GetFileType(name.substr(p+1)) == want, "GetFileType(" + str(name.substr(p+1)) + ") wrong");
    string full = c.tmp("x" + name); SFile *sf = nullptr;
    if (want == SFILE_TYPE_UNKNOWN) { c.nontrivial(); for (auto md : {SFILE_MODE_READ, SFILE_MODE_WRITE, SFILE_MODE_UPDATE}) c.require(refused(c, "opening "+str(name), [&]{ sf = SFile::Create(full, md); }), "a file of unknown type was opened: " + str(name)); return; }
    switch (c.draw(4)) {
        case 0: c.nontrivial(); c.label("missing"); c.require(refused(c, "opening missing "+str(name), [&]{ sf = SFile::Create(full, c.coin()?SFILE_MODE_READ:SFILE_MODE_UPDATE); }), "a missing file was opened: " + str(name)); break;
        case 1: c.nontrivial(); c.label("no-directory"); c.require(refused(c, "writing "+str(name), [&]{ sf = SFile::Create(c.tmp("nodir/"+name), SFILE_MODE_WRITE); }), "a file in a missing directory was opened for writing: " + str(name)); break;
        case 2: { c.nontrivial(); c.label("garbage"); { ofstream o(full, ios::binary); size_t n = (size_t)c.range(1,600); o << "not a data file"; for (size_t k=0;k<n;k++) o << (char)c.draw(256); } c.require(refused(c, "opening garbage "+str(name), [&]{ sf = SFile::Create(full, SFILE_MODE_READ); }), "garbage was opened as a data file: " + str(name)); } break;
        default: { c.label("reopen"); sf = SFile::Create(full, SFILE_MODE_WRITE); c.require(sf->filetype == want && sf->filename == full && sf->mode == SFILE_MODE_WRITE, "type, name or mode not recorded"); double x = c.anyfinite(); sf->WriteScalar("x", x); sf->Close();
            // a failed open leaves the object usable
            c.require(refused(c, "re-opening a missing file", [&]{ sf->Open(full + "_missing", SFILE_MODE_READ); }), "missing file opened"); c.nontrivial();
            if (c.coin()) nothing_open(c, sf, want == SFILE_TYPE_SDT); sf->Open(full, SFILE_MODE_READ); c.same(sf->GetScalar("x"), x, "value read through an object whose previous open failed"); sf->Close(); if (c.coin()) nothing_open(c, sf, want == SFILE_TYPE_SDT); delete sf; } break;
    }
}

// ------------------------------------------------------------------ P26
// Writes that cannot be carried out raise the library's exception and leave everything else as it was.
FACET("P26", refused_writes, 6000, "at least one impossible write between possible ones") {
    int fmt = (int)c.draw(3); string fn = c.tmp(fmt==0 ? "w.h5" : fmt==1 ? "w.mat" : "w.sdt"); Model m; set<string> used; vector<string> structs; map<pair<string,string>,Att> atts; bool bad = false, good = false; set<string> objs;
    unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_WRITE)); int phases = 1 + (int)c.draw(2);
    auto anywrite = [&](SFile *f, const string& n) { Var v; if (c.chance(25)) { v.type = T_STR; v.s = gen_string(c, true, true); f->WriteString(n, v.s); } else { v = gen_write_any(c, f, n, fmt!=2, fmt!=2); if (fmt==2 && v.dims.size()==1) v.dims={1,v.dims[0]}; } return v; };
    for (int ph = 0; ph < phases; ph++) { if (ph) { sf->Close(); if (c.coin()) sf.reset(SFile::Create(fn, SFILE_MODE_UPDATE)); else sf->Open(fn, SFILE_MODE_UPDATE); c.note << "update: "; }
        int ops = (int)c.range(2, 8);
        for (int k = 0; k < ops; k++) { uint64_t op = c.draw(fmt==2 ? 5 : 10);
            if (fmt == 2 && op == 4) { string n = fresh(c, used, structs), ws(1, " \t\n\v\f\r"[c.draw(6)]); switch (c.draw(4)) { case 0: n = ""; break; case 1: n.insert(c.draw(n.size() + 1), ws); break; case 2: n += ws + to_string(c.draw(3)); break; default: n = ws; } bool att = c.chance(30); if (att && n.empty()) n = " "; c.note << "unusable name " << str(n) << (att ? " (attribute); " : "; "); // cannot be told apart when reading
                c.require(refused(c, "write with an unusable name", [&]{ if (!att) anywrite(sf.get(), n); else if (c.coin()) sf->WriteAttribute_scalar(n, "p", 1.5); else sf->WriteAttribute_string("v", n, "text"); }), "a variable was written with the name " + str(n) + ", which the format cannot store"); bad = true; c.label("unusable name"); continue; }
            if (op <= 2) { string n = fresh(c, used, structs); used.insert(n); Var v = anywrite(sf.get(), n); m[n] = v; c.note << n << "=" << describe(v) << "; "; good = true; }
            else if (op == 3) { string n = fresh(c, used, structs); used.insert(n); sf->CreateStruct(n); structs.push_back(n); c.note << "struct " << n << "; "; }
            else if (op == 4 && fmt==0 && !m.empty()) { auto it = m.begin(); advance(it, c.draw(m.size())); string an(1, "pqr"[c.draw(3)]); Att a; a.isstr = c.coin(); a.x = 0; bool dup = atts.count({it->first, an}); bool huge = a.isstr && c.chance(20); if (a.isstr) a.s = huge ? string((size_t)c.range(65200, 66000), 'x') : gen_string(c, true, true); else a.x = c.anyfinite();
                bool toolong = a.s.size() > 65000, r = refused(c, "attribute", [&]{ if (a.isstr) sf->WriteAttribute_string(it->first, an, a.s); else sf->WriteAttribute_scalar(it->first, an, a.x); }); c.note << "attr " << it->first << "." << an << (dup ? " again" : "") << (huge ? " huge" : "") << "; ";
                if (dup) c.require(r, "second attribute of the same name was accepted"); else if (!toolong) c.require(!r, "attribute was refused"); if (r) { bad = true; c.label(dup ? "attribute exists" : "attribute too long"); } else atts[{it->first, an}] = a; }
            else if (op <= 6 && !used.empty()) { string n = c.pick(vector<string>(used.begin(), used.end())); c.note << "again " << n << "; "; c.require(refused(c, "write to an existing name", [&]{ anywrite(sf.get(), n); }), "a variable was written to the name " + str(n) + ", which already exists"); bad = true; c.label("name exists"); }
            else if (op == 7 && !used.empty()) { string n = c.pick(vector<string>(used.begin(), used.end())); c.note << "struct again " << n << "; "; c.require(refused(c, "struct of an existing name", [&]{ sf->CreateStruct(n); }), "a struct was created with the name " + str(n) + ", which already exists"); bad = true; }
            else if (op == 8) { string n = "zz" + c.word(0, 3, NAMECH) + "/" + c.word(1, 3, NAMECH); c.note << "into missing struct " << n << "; "; c.require(refused(c, "write into a missing struct", [&]{ if (c.chance(20)) sf->CreateStruct(n); else anywrite(sf.get(), n); }), "a variable was written into a struct that does not exist"); bad = true; c.label("struct missing"); }
            else if (op == 9 && fmt==0) { c.note << "attribute of missing variable; "; c.require(refused(c, "attribute of a missing variable", [&]{ if (c.coin()) sf->WriteAttribute_scalar("zmissing", "p", 1.5); else sf->WriteAttribute_string("zmissing", "p", "text"); }), "an attribute was given to a variable that does not exist"); bad = true; c.label("variable missing"); } } }
    sf->Close(); if (c.chance(30)) { nothing_open(c, sf.get(), fmt==2); bad = true; } if (c.coin()) sf.reset(SFile::Create(fn, SFILE_MODE_READ)); else sf->Open(fn, SFILE_MODE_READ); // in a file opened for reading nothing can be written
    for (int k = (int)c.draw(4); k > 0; k--) { bool exists = !used.empty() && c.coin(); string n = exists ? c.pick(vector<string>(used.begin(), used.end())) : fresh(c, used, structs); c.note << "while reading " << n << "; "; c.require(refused(c, "write to a file opened for reading", [&]{ anywrite(sf.get(), n); }), "write to a file opened for reading was silently dropped"); bad = true; c.label("read only");
        if (!m.empty() && c.coin()) { auto it = m.begin(); advance(it, c.draw(m.size())); c.require(refused(c, "attribute in a file opened for reading", [&]{ if (c.coin()) sf->WriteAttribute_scalar(it->first, "zw", 2.5); else sf->WriteAttribute_string(it->first, "zw", "s"); }), "attribute for a file opened for reading was silently dropped"); check_var(c, sf.get(), it->first, it->second, false); } }
    for (auto& kv : m) check_var(c, sf.get(), kv.first, kv.second, fmt!=2);
    for (auto& a : atts) { if (a.second.isstr) c.require(sf->GetAttributeString(a.first.first, a.first.second) == a.second.s, "attribute string changed"); else c.same(sf->GetAttributeScalar(a.first.first, a.first.second), a.second.x, "attribute " + a.first.first + "." + a.first.second); }
    sf->Close(); if (fmt != 2) { set<string> want; for (auto& kv : m) want.insert(kv.first); for (auto& s : structs) want.insert(s + "/"); c.require(contents(fn) == want, "the file holds other objects than were written"); } else { sf->Open(fn, SFILE_MODE_READ); neverwritten(c, sf.get(), used); }
    if (c.chance(20)) { string ext = fn.substr(fn.rfind('.')), no = c.coin() ? c.tmp("nodir") + "/f" + ext : c.tmp("d" + ext); if (no.find("nodir") == string::npos) mkdir(no.c_str(), 0755); enum sfile_mode mo = c.coin() ? SFILE_MODE_WRITE : SFILE_MODE_UPDATE; c.note << "open " << no.substr(no.rfind('/')); bool r; if (c.coin()) r = refused(c, "opening an impossible file", [&]{ delete SFile::Create(no, mo); }); else { r = refused(c, "opening an impossible file", [&]{ sf->Open(no, mo); }); refused(c, "opening again", [&]{ sf->Open(fn, SFILE_MODE_READ); for (auto& kv : m) check_var(c, sf.get(), kv.first, kv.second, fmt!=2); r = r && true; }); sf->Open(fn, SFILE_MODE_READ); } c.require(r, "a file that cannot be written was opened for writing"); c.label("impossible file"); }
    c.nontrivial(bad && good); c.label(fmt==0?"hdf5":fmt==1?"mat":"sdt");
}
// The disk fills up after any number of bytes: either everything has been stored or the failure was reported.
FACET("P26", no_space, 1500, "the limit is below the size of the complete file") {
    int fmt = (int)c.draw(3); string ext = fmt==0 ? ".h5" : fmt==1 ? ".mat" : ".sdt", full = c.tmp("full"+ext), fn = c.tmp("lim"+ext); int nv = (int)c.range(1, 6); vector<size_t> len; vector<int> kind; for (int k = 0; k < nv; k++) { len.push_back((size_t)c.range(1, c.coin() ? 400 : 12)); kind.push_back((int)c.draw(4)); } bool atts = c.coin();
    auto write = [&](const string& f) { unique_ptr<SFile> s(SFile::Create(f, SFILE_MODE_WRITE)); for (int k = 0; k < nv; k++) { string n = "v" + to_string(k); vector<double> d(len[k]); vector<int32_t> i(len[k]); for (size_t q = 0; q < len[k]; q++) { d[q] = 1.0 / (double)(q + 3); i[q] = (int32_t)q; } switch (kind[k]) { case 0: s->WriteList(n, d.data(), d.size()); break; case 1: s->WriteInt32List(n, i.data(), i.size()); break; case 2: s->WriteString(n, string(len[k], 'w')); break; default: { vector<double*> rows(len[k]); for (size_t q = 0; q < len[k]; q++) rows[q] = &d[q]; s->WriteArray(n, rows.data(), len[k], 1); } } if (atts) s->WriteAttribute_scalar(n, "att", 2.5 + k); } s->Close(); };
    auto complete = [&](const string& f, string& why) { unique_ptr<SFile> s(SFile::Create(f, SFILE_MODE_READ)); for (int k = 0; k < nv; k++) { string n = "v" + to_string(k); why = n; if (!s->HasVariable(n)) return false; if (kind[k] == 2) { if (s->GetString(n) != string(len[k], 'w')) return false; } else { sfilesize_t q; unique_ptr<double[]> p(s->GetList(n, &q)); if (q != len[k]) return false; for (size_t j = 0; j < q; j++) if (p[j] != (kind[k] == 1 ? (double)j : 1.0 / (double)(j + 3))) return false; } if (atts && s->GetAttributeScalar(n, "att") != 2.5 + k) return false; } return true; };
    write(full); struct stat st; c.require(stat(full.c_str(), &st) == 0, "no file was written"); string why; c.require(complete(full, why), "file written without limit is not complete at " + why); rlim_t lim = (rlim_t)c.draw(c.chance(10) ? 3 * (uint64_t)st.st_size + 9000 : (uint64_t)st.st_size + 1 + (uint64_t)st.st_size / 8); c.note << ext << " " << nv << " variables, " << st.st_size << " bytes, space for " << lim;
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid == 0) { int rc = 0, dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &r); try { write(fn); } catch (SOFTLibException&) { rc = 1; } catch (...) { rc = 2; } _exit(rc); }
    c.require(pid > 0, "fork"); int status = 0; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {} c.require(WIFEXITED(status), "writing to a full disk crashed (signal " + to_string(WTERMSIG(status)) + ")"); int rc = WEXITSTATUS(status); c.require(rc == 0 || rc == 1, rc == 2 ? "writing to a full disk raised a foreign exception" : "writing to a full disk ended with status " + to_string(rc)); c.label(rc ? "reported" : "complete");
    if (rc == 0) { bool ok = false; bool r = refused(c, "reading", [&]{ ok = complete(fn, why); }); c.require(!r && ok, "data was lost on a full disk without any report (" + why + ")"); } if ((uint64_t)lim < (uint64_t)st.st_size) c.nontrivial(); else if ((uint64_t)lim >= 2 * (uint64_t)st.st_size + 8192) c.require(rc == 0, "an error was reported although there was enough space");
}

// ------------------------------------------------------------------ P04
// Reference reader of the documented format. verdict: 1 load m, -1 refuse, 0 no claim.
struct Ref { int verdict = 1; map<string,vector<vector<double>>> mats; map<string,string> strs; map<string,size_t> cols; set<string> names; string why; };
static vector<string> toks(const string& l) { vector<string> r; string t; for (unsigned char ch : l) { if (isspace(ch)) { if (!t.empty()) r.push_back(t); t.clear(); } else t += (char)ch; } if (!t.empty()) r.push_back(t); return r; }
static bool all_digits(const string& s) { if (s.empty() || s.size() > 18) return false; for (char ch : s) if (ch<'0'||ch>'9') return false; return true; }
static int is_num(const string& s) { // 1 valid decimal number, -1 certainly not a number, 0 odd
    size_t i=0; auto dig=[&]{ size_t b=i; while (i<s.size() && isdigit((unsigned char)s[i])) i++; return i-b; };
    if (s=="nan"||s=="-nan"||s=="inf"||s=="-inf") return 1; // as written by the library
    { string t; for (char ch : s) t += (char)tolower((unsigned char)ch); if (t[0]=='+'||t[0]=='-') t.erase(0,1); if (t.compare(0,3,"nan")==0 || t.compare(0,3,"inf")==0) return 0; }
    if (!strchr("0123456789+-.", s[0])) return -1;
    if (s[0]=='+'||s[0]=='-') i++;
    size_t a = dig(), b = 0; if (i<s.size() && s[i]=='.') { i++; b = dig(); } if (a+b==0) return 0;
    if (i<s.size() && (s[i]=='e'||s[i]=='E')) { i++; if (i<s.size() && (s[i]=='+'||s[i]=='-')) i++; if (!dig()) return 0; }
    if (i != s.size()) return 0;
    return isfinite(strtod(s.c_str(), nullptr)) ? 1 : 0;
}
static Ref refparse(const string& text) {
    Ref R; vector<string> lines; { string cur; bool any=false; for (char ch : text) { any = true; if (ch=='\n') { lines.push_back(cur); cur.clear(); any=false; } else cur += ch; } if (any) lines.push_back(cur); }
    auto rej=[&](const string& w){ R.verdict=-1; R.why=w; }; auto odd=[&](const string& w){ R.verdict=0; R.why=w; };
    for (size_t l=0; l<lines.size();) {
        vector<string> t = toks(lines[l]); l++;
        if (t.empty()) continue;
        if (t[0]!="@matrix" && t[0]!="@string") { rej("unknown block "+t[0]); return R; }
        size_t want = t[0]=="@matrix" ? 4 : 3;
        if (t.size() < want) { if (t.size() == 3 && !all_digits(t[2])) odd("odd size"); else rej("incomplete header"); return R; } // "1+4" reads as two numbers
        if (t.size() > want) { odd("long header"); return R; }
        for (size_t k=2;k<want;k++) if (!all_digits(t[k])) { if (strchr("0123456789+-", t[k][0])) odd("odd size"); else rej("size is no number"); return R; }
        if (R.mats.count(t[1]) || R.strs.count(t[1])) { odd("duplicate"); return R; }
        if (t[0]=="@matrix") {
            uint64_t r = strtoull(t[2].c_str(),0,10), k = strtoull(t[3].c_str(),0,10); if (r==0 && t[3].size() > 18) { odd("huge empty matrix"); return R; }
            vector<vector<double>> m;
            for (uint64_t i=0;i<r;i++) {
                if (l>=lines.size()) { rej("missing rows"); return R; }
                vector<string> q = toks(lines[l]); l++; vector<double> row; bool extra = q.size() > k;
                for (uint64_t j=0;j<k;j++) { if (j>=q.size()) { rej("missing values"); return R; } int x = is_num(q[j]); if (x<0) { rej("value is no number"); return R; } if (x==0) { odd("odd number"); return R; } row.push_back(strtod(q[j].c_str(),nullptr)); }
                if (extra) { odd("extra values"); return R; }
                m.push_back(row);
            }
            R.mats[t[1]] = m; R.cols[t[1]] = k;
        } else {
            uint64_t n = strtoull(t[2].c_str(),0,10); if (l>=lines.size()) { if (n) rej("missing string data"); else odd("empty string at end"); return R; }
            vector<string> q = toks(lines[l]); l++; string s;
            for (auto& x : q) { size_t i = (x[0]=='-'||x[0]=='+') ? 1 : 0; if (!isdigit((unsigned char)x[0]) && x[0]!='-' && x[0]!='+') { rej("character code is no number"); return R; } if (!all_digits(x.substr(i))) { odd("odd code"); return R; } long v = strtol(x.c_str(),0,10); if (v < -128 || v > 255 || x.size()>5) { odd("code range"); return R; } s += (char)v; }
            if (s.size() != n) { rej("wrong number of characters"); return R; }
            R.strs[t[1]] = s;
        }
    }
    return R;
}
static string ws(Ctx& c, bool plain) { return plain ? " " : c.pickl<string>({" ","  ","\t"," \t ","   "}); }
static string gen_sdt(Ctx& c) {
    string o; int n = (int)c.range(0,5); set<string> used; bool plain = c.coin(); string nl = c.chance(15) ? "\r\n" : "\n";
    for (int b=0;b<n;b++) {
        string name = c.chance(30) ? "s/" : ""; name += c.word(1,5,"abcxyz_019@-"); if (used.count(name)) continue; used.insert(name);
        for (int k=(int)c.draw(3);k>0;k--) o += (c.chance(20) ? ws(c,false) : string()) + nl;
        string lead = (!plain && c.chance(20)) ? " " : "";
        if (c.chance(70)) { int r=(int)c.range(1,5), k=(int)c.range(1,5); if (c.chance(5)) (c.coin() ? r : k) = 0; o += lead + "@matrix" + ws(c,plain) + name + ws(c,plain) + to_string(r) + ws(c,plain) + to_string(k) + (plain?"":c.pickl<string>({""," "})) + nl;
            for (int i=0;i<r;i++) { for (int j=0;j<k;j++) { char bf[64]; double x = c.anyfinite(); static const char *f[] = {"%.17g","%g","%.3f","%+.5e","%.0f","%.17E"}; const char *fm = f[c.draw(6)]; if (!strcmp(fm,"%.3f")||!strcmp(fm,"%.0f")) x = fmod(x, 1e12); snprintf(bf,sizeof bf,fm,x); if (!isfinite(strtod(bf,0))) snprintf(bf,sizeof bf,"1e308"); if (c.chance(3)) snprintf(bf,sizeof bf,"%s",c.pickl<const char*>({"inf","-inf","nan","-nan"})); o += (j ? ws(c,plain) : plain ? string() : c.pickl<string>({""," ","\t"})) + bf; } o += (c.coin()?" ":"") + nl; } }
        else { string s = gen_string(c, true, true); o += lead + "@string" + ws(c,plain) + name + ws(c,plain) + to_string(s.size()) + nl; for (char ch : s) o += to_string(c.chance(80) ? (int)ch : (int)(unsigned char)ch) + ws(c,plain); o += nl; }
    }
    if (!o.empty() && c.chance(20)) o.pop_back();
    return o;
}
static string mutate(Ctx& c, string t) {
    int k = (int)c.range(1,3);
    while (k--) { size_t n = t.size(); switch (c.draw(9)) {
        case 0: t = t.substr(0, c.draw(n+1)); break;
        case 1: if (n) t.erase(c.draw(n), 1); break;
        case 2: if (n) t[c.draw(n)] = (char)c.draw(256); break;
        case 3: t.insert(c.draw(n+1), 1, "0123456789 -+.e@\n\tx"[c.draw(19)]); break;
        case 4: if (n) { size_t a=c.draw(n), l=c.draw(20); t.erase(a, l); } break;
        case 5: { size_t a = t.find('\n', c.draw(n+1)); if (a!=string::npos) { size_t b=t.find('\n',a+1); t.erase(a, b==string::npos?b:b-a); } } break; // drop a line
        case 6: { size_t a = t.find('\n', c.draw(n+1)); if (a!=string::npos) { size_t b=t.find('\n',a+1); if (b!=string::npos) t.insert(b, t.substr(a,b-a)); } } break; // repeat a line
        case 7: { size_t a = t.find("@matrix ", c.draw(n+1)); if (a!=string::npos) { size_t b=t.find('\n',a); string h = t.substr(a, b==string::npos?b:b-a); vector<string> q=toks(h); if (q.size()==4) { q[2+c.draw(2)] = c.pickl<string>({"0","1","2","6","100","4294967296","99999999999","18446744073709551615","-1","x","3x","1e3"}); string nh = q[0]+" "+q[1]+" "+q[2]+" "+q[3]; t.replace(a, h.size(), nh); } } } break;
        default: { size_t a = t.find("@string ", c.draw(n+1)); if (a!=string::npos) { size_t b=t.find('\n',a); string h = t.substr(a, b==string::npos?b:b-a); vector<string> q=toks(h); if (q.size()==3) { q[2] = c.pickl<string>({"0","1","5","700","18446744073709551615","-1","x"}); t.replace(a, h.size(), q[0]+" "+q[1]+" "+q[2]); } } } break;
    } }
    return t;
}
static void judge_sdt(Ctx& c, const string& text) {
    Ref R = refparse(text); c.note << str(text.substr(0,1500)) << " verdict " << R.verdict << " " << R.why;
    string fn = c.tmp("t.sdt"); { ofstream o(fn, ios::binary); o << text; }
    SFile_SDT sf; bool ref = refused(c, "loading", [&]{ sf.Open(fn, SFILE_MODE_READ); });
    if (R.verdict == 1) {
        c.require(!ref, "well-formed text was refused"); c.label("load");
        for (auto& kv : R.mats) { size_t r=kv.second.size(), k=R.cols[kv.first]; sfilesize_t d[2]; c.require(sf.HasVariable(kv.first) && sf.GetDataType(kv.first)==SFile::SFILE_DATA_DOUBLE, "matrix "+str(kv.first)+" is missing"); double **a = sf.GetDoubles(kv.first, d); c.require(d[0]==r && d[1]==k, "matrix "+str(kv.first)+" has shape "+to_string(d[0])+"x"+to_string(d[1]));
            for (size_t i=0;i<r;i++) for (size_t j=0;j<k;j++) c.same(a[i][j], kv.second[i][j], "matrix "+str(kv.first)+" element "+to_string(i)+","+to_string(j)); delete [] a[0]; delete [] a; }
        for (auto& kv : R.strs) { c.require(sf.HasVariable(kv.first), "string "+str(kv.first)+" is missing"); string g = sf.GetString(kv.first); c.require(g==kv.second, "string "+str(kv.first)+" is "+str(g)+", expected "+str(kv.second)); }
        for (auto& q : {string("@matrix"), string(""), string("q0")}) if (!R.mats.count(q) && !R.strs.count(q)) c.require(!sf.HasVariable(q), "invented variable "+str(q));
    } else if (R.verdict == -1) { c.require(ref, "malformed text was loaded (" + R.why + ")"); c.label("refuse"); }
    else c.label("no-claim");
    // the object stays usable after a refusal
    string f2 = c.tmp("u.sdt"); { ofstream o(f2); o << "@matrix ok 1 2\n3 4\n"; } sf.Open(f2, SFILE_MODE_READ); sfilesize_t n; double *l = sf.GetList("ok", &n); c.require(n==2 && l[0]==3 && l[1]==4, "object not usable after loading another text"); delete [] l;
    for (auto& kv : R.mats) if (kv.first != "ok") c.require(!sf.HasVariable(kv.first), "variable of the earlier text still present");
}
FACET("P04", wellformed, 40000, "grammar-generated text; non-trivial = at least one block") { string t = gen_sdt(c); c.nontrivial(t.size()>8); judge_sdt(c, t); }
FACET("P04", damaged, 80000, "grammar-generated text after 1-3 mutations; non-trivial = the text has at least one block and changed") { string t = gen_sdt(c), u = mutate(c, t); c.nontrivial(t.size()>8 && t!=u); judge_sdt(c, u); }
FACET("P04", soup, 30000, "random sequences of format tokens; non-trivial = at least four tokens") {
    string t; int n=(int)c.range(0,30); for (int i=0;i<n;i++) t += c.pickl<string>({"@matrix","@string"," ","\n","a","b","1","2","3","0","-1","1.5","@","\n\n","\t","x y","65","1e5"}) + (c.chance(60)?" ":"");
    c.nontrivial(n>=4); judge_sdt(c, t);
}
// ------------------------------------------------------------------ P02, on texts made by hand
FACET("P02", sdt_append, 8000, "a text made by hand, with at least one block, is opened for update and appended to") {
    string t = gen_sdt(c); if (!t.empty() && t.back()=='\n' && c.chance(30)) t.pop_back(); Ref R = refparse(t); if (R.verdict != 1) c.discard(); string fn = c.tmp("h.sdt"); { ofstream o(fn, ios::binary); o << t; } c.note << str(t.substr(0,1000)) << " then "; set<string> used; for (auto& kv : R.mats) used.insert(kv.first); for (auto& kv : R.strs) used.insert(kv.first); Model m;
    for (int ph = (int)c.range(1,2); ph > 0; ph--) { unique_ptr<SFile> sf(SFile::Create(fn, SFILE_MODE_UPDATE, SFILE_TYPE_SDT)); for (int k=(int)c.range(0,3);k>0;k--) { string n = fresh(c, used, {}); used.insert(n); Var v; if (c.chance(25)) { v.type=T_STR; v.s=gen_string(c,true,true); sf->WriteString(n,v.s); } else { v = gen_write_any(c, sf.get(), n, false, false); if (v.dims.size()==1) v.dims={1,v.dims[0]}; } m[n]=v; c.note << n << "=" << describe(v) << "; "; } sf->Close(); }
    SFile_SDT sf; bool rf = refused(c, "loading", [&]{ sf.Open(fn, SFILE_MODE_READ); }); c.require(!rf, "file appended to cannot be read any more");
    for (auto& kv : R.mats) { size_t r=kv.second.size(), k=R.cols[kv.first]; sfilesize_t d[2]; c.require(sf.HasVariable(kv.first), "matrix "+str(kv.first)+" is missing"); double **a = sf.GetDoubles(kv.first, d); c.require(d[0]==r && d[1]==k, "matrix "+str(kv.first)+" has another shape"); for (size_t i=0;i<r;i++) for (size_t j=0;j<k;j++) c.same(a[i][j], kv.second[i][j], "matrix "+str(kv.first)+" element "+to_string(i)+","+to_string(j)); delete [] a[0]; delete [] a; }
    for (auto& kv : R.strs) c.require(sf.HasVariable(kv.first) && sf.GetString(kv.first)==kv.second, "string "+str(kv.first)+" changed"); for (auto& kv : m) check_var(c, &sf, kv.first, kv.second, false); c.nontrivial(used.size() > m.size() && !m.empty()); if (!t.empty() && t.back()!='\n') c.label("no final line break");
}
