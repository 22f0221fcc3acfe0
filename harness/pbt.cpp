#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace std;

extern "C" void __gcov_dump(void) __attribute__((weak));     // only in coverage builds
namespace pbt {

struct FacetT { string property, name, rule; uint64_t quick, thorough; Prop f; };
static vector<FacetT>& facets() { static vector<FacetT> v; return v; }
void facet(const char *p, const char *n, uint64_t q, const char *rule, Prop f, uint64_t t) {
    facets().push_back({p, n, rule, q, t ? t : 40*q, f});
}

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27)) * 0x94d049bb133111ebull; return z ^ (z>>31); }
uint64_t Ctx::rnd() { // xoshiro256**
    auto rotl = [](uint64_t x, int k) { return (x<<k)|(x>>(64-k)); };
    uint64_t r = rotl(s[1]*5,7)*9, t = s[1]<<17;
    s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r;
}
uint64_t Ctx::draw(uint64_t n) {
    uint64_t v;
    if (replaying) {
        v = pos < nin ? in[pos] : 0;
        if (n && v >= n) v = n-1;
    } else {
        v = rnd();
        if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if (pos < cap) { out[pos] = v; *nout = pos+1; }
    pos++;
    if (pos > 4000000) throw Discard();
    hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
    return v;
}
uint64_t Ctx::anyu64() {
    unsigned bits = (unsigned)draw(65);
    uint64_t v = draw(0);
    if (bits == 0) return 0;
    return bits == 64 ? v : (v & ((1ull<<bits)-1));
}
double Ctx::anyfinite() {
    switch (draw(8)) {
        case 0: return (double)range(0, 20) - 10.0;
        case 1: { static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e-5, 123456.789, 1.0/3.0, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 9007199254740993.0, 1e21, 1e-300, 299792458.0}; return sp[draw(sizeof sp/sizeof *sp)]; }
        case 2: return real(-1, 1);
        case 3: return real(-1e6, 1e6);
        case 4: return (coin()?-1:1) * logreal(1e-300, 1e300);
        case 5: return (coin()?-1:1) * logreal(1e-12, 1e12);
        default: { uint64_t u = draw(0); double d; memcpy(&d, &u, 8); if (!std::isfinite(d)) { u &= ~(1ull<<62); memcpy(&d,&u,8);} return d; }
    }
}
string Ctx::word(size_t minl, size_t maxl, const char *alphabet) {
    size_t n = (size_t)range((int64_t)minl, (int64_t)maxl), m = strlen(alphabet); string r;
    for (size_t i = 0; i < n; i++) r += alphabet[draw(m)];
    return r;
}
void Ctx::close(double got, double want, double rtol, double atol, const string& what) {
    if (std::isnan(got) || std::isnan(want)) { if (std::isnan(got) != std::isnan(want)) fail(what+": got "+str(got)+", expected "+str(want)); return; }
    if (got == want) return;
    double d = std::fabs(got-want);
    if (!(d <= atol + rtol*std::fabs(want))) fail(what+": got "+str(got)+", expected "+str(want)+" (|diff| "+str(d)+", tolerance "+str(atol + rtol*std::fabs(want))+")");
}
void Ctx::same(double got, double want, const string& what) {
    if (std::isnan(got) && std::isnan(want)) return;
    uint64_t a, b; memcpy(&a,&got,8); memcpy(&b,&want,8);
    if (a != b) fail(what+": got "+str(got)+", expected "+str(want));
}
string Ctx::tmp(const string& leaf) { return dir + "/" + leaf; }

string capture_stdout(Ctx& c, const function<void()>& f) {
    string p = c.tmp("stdout.capture");
    fflush(stdout); cout.flush();
    int saved = dup(1);
    int fd = open(p.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
    dup2(fd, 1); close(fd);
    auto restore = [&]{ cout.flush(); fflush(stdout); dup2(saved, 1); close(saved); };
    try { f(); } catch (...) { restore(); throw; }
    restore();
    ifstream is(p, ios::binary); string s((istreambuf_iterator<char>(is)), istreambuf_iterator<char>());
    return s;
}

// ---------------------------------------------------------------- runner
static const size_t CAP = 1<<20;
struct Shared { volatile uint64_t facet, index, running, nout; char msg[8192]; char note[65536]; uint64_t choices[CAP]; };

struct Outcome { int kind; /*0 ok 1 fail 2 discard 3 crash 4 hang*/ string msg, note; bool nontriv=false; set<string> labels; uint64_t hash=0; size_t n=0; };

static string scratch_root;
static void clean_dir(const string& d) {
    DIR *h = opendir(d.c_str()); if (!h) return;
    while (dirent *e = readdir(h)) { string n = e->d_name; if (n=="."||n=="..") continue; string p = d+"/"+n;
        struct stat st; if (lstat(p.c_str(), &st)==0 && S_ISDIR(st.st_mode)) { clean_dir(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
    closedir(h);
}
static string hang_limit_env() { const char *e = getenv("PBT_CASE_CPU_S"); return e ? e : "20"; }

static void arm(double sec) {
    struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec-(long)sec)*1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

static Outcome run_case(const FacetT& f, Shared *sh, const string& dir, const uint64_t *in, size_t nin, uint64_t seed) {
    Ctx c; c.dir = dir; c.out = sh->choices; c.nout = &sh->nout; c.cap = CAP; sh->nout = 0;
    if (in) { c.replaying = true; c.in = in; c.nin = nin; }
    else { uint64_t x = seed; for (int i=0;i<4;i++) c.s[i] = splitmix(x); }
    c.note.precision(17);
    Outcome o; o.kind = 0;
    try { f.f(c); }
    catch (Failure& e) { o.kind = 1; o.msg = e.msg; }
    catch (Discard&) { o.kind = 2; }
    catch (std::exception& e) { o.kind = 1; o.msg = string("unexpected exception escaped: ") + e.what(); }
    catch (...) { o.kind = 1; o.msg = "unexpected non-standard exception escaped"; }
    o.note = c.note.str(); o.nontriv = c.is_nontrivial; o.labels = c.labels; o.hash = c.hash; o.n = c.pos;
    return o;
}

static uint64_t case_seed(uint64_t seed, const FacetT& f, uint64_t i) {
    uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
    for (char ch : f.property + "/" + f.name) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    h ^= i * 0xd1342543de82ef95ull; return splitmix(h);
}

static void put(char *dst, size_t cap, const string& s) { size_t n = min(cap-1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

static void redirect_output(const string& log) {
    int fd = open(log.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); close(n); }
}
static string tail(const string& path, size_t max=6000) {
    ifstream is(path, ios::binary); string s((istreambuf_iterator<char>(is)), istreambuf_iterator<char>());
    size_t p = s.find("ERROR: AddressSanitizer"); if (p == string::npos) p = s.find("runtime error:");
    if (p != string::npos) { size_t b = s.rfind('\n', p); if (b == string::npos) b = 0; return s.substr(b, max); }
    if (s.size() > max) s = s.substr(s.size()-max);
    return s;
}

static Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

// Evaluate one choice sequence (or seeded case) in a forked child.
static Outcome eval_forked(const FacetT& f, Shared *sh, const vector<uint64_t>* ch, uint64_t seed, double cpu, vector<uint64_t> *used=nullptr) {
    string dir = scratch_root + "/eval"; mkdir(dir.c_str(), 0700);
    string log = scratch_root + "/eval.log";
    sh->msg[0] = sh->note[0] = 0; sh->nout = 0; sh->running = 9;
    pid_t pid = fork();
    if (pid == 0) {
        redirect_output(log);
        arm(cpu); static const uint64_t none = 0;
        Outcome o = run_case(f, sh, dir, ch ? (ch->empty() ? &none : ch->data()) : nullptr, ch ? ch->size() : 0, seed);
        put(sh->msg, sizeof sh->msg, o.msg); put(sh->note, sizeof sh->note, o.note);
        sh->running = (uint64_t)o.kind;
        if (__gcov_dump) __gcov_dump();
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    clean_dir(dir);
    Outcome o; o.msg = sh->msg; o.note = sh->note; o.n = sh->nout;
    if (used) used->assign(sh->choices, sh->choices + std::min<uint64_t>((uint64_t)sh->nout, (uint64_t)CAP));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->running != 9) o.kind = (int)sh->running;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { o.kind = 4; o.msg = "case did not terminate within " + to_string((int)cpu) + " s of CPU time"; }
    else { o.kind = 3; o.msg = "process died (" + (WIFSIGNALED(st) ? "signal " + to_string(WTERMSIG(st)) : "exit " + to_string(WEXITSTATUS(st))) + "): " + tail(log); }
    return o;
}
static bool bad(const Outcome& o) { return o.kind==1 || o.kind==3 || o.kind==4; }

static vector<uint64_t> shrink(const FacetT& f, Shared *sh, vector<uint64_t> best, Outcome& bo, double budget, uint64_t& tries) {
    double t0 = now(); double cpu = bo.kind==4 ? 5 : 20; int kind = bo.kind;
    auto attempt = [&](vector<uint64_t> cand) -> bool {
        if (now()-t0 > budget || tries > 6000) return false;
        tries++;
        vector<uint64_t> used; Outcome o = eval_forked(f, sh, &cand, 0, cpu, &used);
        if (!bad(o) || o.kind != kind) return false;
        if (used.size() < cand.size() || (used.size() == cand.size() && lexicographical_compare(used.begin(), used.end(), cand.begin(), cand.end()))) cand = used;
        else if (used.size() > cand.size() && (used.size() >= best.size() )) { /* padded with zeros: keep cand */ }
        if (cand.size() > best.size()) return false;
        if (cand.size() == best.size() && !lexicographical_compare(cand.begin(), cand.end(), best.begin(), best.end())) return false;
        best = cand; bo = o; return true;
    };
    bool progress = true;
    while (progress && now()-t0 < budget && tries <= 6000) {
        progress = false;
        for (size_t bs : {64,32,16,8,4,3,2,1})
            for (size_t i = best.size(); i-- > 0; ) {
                if (now()-t0 > budget) break;
                if (i + bs > best.size()) continue;
                vector<uint64_t> cnd(best); cnd.erase(cnd.begin()+i, cnd.begin()+i+bs);
                if (attempt(cnd)) { progress = true; if (i > best.size()) i = best.size(); }
            }
        for (size_t bs : {16,4,1})
            for (size_t i = 0; i + bs <= best.size(); i += bs) {
                if (now()-t0 > budget) break;
                bool nz = false; for (size_t k=0;k<bs;k++) nz |= best[i+k]!=0;
                if (!nz) continue;
                vector<uint64_t> cnd(best); for (size_t k=0;k<bs;k++) cnd[i+k]=0;
                if (attempt(cnd)) progress = true;
            }
        for (size_t i = 0; i < best.size(); i++) {
            if (now()-t0 > budget) break;
            if (best[i] == 0) continue;
            uint64_t lo = 0, hi = best[i]; // minimise by bisection
            for (int it=0; it<64 && lo<hi; it++) {
                uint64_t mid = lo + (hi-lo)/2; vector<uint64_t> cnd(best); cnd[i] = mid;
                if (attempt(cnd)) { progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid+1;
                if (now()-t0 > budget) break;
            }
        }
    }
    return best;
}

static string jesc(const string& s) {
    string o; for (unsigned char ch : s) { if (ch=='"'||ch=='\\') { o+='\\'; o+=(char)ch; } else if (ch=='\n') o+="\\n"; else if (ch<32||ch>126) { char b[8]; snprintf(b,sizeof b,"\\u%04x",ch); o+=b; } else o+=(char)ch; }
    return o;
}

struct Stats { uint64_t evals=0, nontriv=0, discards=0; map<string,uint64_t> labels; vector<string> samples; unordered_set<uint64_t> fp; uint64_t maxchoices=0; };

static void save_stats(const string& path, const map<size_t,Stats>& st) {
    ofstream o(path + ".part", ios::binary);
    auto u = [&](uint64_t v){ o.write((const char*)&v, 8); };
    auto sv = [&](const string& s){ u(s.size()); o.write(s.data(), s.size()); };
    u(st.size());
    for (auto& kv : st) { u(kv.first); const Stats& s = kv.second; u(s.evals); u(s.nontriv); u(s.discards); u(s.maxchoices);
        u(s.labels.size()); for (auto& l : s.labels) { sv(l.first); u(l.second); }
        u(s.samples.size()); for (auto& x : s.samples) sv(x);
        u(s.fp.size()); for (auto x : s.fp) u(x); }
    o.close(); rename((path+".part").c_str(), path.c_str());
}
static void load_stats(const string& path, map<size_t,Stats>& st) {
    ifstream is(path, ios::binary); if (!is) return;
    auto u = [&]() -> uint64_t { uint64_t v=0; is.read((char*)&v, 8); return is ? v : 0; };
    auto sv = [&]() { uint64_t n=u(); string s(n,0); is.read(&s[0], n); return s; };
    uint64_t n = u();
    while (n--) { size_t k = u(); Stats& s = st[k]; s.evals+=u(); s.nontriv+=u(); s.discards+=u(); s.maxchoices=max(s.maxchoices,u());
        uint64_t m=u(); while(m--) { string l=sv(); s.labels[l]+=u(); }
        m=u(); while(m--) { string x=sv(); if (s.samples.size()<6) s.samples.push_back(x); }
        m=u(); while(m--) s.fp.insert(u()); }
}

static int usage() { cerr << "usage: harness PROPERTY --seed N --tier quick|thorough --stats FILE --replay-out FILE [--workers N] [--cap-s S] [--scale X] [--facet NAME] | --replay FILE\n"; return 2; }

static bool write_replay(const string& path, const string& prop, const string& fct, const vector<uint64_t>& ch, const Outcome& o, uint64_t seed, const string& origin) {
    ofstream r(path);
    r << "property " << prop << "\nfacet " << fct << "\nseed " << seed << "\norigin " << origin << "\nchoices " << ch.size();
    for (auto v : ch) r << " " << v;
    r << "\n--- message\n" << o.msg << "\n--- case\n" << o.note << "\n";
    return (bool)r;
}

static void rm_scratch() { if (!scratch_root.empty()) { clean_dir(scratch_root); rmdir(scratch_root.c_str()); } }

int pbt_main(int argc, char **argv) {
    if (argc < 2) return usage();
    string prop = argv[1], stats, replay, replay_out, only, tier = "quick"; uint64_t seed = 1; int workers = 8; double cap_s = 1e9, scale = 1;
    for (int i = 2; i < argc; i++) { string a = argv[i]; auto nx = [&]{ return i+1<argc ? string(argv[++i]) : string(); };
        if (a=="--seed") seed = strtoull(nx().c_str(),0,10); else if (a=="--tier") tier = nx(); else if (a=="--stats") stats = nx();
        else if (a=="--replay-out") replay_out = nx(); else if (a=="--replay") replay = nx(); else if (a=="--workers") workers = atoi(nx().c_str());
        else if (a=="--cap-s") cap_s = atof(nx().c_str()); else if (a=="--scale") scale = atof(nx().c_str()); else if (a=="--facet") only = nx();
        else return usage(); }
    vector<FacetT> fs; for (auto& f : facets()) if (f.property==prop && (only.empty() || f.name==only)) fs.push_back(f);
    if (fs.empty()) { cerr << "no facets for " << prop << "\n"; return 2; }
    const char *td = getenv("TMPDIR"); string tpl = string(td && *td ? td : "/tmp") + "/pbt.XXXXXX"; vector<char> tb(tpl.begin(), tpl.end()); tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
    scratch_root = tb.data(); atexit(rm_scratch);
    double cpu = atof(hang_limit_env().c_str());

    if (!replay.empty()) {
        ifstream r(replay); string line, fname; vector<uint64_t> ch; bool have=false; uint64_t from=0,to=0,rseed=seed,step=1; bool isrange=false;
        while (getline(r, line)) { istringstream ss(line); string k; ss >> k; if (k=="facet") ss >> fname; else if (k=="choices") { size_t n; ss >> n; uint64_t v; while (n-- && ss >> v) ch.push_back(v); have=true; }
            else if (k=="seed") ss >> rseed; else if (k=="range") { ss >> from >> to >> step; isrange=true; } else if (k=="---") break; }
        for (auto& f : fs) if (f.name==fname) {
            Shared *sh = new_shared();
            if (isrange) {
                string dir = scratch_root+"/eval"; mkdir(dir.c_str(),0700);
                for (uint64_t i=from;i<=to;i+=step) { Outcome o = run_case(f, sh, dir, nullptr, 0, case_seed(rseed,f,i)); clean_dir(dir); if (bad(o)) { cout << "FAIL case " << i << ": " << o.msg << "\n" << o.note << "\n"; return 1; } }
                cout << "PASS\n"; return 0;
            }
            if (!have) break;
            Outcome o = eval_forked(f, sh, &ch, 0, cpu);
            cout << (bad(o) ? "FAIL: " + o.msg : o.kind==2 ? string("DISCARD") : string("PASS")) << "\n" << o.note << "\n";
            return bad(o) ? 1 : 0;
        }
        cerr << "replay: facet not found\n"; return 2;
    }

    double t0 = now();
    struct W { pid_t pid=-1; Shared *sh=nullptr; string dir, log, st; };
    vector<W> ws(workers);
    string stopfile = scratch_root + "/stop";
    for (int w=0; w<workers; w++) { ws[w].sh = new_shared(); ws[w].dir = scratch_root+"/w"+to_string(w); ws[w].log = ws[w].dir+".log"; ws[w].st = ws[w].dir+".stats"; mkdir(ws[w].dir.c_str(), 0700); }
    volatile uint64_t *stop = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    for (int w=0; w<workers; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            W& me = ws[w]; redirect_output(me.log);
            map<size_t,Stats> st; int rc = 0; uint64_t capped = 0;
            for (size_t k=0; k<fs.size() && !rc; k++) {
                FacetT& f = fs[k]; uint64_t N = (uint64_t)ceil((tier=="thorough" ? f.thorough : f.quick) * scale);
                Stats& s = st[k]; me.sh->facet = k;
                double share = cap_s * (k+1) / fs.size();
                for (uint64_t i=w; i<N; i+=workers) {
                    if (*stop) break;
                    if (now()-t0 > share) { capped++; break; }
                    me.sh->index = i; me.sh->running = 1; arm(cpu);
                    Outcome o = run_case(f, me.sh, me.dir, nullptr, 0, case_seed(seed,f,i));
                    arm(0); me.sh->running = 0; clean_dir(me.dir);
                    s.evals++; s.maxchoices = max<uint64_t>(s.maxchoices, o.n);
                    if (o.kind==2) s.discards++;
                    else { for (auto& l : o.labels) s.labels[l]++;
                        if (o.nontriv) { s.nontriv++; s.fp.insert(o.hash); if (s.samples.size()<2 && (s.samples.empty() || s.evals>50) && !o.note.empty()) s.samples.push_back(o.note.substr(0,1200)); } }
                    if (o.kind==1) { put(me.sh->msg, sizeof me.sh->msg, o.msg); me.sh->running = 2; rc = 3; break; }
                }
            }
            if (capped) st[0].labels["time-cap-reached"] += capped;
            save_stats(me.st, st);
            if (__gcov_dump) __gcov_dump();
            _exit(rc);
        }
        ws[w].pid = pid;
    }
    int left = workers, failed = -1, failed_status = 0;
    while (left > 0) { int st; pid_t p = wait(&st); if (p < 0) { if (errno==EINTR) continue; break; }
        for (int w=0; w<workers; w++) if (ws[w].pid==p) { left--; if (!(WIFEXITED(st) && WEXITSTATUS(st)==0)) { if (failed<0) { failed = w; failed_status = st; *stop = 1; } } } }
    map<size_t,Stats> st; for (auto& w : ws) load_stats(w.st, st);

    string violation; int nviol = 0; uint64_t tries = 0; string unrep;
    if (failed >= 0) {
        W& w = ws[failed]; Shared *sh = w.sh; FacetT& f = fs[sh->facet]; uint64_t idx = sh->index;
        vector<uint64_t> ch(sh->choices, sh->choices + std::min<uint64_t>((uint64_t)sh->nout, (uint64_t)CAP));
        Shared *es = new_shared();
        Outcome o = eval_forked(f, es, &ch, 0, cpu);
        if (bad(o)) {
            vector<uint64_t> orig = ch; Outcome oo = o; ch = shrink(f, es, ch, o, 90, tries);
            int again = 0; for (int k=0;k<3;k++) { Outcome x = eval_forked(f, es, &ch, 0, cpu); if (bad(x)) { again++; o = x; } }
            if (again < 3) { int a2 = 0; for (int k=0;k<4;k++) a2 += bad(eval_forked(f, es, &orig, 0, cpu)); if (a2 >= 3) { again = 3; ch = orig; o = oo; } } // shrunk case too rare a schedule: keep the original
            if (again == 3) { nviol = 1; write_replay(replay_out, prop, f.name, ch, o, seed, "case " + to_string(idx) + ", shrunk in " + to_string(tries) + " attempts"); violation = f.name + ": " + o.msg.substr(0,600) + "\n" + o.note.substr(0,1500); }
            else unrep = "facet " + f.name + " case " + to_string(idx) + " failed but did not reproduce 3 times: " + string(sh->msg) + " " + o.msg.substr(0, 1500);
        } else if (sh->facet < fs.size()) {
            // depends on state left by earlier cases of the same worker: replay that worker's history of this facet
            auto history = [&]() -> bool { pid_t p = fork(); if (p==0) { redirect_output(scratch_root+"/hist.log"); string dir=scratch_root+"/eval"; mkdir(dir.c_str(),0700);
                    for (uint64_t i=failed; i<=idx; i+=workers) { arm(cpu); Outcome x = run_case(f, es, dir, nullptr, 0, case_seed(seed,f,i)); clean_dir(dir); if (bad(x)) _exit(7); } _exit(0); }
                int s2; waitpid(p,&s2,0); return !(WIFEXITED(s2) && WEXITSTATUS(s2)==0); };
            int again = 0; for (int k=0;k<3;k++) again += history();
            if (again == 3) { nviol = 1; ofstream r(replay_out); r << "property " << prop << "\nfacet " << f.name << "\nseed " << seed << "\nrange " << failed << " " << idx << " " << workers << "\n--- message\nfails only after the preceding cases of the same process: " << sh->msg << "\n"; violation = f.name + " (history of cases): " + string(sh->msg); }
            else unrep = "facet " + f.name + " case " + to_string(idx) + " failed once (status " + to_string(failed_status) + ") but did not reproduce: " + string(sh->msg) + " " + tail(w.log, 1500);
        }
    }
    if (!stats.empty()) {
        ofstream o(stats); o << "{\"facets\":[";
        for (size_t k=0;k<fs.size();k++) { Stats& s = st[k]; if (k) o << ",";
            o << "{\"name\":\"" << fs[k].name << "\",\"rule\":\"" << jesc(fs[k].rule) << "\",\"evaluations\":" << s.evals << ",\"nontrivial\":" << s.nontriv << ",\"distinct_nontrivial\":" << s.fp.size() << ",\"discarded\":" << s.discards << ",\"max_choices\":" << s.maxchoices << ",\"labels\":{";
            bool first=true; for (auto& l : s.labels) { if (!first) o << ","; first=false; o << "\"" << jesc(l.first) << "\":" << l.second; }
            o << "},\"samples\":["; for (size_t i=0;i<s.samples.size() && i<3;i++) { if (i) o << ","; o << "\"" << jesc(s.samples[i]) << "\""; } o << "]}"; }
        o << "],\"violations\":" << nviol << ",\"shrink_attempts\":" << tries << ",\"unreproduced\":\"" << jesc(unrep) << "\",\"wall_s\":" << now()-t0 << "}\n";
    }
    if (nviol) { cout << violation << "\n"; return 1; }
    if (!unrep.empty()) { cout << "UNREPRODUCED " << unrep << "\n"; return 4; }
    return 0;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
#endif
