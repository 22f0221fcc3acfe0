// P20 images, P21 timing and progress output, P23 exceptions
#include "pbt.h"
#include <algorithm>
#include <climits>
#include <ctime>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <atomic>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include <softlib/config.h>
#include <softlib/ConfigurationException.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/SFile.h>
#include <softlib/Configuration.h>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/ImageGenerator/ImageGeneratorPPM.h>
#ifdef HAS_LIBPNG
#include <png.h>
#include <softlib/ImageGenerator/ImageGeneratorPNG.h>
#endif
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/ProgressTracker.h>
#include <softlib/Timer.h>
using namespace std; using namespace pbt;

// ---- a clock the cases control: while frozen, every clock of the process stands at fake_ns
static volatile bool frozen = false; static volatile long long fake_ns = 0;
static int realclk(clockid_t id, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) noexcept { if (frozen && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) { ts->tv_sec = fake_ns / 1000000000; ts->tv_nsec = fake_ns % 1000000000; return 0; } return realclk(id, ts); }
time_t time(time_t *t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
}
struct Freeze { Freeze() { fake_ns = 1700000000000000000LL; frozen = true; } ~Freeze() { frozen = false; } };

// ---------------------------------------------------------------- P20
typedef ImageColormap::scolor_t color;
struct Pic { size_t w, h, maxv; vector<long> px; };
static Pic readppm(Ctx& c, const string& fn) { // ASCII or binary portable pixmap
    ifstream f(fn, ios::binary); c.require(f.is_open(), "picture file was not created"); stringstream ss; ss << f.rdbuf(); string s = ss.str(), tok; size_t p = 0; auto next = [&]() { for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) p++; if (p < s.size() && s[p] == '#') { while (p < s.size() && s[p] != '\n') p++; } else break; } string t; while (p < s.size() && !isspace((unsigned char)s[p])) t += s[p++]; return t; };
    string magic = next(); c.require(magic == "P3" || magic == "P6", "not a PPM picture: starts with " + str(magic)); auto num = [&]() { string t = next(); c.require(!t.empty() && t.find_first_not_of("0123456789") == string::npos && t.size() < 10, "malformed number " + str(t) + " in picture"); return (long)stol(t); };
    Pic P; P.w = num(); P.h = num(); P.maxv = num(); size_t n = P.w * P.h * 3; if (magic == "P3") { for (size_t i = 0; i < n; i++) P.px.push_back(num()); c.require(next().empty(), "picture holds more pixels than its size says"); } else { p++; c.require(s.size() - p == n, "picture has the wrong number of pixels"); for (size_t i = 0; i < n; i++) P.px.push_back((unsigned char)s[p + i]); } return P;
}
struct CM { vector<color> col; double lo, hi; };
static double chan(const color& k, int i) { return i == 0 ? k.red : i == 1 ? k.green : k.blue; }
static double want(const CM& m, double v, int i) { size_t n = m.col.size(); if (n == 1) return chan(m.col[0], i); long double x = ((long double)v - m.lo) / ((long double)m.hi - m.lo); if (x <= 0) return chan(m.col[0], i); if (x >= 1) return chan(m.col[n-1], i); x *= n - 1; size_t l = (size_t)floorl(x); if (l >= n - 1) l = n - 2; double f = (double)(x - l); return (1 - f) * chan(m.col[l], i) + f * chan(m.col[l+1], i); }
#ifdef HAS_LIBPNG
static Pic readpng(Ctx& c, const string& fn) { // chunk structure and checksums by hand, pixels through libpng's own reader
    ifstream f(fn, ios::binary); c.require(f.is_open(), "picture file was not created"); stringstream ss; ss << f.rdbuf(); string s = ss.str(); c.require(s.size() > 8 && s.compare(0, 8, string("\x89PNG\r\n\x1a\n", 8)) == 0, "not a PNG picture"); auto u32 = [&](size_t p) { return (uint32_t)(unsigned char)s[p] << 24 | (uint32_t)(unsigned char)s[p+1] << 16 | (uint32_t)(unsigned char)s[p+2] << 8 | (uint32_t)(unsigned char)s[p+3]; };
    size_t p = 8; bool end = false; while (p < s.size()) { c.require(!end, "data after the end of the PNG picture"); c.require(p + 12 <= s.size(), "truncated PNG chunk"); size_t n = u32(p); c.require(n < s.size() && p + 12 + n <= s.size(), "truncated PNG chunk"); uint32_t crc = 0xffffffffu; for (size_t i = p + 4; i < p + 8 + n; i++) { crc ^= (unsigned char)s[i]; for (int k = 0; k < 8; k++) crc = crc & 1 ? crc >> 1 ^ 0xedb88320u : crc >> 1; } c.require(~crc == u32(p + 8 + n), "wrong PNG checksum"); end = s.compare(p + 4, 4, "IEND") == 0; p += 12 + n; } c.require(end, "PNG picture is not complete");
    png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION; c.require(png_image_begin_read_from_memory(&im, s.data(), s.size()), string("unreadable PNG picture: ") + im.message); c.require(!(im.format & PNG_FORMAT_FLAG_ALPHA), "picture is partly transparent"); im.format = PNG_FORMAT_RGB; Pic P; P.w = im.width; P.h = im.height; P.maxv = 255; vector<unsigned char> b(PNG_IMAGE_SIZE(im)); bool ok = png_image_finish_read(&im, nullptr, b.data(), 0, nullptr) && !(im.warning_or_error & PNG_IMAGE_ERROR); string msg = im.message; png_image_free(&im); c.require(ok, "unreadable PNG picture: " + msg); P.px.assign(b.begin(), b.end()); return P;
}
#endif
static CM genmap(Ctx& c) { CM m; int n = (int)c.range(1, 9); for (int i = 0; i < n; i++) { color k; k.red = (unsigned)c.draw(256); k.green = (unsigned)c.draw(256); k.blue = (unsigned)c.draw(256); m.col.push_back(k); } double w = c.coin() ? (double)c.range(1, 9) : c.logreal(1e-9, 1e9); m.lo = c.chance(25) ? 0 : c.coin() ? (double)c.range(-9, 9) : w * c.bulk(-20, 20); m.hi = m.lo + w; if (c.chance(8)) swap(m.lo, m.hi); return m; }
static double genval(Ctx& c, const CM& m) { switch (c.draw(10)) { case 0: return m.lo; case 1: return m.hi; case 2: return m.lo + (m.hi - m.lo) * (double)c.range(0, (int64_t)m.col.size()) / (double)max<size_t>(1, m.col.size() - 1); case 3: return m.lo - (m.hi - m.lo) * c.logreal(1e-3, 1e3); case 4: return m.hi + (m.hi - m.lo) * c.logreal(1e-3, 1e3); case 5: switch (c.draw(5)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; case 3: return c.logreal(1e10, 1e300); default: return -c.logreal(1e10, 1e300); } default: return c.bulk(m.lo, m.hi); } }
static const vector<color>& ger() { static vector<color> v = {{0,0,0},{38,38,128},{76,38,191},{153,51,128},{255,64,38},{230,128,0},{230,191,26},{230,230,128},{255,255,255}}; return v; }
static void pixeq(Ctx& c, double got, const CM& m, double v, int ch, const string& where) {
    if (std::isnan(v)) { double l = 1e9, h = -1; for (auto& k : m.col) { l = min(l, chan(k, ch)); h = max(h, chan(k, ch)); } c.require(got >= l - 1 && got <= h + 1, where + ": channel " + to_string(ch) + " of an undefined value is " + str(got) + ", which is not a colour of the map"); return; } // (no particular colour)
    double w = want(m, v, ch); double tol = 1 + 1e-9; double x = (v - m.lo) / (m.hi - m.lo); if (!(x > -1e-9 && x < 1 + 1e-9) || m.col.size() == 1 || v == m.lo || v == m.hi) tol = 1e-6; c.require(fabs(got - w) <= tol, where + ": channel " + to_string(ch) + " of value " + str(v) + " is " + str(got) + ", the colour map gives " + str(w)); }
FACET("P20", images, 3000, "image has at least two rows and columns") {
    unsigned nr = (unsigned)c.range(1, c.chance(10) ? 60 : 9), nc = (unsigned)c.range(1, c.chance(10) ? 60 : 9); if (c.chance(2)) { (c.coin() ? nr : nc) = (unsigned)c.range(200, 1100); nr = min(nr, nc < 9 ? 1100u : 9u); c.label("very wide or high"); } CM m; int which = (int)c.draw(4); if (which == 0) { m.col = ger(); m.lo = 0; m.hi = 1; } else if (which == 1) { m.col = {{0,0,0},{255,255,255}}; m.lo = 0; m.hi = 1; } else if (which == 2) m = genmap(c); else { m.col = ger(); m.lo = 0; m.hi = 1; }
    vector<double> img(nr * nc); for (auto& v : img) v = genval(c, m); vector<double> orig = img; bool png = false;
#ifdef HAS_LIBPNG
    png = c.coin();
#endif
    auto TY = png ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM; string fn = c.tmp(png ? "image.png" : "image.ppm"); c.note << (png ? "png " : "ppm ");
    c.note << nr << "x" << nc << " map " << which << " range [" << m.lo << "," << m.hi << "] " << strv(img).substr(0, 300);
    if (c.chance(20)) { ofstream f(fn); for (int i = 0; i < 5000; i++) f << "old contents "; } // must be replaced completely
    bool direct = c.coin(); ImageColormap cm(m.col.data(), (unsigned)m.col.size(), m.lo, m.hi); if (which == 2) { if (!m.col.empty()) { auto keep = m.col; for (auto& k : m.col) k.red = k.green = k.blue = 7; m.col = keep; } }
    if (direct) { unique_ptr<ImageGenerator> g2(ImageGenerator::GetImageGenerator(TY)), g1(new ImageGeneratorPPM());
#ifdef HAS_LIBPNG
        if (png) g1.reset(new ImageGeneratorPNG());
#endif
        ImageGenerator& G = c.coin() ? *g1 : *g2; if (which == 0) G.SaveImage(fn, img.data(), nr, nc, ImageGenerator::COLORMAP_GERIMAP); else if (which == 1) G.SaveImage(fn, img.data(), nr, nc, ImageGenerator::COLORMAP_GRAY); else G.SaveImage(fn, img.data(), nr, nc, &cm); }
    else { if (which == 0) ImageGenerator::gen(TY, fn, img.data(), nr, nc, ImageGenerator::COLORMAP_GERIMAP); else if (which == 1) ImageGenerator::gen(TY, fn, img.data(), nr, nc, ImageGenerator::COLORMAP_GRAY); else if (which == 2) ImageGenerator::gen(TY, fn, img.data(), nr, nc, &cm); else ImageGenerator::gen(TY, fn, img.data(), nr, nc); }
    c.require(memcmp(img.data(), orig.data(), img.size() * sizeof(double)) == 0, "saving an image changed it"); Pic P;
#ifdef HAS_LIBPNG
    if (png) P = readpng(c, fn); else
#endif
    P = readppm(c, fn); c.require(P.w == nr && P.h == nc, "picture is " + to_string(P.w) + "x" + to_string(P.h) + ", image has " + to_string(nr) + " rows (drawn horizontally) and " + to_string(nc) + " columns"); c.require(P.maxv == 255, "maximum colour value");
    for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) for (int ch = 0; ch < 3; ch++) { long g = P.px[(y * nr + x) * 3 + ch]; c.require(g >= 0 && g <= 255, "colour out of range"); pixeq(c, (double)g, m, img[x * nc + y], ch, "pixel (" + to_string(x) + "," + to_string(y) + ")"); }
    c.nontrivial(nr > 1 && nc > 1); if (nr != nc) c.label("nonsquare");
}
FACET("P20", colormaps, 20000, "value strictly inside the range of a map with two or more colours") {
    CM m = genmap(c); vector<color> src = m.col; ImageColormap cm(src.data(), (unsigned)src.size(), m.lo, m.hi); for (auto& k : src) k.red = k.green = k.blue = 999; bool in = false; double pv = 0; (void)pv;
    c.note << m.col.size() << " colours, [" << str(m.lo) << "," << str(m.hi) << "]"; for (int i = 0; i < 8; i++) { double v = genval(c, m); in |= v > m.lo && v < m.hi && m.col.size() > 1; color k = cm.Eval(v); for (int ch = 0; ch < 3; ch++) pixeq(c, chan(k, ch), m, v, ch, "Eval"); color k2 = cm.Eval(v); c.require(k.red == k2.red && k.green == k2.green && k.blue == k2.blue, "Eval is not repeatable"); }
    c.nontrivial(in);
}
FACET("P20", unwritable, 300, "always") {
    double img[12]; for (double& v : img) v = c.bulk(0, 1); string fn; switch (c.draw(3)) { case 0: fn = c.tmp("no/such/dir/") + "image.ppm"; break; case 1: fn = c.tmp("isdir"); mkdir(fn.c_str(), 0755); break; default: fn = "/dev/full"; } bool err = false; c.note << fn;
    auto TY = ImageGenerator::IMAGE_TYPE_PPM;
#ifdef HAS_LIBPNG
    if (c.coin()) TY = ImageGenerator::IMAGE_TYPE_PNG;
#endif
    vector<double> big; unsigned nr = 3, nc = 4; if (c.coin()) { nr = (unsigned)c.range(50, 200); nc = (unsigned)c.range(50, 200); } uint64_t x = c.draw(1000); for (unsigned i = 0; i < nr * nc; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; big.push_back(i < 12 ? img[i] : (double)(x >> 40) / (1 << 24)); } c.note << " " << nr << "x" << nc << " type " << (int)TY;
    try { ImageGenerator::gen(TY, fn, big.data(), nr, nc, ImageGenerator::COLORMAP_GERIMAP); } catch (SOFTLibException&) { err = true; } c.require(err, "an image that could not be written to " + fn + " was not reported");
#ifndef HAS_LIBPNG
    bool bad = false; try { ImageGenerator::gen(ImageGenerator::IMAGE_TYPE_PNG, c.tmp("x.png"), img, 3, 4, ImageGenerator::COLORMAP_GRAY); } catch (SOFTLibException&) { bad = true; } c.require(bad, "unavailable image format was not refused");
#endif
    c.nontrivial();
}

// ---------------------------------------------------------------- P21
static long long gendur(Ctx& c) { // microseconds
    static const long long U[] = {1, 1000, 1000000, 60000000LL, 3600000000LL, 86400000000LL}; long long t = 0; switch (c.draw(4)) { case 0: t = U[c.draw(6)] * c.range(0, 100) + c.range(-1, 1); break; case 1: { int a = (int)c.draw(6); t = U[a] * c.range(1, 70) + U[c.draw(a + 1)] * c.range(0, 999); break; } case 2: for (int i = 0; i < 6; i++) t += U[i] * c.range(0, i < 2 ? 999 : i == 4 ? 23 : 59); break; default: t = (long long)c.logreal(1, 4e13); } return max(0LL, t); }
static void checktime(Ctx& c, struct Timer::time t, long long us, const string& what) {
    long long d = t.days.count(), h = t.hours.count(), m = t.minutes.count(), s = t.seconds.count(), ms = t.milliseconds.count(), u = t.microseconds.count(); string desc = what + ": " + to_string(us) + " us elapsed, decomposed as " + to_string(d) + "d " + to_string(h) + "h " + to_string(m) + "m " + to_string(s) + "s " + to_string(ms) + "ms " + to_string(u) + "us";
    c.require(t.tp.count() == us, what + ": total is " + to_string((long long)t.tp.count()) + " us, elapsed " + to_string(us)); c.require(((((d * 24 + h) * 60 + m) * 60 + s) * 1000 + ms) * 1000 + u == us, desc); c.require(d >= 0 && h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0 && s < 60 && ms >= 0 && ms < 1000 && u >= 0 && u < 1000, desc);
    c.require(Timer::GetMicroseconds(t) == (double)us, what + ": GetMicroseconds"); double g = Timer::GetMilliseconds(t); c.require(g > us / 1000.0 - 1 && g <= us / 1000.0 + 1e-6, what + ": GetMilliseconds is " + str(g) + " for " + to_string(us) + " us");
    // the text denotes the time
    string s1 = Timer::ToString(t); istringstream is(s1); long long n, tot = 0, last = LLONG_MAX; string unit; map<string, long long> U = {{"day", 86400000000LL}, {"hour", 3600000000LL}, {"minute", 60000000}, {"second", 1000000}, {"millisecond", 1000}, {"microsecond", 1}}; bool any = false; while (is >> n >> unit) { any = true; while (!unit.empty() && (unit.back() == ',' || unit.back() == 's')) unit.pop_back(); c.require(U.count(unit), "unknown unit in " + str(s1)); c.require(U[unit] < last, "units out of order in " + str(s1)); last = U[unit]; tot += n * U[unit]; } c.require(any && tot == us, what + ": " + to_string(us) + " us printed as " + str(s1));
}
FACET("P21", timer, 15000, "a stopped and continued timer or more than one second") {
    Freeze fz; Timer T; long long acc = 0, cur = 0; bool running = true, hist = false; int n = (int)c.range(1, 8); // model: accumulated + current run
    for (int i = 0; i < n; i++) { long long d = gendur(c) ; long long ns = c.coin() ? 0 : 0; fake_ns = fake_ns + d * 1000 + ns; if (running) cur += d; c.note << "+" << d << "us ";
        checktime(c, T.GetTimeStruct(), acc + cur, running ? "running timer" : "stopped timer"); long long us = acc + cur; c.require(T.GetMicroseconds() == (double)us, "GetMicroseconds"); c.require(fabs(T.GetMilliseconds() - us / 1000.0) < 1.0 + 1e-6, "GetMilliseconds"); { auto t = T.GetTimeStruct(); c.require(T.ToString() == Timer::ToString(t), "ToString"); }
        switch (c.draw(4)) { case 0: T.Reset(); acc = cur = 0; running = true; c.note << "reset "; break; case 1: T.Stop(); running = false; c.note << "stop "; break; case 2: T.Continue(); if (!running) hist = true; running = true; c.note << "continue "; break; default:; } }
    checktime(c, T.GetTimeStruct(), acc + cur, "timer"); c.nontrivial(hist || acc + cur > 1000000);
}
static string strip(const string& s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; } else o += s[i]; return o; }
// parses DdHHhMMmSSsMMMms; returns milliseconds, resolution in res
static bool parsetime(const string& s, long long& ms, long long& res, string& why) { ms = 0; res = 0; size_t p = 0; long long lastu = LLONG_MAX; if (s.empty()) { why = "empty"; return false; } bool first = true; while (p < s.size()) { size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == q || p - q > 18) { why = "no number"; return false; } long long n = stoll(s.substr(q, p - q)); long long u; size_t len = p - q; if (s.compare(p, 2, "ms") == 0) { u = 1; p += 2; if (!first && len != 3) { why = "milliseconds not padded"; return false; } } else if (p < s.size() && s[p] == 's') { u = 1000; p++; } else if (p < s.size() && s[p] == 'm') { u = 60000; p++; } else if (p < s.size() && s[p] == 'h') { u = 3600000; p++; } else if (p < s.size() && s[p] == 'd') { u = 86400000; p++; } else { why = "no unit"; return false; } if (!first && u > 1 && len != 2) { why = "not two digits"; return false; } if (u >= lastu) { why = "units out of order"; return false; } if (!first && u < 3600000 && u * (u == 1 ? 1000 : 60) != lastu) { why = "a unit was left out"; return false; } lastu = u; res = u; ms += n * u; first = false; } return true; }
static void chkts(Ctx& c, const string& s, long long ms, int tu, const string& what) { long long v, res; string why; if (!parsetime(s, v, res, why)) c.fail(what + ": " + to_string(ms) + " ms given as " + str(s) + " (" + why + ")"); if (res == 1) c.require(v == ms, what + ": " + to_string(ms) + " ms given as " + str(s)); else if (ms == 0) c.require(v == 0, "zero"); else { c.require(res == 1000, what + ": " + str(s) + " does not go down to seconds"); c.require(v == ms / 1000 * 1000, what + ": " + to_string(ms) + " ms given as " + str(s)); c.require(ms >= 10000, what + ": milliseconds missing from " + str(s)); }
    static const long long lim[] = {0, LLONG_MAX, 86400000, 3600000, 60000, 1000}; (void)lim; static const char *forb[] = {"", "", "d", "dh", "", ""}; for (const char *p = forb[tu]; *p; p++) c.require(s.find(*p) == string::npos, what + ": " + str(s) + " uses a larger unit than requested"); if (tu == 4) { string t = s; size_t k; while ((k = t.find("ms")) != string::npos) t.erase(k, 2); c.require(t.find('m') == string::npos, "larger unit than requested"); } if (tu == 5) c.require(res == 1, "larger unit than requested");
    size_t e = 0; long long n0 = stoll(s, &e), cap = s.compare(e, 2, "ms") == 0 ? (tu < 5 ? 1000 : LLONG_MAX) : s[e] == 's' ? (tu < 4 ? 60 : LLONG_MAX) : s[e] == 'm' ? (tu < 3 ? 60 : LLONG_MAX) : s[e] == 'h' ? (tu < 2 ? 24 : LLONG_MAX) : LLONG_MAX; c.require(n0 < cap, what + ": " + str(s) + " does not use the largest unit requested"); }
FACET("P21", timestring, 20000, "more than one second") {
    long long ms = gendur(c); if (c.coin()) ms /= 1000; ProgressTracker P(10, 5, ProgressTracker::PROGRESS_LINES); int tu = (int)c.range(1, 5); c.note << ms << " ms, unit " << tu; string a = P.TimeString(ms, false, (ProgressTracker::TimeUnit)tu), b = P.TimeString(ms, true, (ProgressTracker::TimeUnit)tu); chkts(c, a, ms, tu, "TimeString"); c.require(a.find('\x1b') == string::npos, "plain text contains escape codes"); c.require(strip(b) == a, "coloured text " + str(b) + " differs from plain text " + str(a)); { bool on = false; for (size_t i = 0; i < b.size(); i++) { if (b[i] == '\x1b') { size_t e = b.find('m', i); c.require(e != string::npos, "incomplete escape code"); on = b.substr(i, e - i) != "\x1b[0"; i = e; } else c.require(!on || isdigit((unsigned char)b[i]), "unit is coloured in " + str(b)); } c.require(!on, "colour is left switched on after " + str(b)); } string d = P.TimeString(ms); chkts(c, d, ms, 2, "TimeString with default unit"); c.nontrivial(ms > 1000);
}
struct Line { long long k, n; string a, r, rem, tot; };
static vector<Line> parselines(Ctx& c, const string& out, bool colors, bool est) { vector<Line> v; istringstream is(out); string l; while (getline(is, l)) { if (colors) c.require(l.find('\x1b') != string::npos, "colours were requested but " + str(l) + " has none"); else c.require(l.find('\x1b') == string::npos, "no colours were requested"); string s = strip(l); Line L; int e = 0; char b[4][64]; if (est) { if (sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed, %60s remaining (%60s total)%n", &L.k, &L.n, b[0], b[1], b[2], b[3], &e) < 6 || e != (int)s.size()) c.fail("malformed progress line " + str(s)); L.rem = b[2]; L.tot = b[3]; } else if (sscanf(s.c_str(), "PROGRESS (%lld/%lld) :: %60s / %60s passed%n", &L.k, &L.n, b[0], b[1], &e) < 4 || e != (int)s.size()) c.fail("malformed progress line " + str(s)); L.a = b[0]; L.r = b[1]; v.push_back(L); } c.require(out.empty() || out.back() == '\n', "last progress line is not complete"); return v; }
static long long point(long long k, long long n, long long np) { return k * (n / np) + min(k, n % np); }
FACET("P21", progress_inorder, 6000, "several reports over several iterations") {
    long long np = c.range(c.chance(10) ? 0 : 1, c.chance(10) ? 200 : 12), n = c.chance(15) ? c.range(0, 6) : c.range(1, np > 12 ? 600 : 150); bool colors = c.coin(), est = c.coin(), reps = c.chance(20); vector<pair<long long, long long>> calls; Freeze fz; ProgressTracker P(n, np, ProgressTracker::PROGRESS_LINES, colors, est); long long t = 0; vector<long long> when; long long steady = c.coin() ? c.range(1, 20000) : 0; c.note << n << " iterations, " << np << " reports, pace " << steady << (est ? " est" : "");
    string err; vector<long long> its, times; string out = capture_stdout(c, [&] { long long printed = 0; (void)printed; for (long long i = c.coin() ? 0 : 1; i <= n; i++) { long long d = steady ? steady : c.range(0, c.chance(5) ? 5000000 : 3000); t += d; fake_ns = fake_ns + d * 1000000; P.PrintProgress(i); if (reps) P.PrintProgress(i); fflush(stdout); its.push_back(i); times.push_back(t);
            if (np > 0 && i > 0 && (i % 7 == 1 || i == n)) { long long q = 1 + i % np, T = P.TotalPassedTime(), A = P.EstimateRemainingTimeAverage(q); if (llabs(T - t) > 2) err = "TotalPassedTime is " + to_string(T) + " after " + to_string(t) + " ms"; double want = (double)(np - q) * (double)t / (double)q; if (fabs((double)A - want) > 2.0 * (double)np / (double)q + 2) err = "EstimateRemainingTimeAverage(" + to_string(q) + ") is " + to_string(A) + " after " + to_string(t) + " ms of " + to_string(np) + " blocks"; } } }); c.require(err.empty(), err);
    auto L = parselines(c, out, colors, est); if (np == 0 || n == 0) { if (np == 0) c.require(L.empty(), "progress was reported although no reports were requested"); return; } c.require((long long)L.size() <= np, "progress was reported more often than requested: " + to_string(L.size()) + " of " + to_string(np)); for (size_t k = 0; k < L.size(); k++) { c.require(L[k].k == (long long)k + 1 && L[k].n == np, "report " + to_string(k + 1) + " is labelled (" + to_string(L[k].k) + "/" + to_string(L[k].n) + ")"); }
    if (n >= np && !reps) { c.require((long long)L.size() == np, "not all requested reports were printed: " + to_string(L.size()) + " of " + to_string(np)); long long prev = 0; for (size_t k = 0; k < L.size(); k++) { long long pt = point((long long)k + 1, n, np); long long at = -1; for (size_t j = 0; j < its.size(); j++) if (its[j] == pt) at = times[j]; chkts(c, L[k].a, at, 2, "elapsed time of report " + to_string(k + 1)); chkts(c, L[k].r, at - prev, 2, "time since the last report"); if (est) { long long r, tt, res, res2; string why; if (!parsetime(L[k].rem, r, res, why) || !parsetime(L[k].tot, tt, res2, why)) { c.require(!steady, "remaining time " + L[k].rem); } else if (steady && n % np == 0) { chkts(c, L[k].rem, (np - (long long)k - 1) * (at - prev), 2, "remaining time at a steady pace"); chkts(c, L[k].tot, at + (np - (long long)k - 1) * (at - prev), 2, "total time at a steady pace"); } } prev = at; } }
    if (n < np && !reps) c.require((long long)L.size() <= n + 1, "more than one report per iteration"); c.nontrivial(n > np && np > 1);
}
FACET("P21", progress_threads, 400, "at least two reports from several threads") {
#ifdef _OPENMP
    long long np = c.range(1, 40), n = c.range(1, 3000); bool est = c.coin(); c.note << n << " iterations, " << np << " reports from threads"; uint64_t sh = c.draw(1000000007); ProgressTracker P(n, np, ProgressTracker::PROGRESS_LINES, false, est); int nt = (int)c.range(2, 6); int mode = (int)c.draw(3);
    string out = capture_stdout(c, [&] { if (mode == 0) { long long done = 0;
            #pragma omp parallel for num_threads(nt) schedule(dynamic)
            for (long long i = 0; i < n; i++) { long long mine;
                #pragma omp atomic capture
                mine = ++done;
                P.PrintProgress(mine); } }
        else if (mode == 1) {
            #pragma omp parallel for num_threads(nt) schedule(dynamic)
            for (long long i = 1; i <= n; i++) P.PrintProgress(i); }
        else { vector<long long> o; for (long long i = 1; i <= n; i++) o.push_back(i); uint64_t x = sh + 1; for (size_t i = o.size(); i > 1; i--) { x = x * 6364136223846793005ull + 1442695040888963407ull; swap(o[i-1], o[(x >> 33) % i]); }
            #pragma omp parallel for num_threads(nt) schedule(static)
            for (long long i = 0; i < n; i++) P.PrintProgress(o[(size_t)i]); }
        fflush(stdout); });
    auto L = parselines(c, out, false, est); c.require((long long)L.size() <= np, "progress was reported more often than requested: " + to_string(L.size()) + " of " + to_string(np)); for (size_t k = 0; k < L.size(); k++) c.require(L[k].k == (long long)k + 1 && L[k].n == np, "reports are not in order: line " + to_string(k + 1) + " is labelled (" + to_string(L[k].k) + "/" + to_string(L[k].n) + ")"); c.require(n < np || !L.empty(), "no progress was reported"); c.nontrivial(L.size() > 1);
#else
    c.nontrivial();
#endif
}

// ---------------------------------------------------------------- P23
static string gentext(Ctx& c, bool pct) { size_t n; switch (c.draw(6)) { case 0: n = 0; break; case 1: n = (size_t)c.range(1, 30); break; case 2: n = (size_t)c.range(985, 1010); break; case 3: n = (size_t)c.range(1, 5000); break; case 4: n = (size_t)c.range(1990, 2010); break; default: n = (size_t)c.range(1, 200); } string s; uint64_t x = c.draw(1000000); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; char ch = (char)(33 + (x >> 40) % 94); if (ch == '%' && !pct) ch = 'p'; s += ch; } if (!s.empty() && c.coin()) s.back() = '!'; return s; }
template<class E, class... A> static void exc(Ctx& c, const string& want, const string& fmt, A... a) {
    auto chk = [&](const SOFTLibException& e, const char *how) { c.require(e.whats() == want && string(e.what()) == want, string(how) + ": message is " + to_string(e.whats().size()) + " characters, expected " + to_string(want.size()) + ": got ..." + str(e.whats().substr(e.whats().size() > 40 ? e.whats().size() - 40 : 0)) + ", expected ..." + str(want.substr(want.size() > 40 ? want.size() - 40 : 0))); };
    E e(fmt, a...); chk(e, "exception"); E cp(e); chk(cp, "copied exception"); { unique_ptr<E> tmp(new E(e)); cp = *tmp; } chk(cp, "assigned exception"); chk(e, "source of the copy");
    int caught = 0; try { try { throw E(fmt, a...); } catch (SOFTLibException& x) { chk(x, "caught as library exception"); caught++; throw; } } catch (std::exception& x) { c.require(want == x.what(), "caught as std::exception: message changed"); caught++; } c.require(caught == 2, "exception was not caught by its base classes");
    bool own = false; try { throw E(fmt, a...); } catch (E& x) { chk(x, "caught as itself"); own = true; } c.require(own, "not caught");
}
template<class E> static void allkinds(Ctx& c) {
    string t = gentext(c, true), u = gentext(c, true), pre = gentext(c, false), post = gentext(c, false); long long i = (long long)c.anyu64(); double d = c.anyfinite(); int k = (int)c.range(-100000, 100000); size_t z = (size_t)c.anyu64(); auto fm = [&](const char *f, auto... a) { int n = snprintf(nullptr, 0, f, a...); string s((size_t)n + 1, 0); snprintf(&s[0], s.size(), f, a...); s.resize((size_t)n); return s; };
    string f; switch (c.draw(6)) { case 0: { string w = t; for (size_t p; (p = w.find("%%")) != string::npos;) w.erase(p, 1); exc<E>(c, w, w); f = w; break; }
        case 1: f = pre + "%s" + post; exc<E>(c, fm(f.c_str(), t.c_str()), f, t.c_str()); break; case 2: f = pre + "%s" + post + "%d%%"; exc<E>(c, fm(f.c_str(), t.c_str(), k), f, t.c_str(), k); break; case 3: f = pre + "%f:%e:%.3g" + post; exc<E>(c, fm(f.c_str(), d, d, d), f, d, d, d); break; case 4: f = "%s" + pre + "%s%lld" + post + "%zu"; exc<E>(c, fm(f.c_str(), t.c_str(), u.c_str(), i, z), f, t.c_str(), u.c_str(), i, z); break; default: f = pre + "%-30s|%5d|%c|%x" + post; exc<E>(c, fm(f.c_str(), u.c_str(), k, 'q', (unsigned)z), f, u.c_str(), k, 'q', (unsigned)z); }
    c.note << f.size() << "-character format, arguments of " << t.size() << " and " << u.size();
    c.nontrivial(f.size() + t.size() > 900);
}
FACET("P23", messages, 20000, "format and argument together exceed 900 characters") { switch (c.draw(3)) { case 0: allkinds<SOFTLibException>(c); break; case 1: allkinds<SFileException>(c); break; default: allkinds<ConfigurationException>(c); } }
FACET("P23", positions, 8000, "always") { string file = gentext(c, true), a = gentext(c, true), pre = gentext(c, false); size_t line = c.coin() ? (size_t)c.range(0, 5000) : (size_t)c.anyu64(), pos = c.coin() ? (size_t)c.range(0, 300) : (size_t)c.anyu64(); bool arg = c.coin(); string want = file + ":" + to_string(line) + ":" + to_string(pos) + ": " + pre + (arg ? a + "!" : ""); c.note << want.size() << " characters";
    auto chk = [&](const ConfigurationException& e) { c.require(e.whats() == want && want == e.what(), "message of " + to_string(e.whats().size()) + " characters, expected " + to_string(want.size())); c.require(e.GetLine() == line && e.GetCharpos() == pos, "position"); }; if (arg) { ConfigurationException e(line, pos, file, pre + "%s!", a.c_str()); chk(e); ConfigurationException f(e); chk(f); f = e; chk(f); } else { ConfigurationException e(line, pos, file, pre); chk(e); ConfigurationException f(e); chk(f); } SOFTLibException none; c.require(none.whats().empty() && string(none.what()).empty(), "empty exception has a message"); c.nontrivial(); }
// Names chosen by the user are reported verbatim, whatever characters they contain.
FACET("P23", names, 1500, "name contains a percent sign") {
    string nm = c.word(1, 6, "ab%") + c.pickl<const char*>({"%s", "%n", "%d", "%", "%5s%s", "%s%s%s%s", "x"}) + c.word(0, 300 * c.draw(2), "abcd%"); if (nm.size() > 180) nm.resize(180); const char *ext = c.pickl<const char*>({".h5", ".mat", ".sdt"}); string fn = c.tmp(nm) + ext; c.note << str(nm) << ext; string msg;
    auto grab = [&](const char *what, function<void()> f) { bool t = false; try { f(); } catch (SOFTLibException& e) { t = true; msg = e.whats(); } c.require(t, string(what) + " was not refused"); };
    grab("missing file", [&] { unique_ptr<SFile> s(SFile::Create(fn, SFILE_MODE_READ)); }); if (msg.find(nm.substr(0, 2)) != string::npos) c.require(msg.find(nm) != string::npos, "file name " + str(nm) + " is garbled in " + str(msg));
    { unique_ptr<SFile> s(SFile::Create(fn, SFILE_MODE_WRITE)); double v[4] = {1, 2, 3, 4}; s->WriteList("v", v, 4); s->Close(); } unique_ptr<SFile> s(SFile::Create(fn, SFILE_MODE_READ)); string var = c.word(1, 4, "ab%sdn") + "%s";
    grab("missing variable", [&] { sfilesize_t n; unique_ptr<double[]> p(s->GetList(var, &n)); }); if (msg.find("'" + var.substr(0, 1)) != string::npos) c.require(msg.find(var) != string::npos, "variable name " + str(var) + " is garbled in " + str(msg)); grab("missing string", [&] { s->GetString(var); }); if (msg.find("'" + var.substr(0, 1)) != string::npos) c.require(msg.find(var) != string::npos, "variable name is garbled in " + str(msg));
    if (string(ext) != ".sdt") { string mf = c.tmp(nm + "m") + ext; { unique_ptr<SFile> f(SFile::Create(mf, SFILE_MODE_WRITE)); double r[3] = {1, 1.5, 2}, z[3] = {-1, 0, 1}, B[9] = {1,1,1,1,1,1,1,1,1}, ver[5] = {1, 1, 1, 1, 1}, wl[8] = {1, 2, 2, 1, -1, -1, 1, 1}; double ma[2] = {1.5, 0}; double *rows[3] = {B, B + 3, B + 6}, *wr[2] = {wl, wl + 4}; f->WriteList("r", r, 3); f->WriteList("z", z, 3); f->WriteList("maxis", ma, 2); f->WriteString("name", "n"); f->WriteString("desc", "d"); f->WriteArray("Br", rows, 3, 3); f->WriteArray("Bphi", rows, 3, 3); f->WriteArray("Bz", rows, 3, 3); f->WriteArray("wall", wr, 2, 4); int bad = (int)c.draw(3); for (int i = 0; i < 3; i++) { const char *n[] = {"verBr", "verBphi", "verBz"}; f->WriteList(n[i], ver, i == bad ? 5 : 3); } f->Close(); }
        grab("over-long verification vector", [&] { MagneticFieldNumeric2D m(mf); }); if (msg.find("erification") != string::npos && msg.find(nm.substr(0, 2)) != string::npos) c.require(msg.find(nm) != string::npos && msg.find("3") != string::npos, "file name is garbled in " + str(msg)); }
    c.nontrivial();
}
