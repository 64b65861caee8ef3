// P18: FITS input and output, with an independent FITS reader/writer and a fault at every single
// operation on the file that the code (through CFITSIO) performs.
#define MC_DEFINE_MAIN
#include "mc.h"
#include <cerrno>
#include <cmath>
#include <dlfcn.h>
#include <dirent.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <tuple>
#include "capture.h"
#include "fftw3.h"
#include "image_io.h"
#include "getimages.h"
using std::string; using std::vector;
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1"; }

// ---- interposed file operations ----
static bool armed = false; static long g_op = 0, g_fail = -1; static int g_mode = 0; static long g_open = 0; static char g_last[32];
static bool hit(const char* w) { if (!armed) return false; long k = g_op++; bool f = g_fail >= 0 && (g_mode & 1 ? k >= g_fail : k == g_fail); if (f) snprintf(g_last, sizeof g_last, "%s", w); return f; }
#define REAL(name) ([]() { static decltype(&name) p = (decltype(&name))dlsym(RTLD_NEXT, #name); return p; }())
extern "C" {
FILE* fopen64(const char* p, const char* m) { if (hit("open")) { errno = (g_mode & 2) ? ENFILE : EACCES; return nullptr; } FILE* f = REAL(fopen64)(p, m); if (f && armed) g_open++; return f; }
size_t fread(void* b, size_t s, size_t n, FILE* f) { if (hit("read")) { errno = EIO; if (g_mode & 2 && s * n > 1) { size_t k = REAL(fread)(b, 1, s * n / 2, f); return k / (s ? s : 1); } return 0; } return REAL(fread)(b, s, n, f); }
size_t __fread_chk(void* b, size_t bs, size_t s, size_t n, FILE* f) { (void)bs; return fread(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { if (hit("write")) { errno = ENOSPC; if (g_mode & 2 && s * n > 1) { size_t k = REAL(fwrite)(b, 1, s * n / 2, f); return k / (s ? s : 1); } return 0; } return REAL(fwrite)(b, s, n, f); }
int fseeko64(FILE* f, off64_t o, int w) { if (hit("seek")) { errno = EIO; return -1; } return REAL(fseeko64)(f, o, w); }
int fflush(FILE* f) { if (hit("flush")) { errno = ENOSPC; return EOF; } return REAL(fflush)(f); }
int fclose(FILE* f) { bool h = hit("close"); if (armed && f) g_open--; int r = REAL(fclose)(f); if (h) { errno = ENOSPC; return EOF; } return r; }
int ftruncate64(int fd, off64_t o) { if (hit("truncate")) { errno = EIO; return -1; } return REAL(ftruncate64)(fd, o); }
int remove(const char* p) { if (hit("remove")) { errno = EACCES; return -1; } return REAL(remove)(p); }
}
struct Arm { Arm(long fail, int mode) { g_op = 0; g_open = 0; g_fail = fail; g_mode = mode; g_last[0] = 0; armed = true; } ~Arm() { armed = false; g_fail = -1; } };
static long ops() { return g_op; }

// ---- independent FITS ----
static string card(const string& k, const string& v) { char b[96]; snprintf(b, sizeof b, "%-8s= %20s", k.c_str(), v.c_str()); string s = b; s.resize(80, ' '); return s; }
static string pad(string s, char c) { while (s.size() % 2880) s += c; return s; }
static void be(string& o, const void* p, int n) { const unsigned char* c = (const unsigned char*)p; for (int i = n - 1; i >= 0; i--) o += (char)c[i]; }
struct Hdu { vector<long> ax; int bitpix = -32; bool ext = false, table = false; bool scaled = false; double bscale = 1, bzero = 0; vector<double> raw; };
static string rawData(const Hdu& h) {
  string d;
  for (double v : h.raw) {
    if (h.bitpix == 8) { unsigned char c = (unsigned char)v; d += (char)c; } else if (h.bitpix == 16) { int16_t s = (int16_t)v; be(d, &s, 2); } else if (h.bitpix == 32) { int32_t s = (int32_t)v; be(d, &s, 4); }
    else if (h.bitpix == 64) { int64_t s = (int64_t)v; be(d, &s, 8); } else if (h.bitpix == -32) { float s = (float)v; be(d, &s, 4); } else be(d, &v, 8);
  }
  return d;
}
static string makeHdu(const Hdu& h, bool more) {
  string s; s += h.ext ? ("XTENSION= 'IMAGE   '" + string(60, ' ')) : card("SIMPLE", "T");
  s += card("BITPIX", std::to_string(h.bitpix)); s += card("NAXIS", std::to_string(h.ax.size()));
  for (size_t i = 0; i < h.ax.size(); i++) s += card("NAXIS" + std::to_string(i + 1), std::to_string(h.ax[i]));
  if (h.ext) { s += card("PCOUNT", "0"); s += card("GCOUNT", "1"); } else if (more) s += card("EXTEND", "T");
  if (h.scaled) { char b[40]; snprintf(b, sizeof b, "%.6G", h.bzero); s += card("BZERO", b); snprintf(b, sizeof b, "%.6G", h.bscale); s += card("BSCALE", b); }
  string e = "END"; e.resize(80, ' '); s += e; s = pad(s, ' ');
  return s + pad(rawData(h), '\0');
}
struct Parsed { bool ok = false; string why; int bitpix = 0; vector<long> ax; vector<string> comments; vector<double> px; };
static Parsed parseFits(const string& f) {
  Parsed p; auto fail = [&](const char* w) { p.why = w; return p; };
  if (f.size() < 2880 || f.size() % 2880) return fail("file size is not a multiple of 2880");
  if (f.compare(0, 9, "SIMPLE  =") || f[29] != 'T') return fail("no SIMPLE = T");
  size_t at = 0; bool end = false; long naxis = -1;
  for (; at + 80 <= f.size() && !end; at += 80) {
    string c = f.substr(at, 80), k = c.substr(0, 8); k.erase(k.find_last_not_of(' ') + 1);
    if (k == "END") end = true; else if (k == "BITPIX") p.bitpix = atoi(c.c_str() + 10); else if (k == "NAXIS") naxis = atol(c.c_str() + 10); else if (k.compare(0, 5, "NAXIS") == 0) p.ax.push_back(atol(c.c_str() + 10));
    else if (k == "COMMENT") { string t = c.substr(8); t.erase(t.find_last_not_of(' ') + 1); p.comments.push_back(t); }
    else if (k == "BSCALE" || k == "BZERO") return fail("scaled");
  }
  if (!end || naxis != (long)p.ax.size()) return fail("header broken");
  at = (at + 2879) / 2880 * 2880; long n = 1; for (long a : p.ax) n *= a; size_t w = abs(p.bitpix) / 8;
  if (f.size() < at + n * w) return fail("data missing");
  if (f.size() != (at + n * w + 2879) / 2880 * 2880) return fail("extra data behind the image");
  for (long i = 0; i < n; i++) { unsigned char b[8]; for (size_t q = 0; q < w; q++) b[w - 1 - q] = f[at + i * w + q]; if (p.bitpix == -32) { float x; memcpy(&x, b, 4); p.px.push_back(x); } else if (p.bitpix == -64) { double x; memcpy(&x, b, 8); p.px.push_back(x); } else return fail("not a floating-point image"); }
  p.ok = true; return p;
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
static string base() { return mc::scratch(); }
static vector<string> listing() { vector<string> v; DIR* d = opendir(base().c_str()); struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); return v; }
static double* rd(const string& fn, int& nc, int& nr) { mc::phase("ReadImageAsVector"); mc::count("transitions"); double* p = ReadImageAsVector(fn, &nc, &nr); mc::phase(""); return p; }
static int wr(double* p, const string& fn, int nc, int nr, const vector<string>& c) { mc::phase("SaveVectorAsImage"); mc::count("transitions"); int r = SaveVectorAsImage(p, fn, nc, nr, c); mc::phase(""); return r; }
static const vector<double>& VALS() { static const vector<double> V = {0.0, 1.5, -2.25, 1e30, -0.0, 1e-40, INFINITY, NAN, 3.14159265358979, 16777217.0, -INFINITY, 3.4028234e38, 1e-50, 123456789.123}; return V; }

static void checkSaved(const string& fn, const vector<double>& px, int nc, int nr, const vector<string>& com, const char* what) {
  string f = slurp(fn); Parsed p = parseFits(f);
  MC_CHECK(p.ok, "saved-file", "%s: %d x %d image: the file written is not a FITS image (%s, %d bytes)", what, nc, nr, p.why.c_str(), (int)f.size());
  MC_CHECK(p.ax.size() == 2 && p.ax[0] == nc && p.ax[1] == nr, "saved-size", "%s: %d x %d image is %ld x %ld in the file", what, nc, nr, p.ax.size() > 0 ? p.ax[0] : -1, p.ax.size() > 1 ? p.ax[1] : -1);
  for (size_t i = 0; i < px.size(); i++) MC_CHECK(same(p.px[i], (double)(float)px[i]), "saved-pixels", "%s: %d x %d image: pixel %d is %.9g in the file, should be %.9g", what, nc, nr, (int)i, p.px[i], px[i]);
  size_t q = 0; for (auto& c : com) { for (size_t a = 0; a < std::max<size_t>(c.size(), 1) && q <= p.comments.size(); a += 72) q++; }
  string all, want; for (auto& c : p.comments) all += c + "\n"; size_t pos = 0;
  for (auto& c : com) { string head = c.substr(0, 72); head.erase(head.find_last_not_of(' ') + 1); size_t k = all.find(head, pos); MC_CHECK(k != string::npos, "saved-comments", "%s: comment '%s' is not in the header", what, c.c_str()); pos = k + head.size(); }
}
MC_PART(roundtrip) {      // every shape, rotated through every value, over every kind of existing file
  int nc = 1 + mc::choose(mc::tier(6, 9)), nr = 1 + mc::choose(mc::tier(5, 8)); mc::shard(); int off = mc::choose((int)VALS().size()), step = 1 + mc::choose(2); int old = mc::choose(4), ncom = mc::choose(4);
  if (old && (off % 3 || ncom)) { mc::prune(); return; }
  vector<double> px; for (int i = 0; i < nc * nr; i++) px.push_back(VALS()[(off + i * step) % VALS().size()]);
  vector<string> com; for (int i = 0; i < ncom; i++) com.push_back(i == 1 ? "a long comment " + string(90, 'x') : "comment number " + std::to_string(i));
  string fn = base() + "/a.fits"; unlink(fn.c_str());
  if (old == 1) spit(fn, "not a FITS file"); if (old == 2) { Hdu h; h.ax = {60, 60}; h.raw.assign(3600, 7); Hdu e = h; e.ext = true; spit(fn, makeHdu(h, true) + makeHdu(e, false)); } if (old == 3) spit(fn, string(50000, 'z'));
  Capture c2(2); vector<double> keep = px; int st = wr(px.data(), fn, nc, nr, com); c2.done();
  mc::state(mc::Hash()(nc)(nr)(off)(step)(old)(ncom).h);
  MC_CHECK(st == 0, "save-fails", "%d x %d image: SaveVectorAsImage returns %d", nc, nr, st);
  for (size_t i = 0; i < px.size(); i++) MC_CHECK(same(px[i], keep[i]), "input-changed", "SaveVectorAsImage changed the caller's pixel %d", (int)i);
  checkSaved(fn, px, nc, nr, com, "save");
  int c = -1, r = -1; double* g = rd(fn, c, r); MC_CHECK(g != nullptr && c == nc && r == nr, "read-size", "%d x %d image is read as %d x %d", nc, nr, c, r);
  for (int i = 0; i < nc * nr; i++) MC_CHECK(same(g[i], (double)(float)px[i]), "read-pixels", "%d x %d image: pixel %d reads as %.9g, should be %.9g", nc, nr, i, g[i], (double)(float)px[i]);
  fftw_free(g);
  int s3; std::tie(c, r, s3) = GetImageSize(fn); MC_CHECK(s3 == 0 && c == nc && r == nr, "size", "%d x %d image: GetImageSize gives %d x %d, status %d", nc, nr, c, r, s3);
  if (off == 0) { unlink(fn.c_str()); for (int rc = 0; rc < 2; rc++) { int C = rc ? nc : nc + 1, R = nr; wr(px.data(), fn, nc, nr, com); double* q; int s; Capture c3(2); std::tie(q, s) = GetAndCheckImage(fn, "mask", C, R); c3.done(); MC_CHECK(rc ? (q && s == 0) : (!q && s < 0), "dimension-check", "image of %d x %d asked for as %d x %d: status %d", nc, nr, C, R, s); if (q) fftw_free(q); } }
  auto l = listing(); for (auto& e : l) MC_CHECK(e == "a.fits" || e.find(".txt") != string::npos, "stray-file", "file %s was created", e.c_str());
}
static const int BP[] = {8, 16, 32, 64, -32, -64};
MC_PART(formats) {        // reading every pixel format, scaling, extension and dimensionality
  Hdu h; h.bitpix = BP[mc::choose(6)]; static const vector<vector<long>> AX = {{3, 2}, {1, 1}, {5, 1}, {1, 4}, {7, 3}, {4}, {2, 2, 2}, {3, 2, 1}, {}, {0, 3}, {3, 0}};
  h.ax = AX[mc::choose((int)AX.size())]; mc::shard(); int sc = mc::choose(4); if (sc) { h.scaled = true; h.bscale = sc == 1 ? 1 : sc == 2 ? 0.5 : -2; h.bzero = sc == 1 ? 32768 : sc == 2 ? 10 : 3; }
  int where = mc::choose(5), spec = mc::choose(6), off = mc::choose(4);
  long n = h.ax.empty() ? 0 : 1; for (long a : h.ax) n *= a;
  static const vector<double> iv = {0, 1, 100, 200, 255, 7, 42, 128}, sv = {0, -1, 32767, -32768, 5, 1000, -999, 12};
  for (long i = 0; i < n; i++) h.raw.push_back(h.bitpix == 8 ? iv[(i + off) % 8] : h.bitpix > 0 ? sv[(i + off) % 8] : (float)VALS()[(i * 3 + off) % 6] );
  Hdu none; none.bitpix = 8; Hdu other; other.ax = {2, 2}; other.raw = {91, 92, 93, 94}; Hdu tab;
  string f; int nh = 1, at = 0;      // at: index of our HDU
  if (where == 0) { f = makeHdu(h, false); } else if (where == 1) { other.ext = true; f = makeHdu(h, true) + makeHdu(other, false); nh = 2; }
  else if (where == 2) { h.ext = true; f = makeHdu(none, true) + makeHdu(h, false); nh = 2; at = 1; } else if (where == 3) { h.ext = true; f = makeHdu(other, true) + makeHdu(h, false); nh = 2; at = 1; } else { Hdu o2 = other; o2.ext = true; h.ext = true; f = makeHdu(none, true) + makeHdu(o2, true) + makeHdu(h, false); nh = 3; at = 2; }
  string fn = base() + "/f.fits"; unlink(fn.c_str()); spit(fn, f);
  static const char* SP[] = {"", "[0]", "[1]", "[2]", "[3]", "[nonexistent]"}; string name = fn + SP[spec];
  int want = spec == 0 ? 0 : spec <= 4 ? spec - 1 : 99; bool exists = want < nh; bool plain = spec == 0;
  Capture c2(2); int c = -5, r = -5; double* g = rd(name, c, r); int c1, r1, s1; std::tie(c1, r1, s1) = GetImageSize(name); c2.done();
  mc::state(mc::Hash()(h.bitpix)(sc)(where)(spec)(off)(h.ax.size())(n).h);
  bool ours = exists && want == at, isOther = exists && !ours && !(want == 0 && (where == 2 || where == 4));
  // with no extension named the primary unit is meant
  if (ours && !(h.ax.size() == 2 && n > 0)) { if (h.ax.size() == 2) { if (g) fftw_free(g); return; } MC_CHECK(!g && s1 < 0, "accepts-non-2d", "a %d-dimensional image is accepted (%s)", (int)h.ax.size(), name.c_str() + base().size()); return; }
  if (plain && (h.ax.empty() || n == 0)) { if (g) fftw_free(g); return; }
  if (!ours && !isOther) { MC_CHECK(!g && s1 < 0, "accepts-missing", "%s (%d units) is accepted", name.c_str() + base().size(), nh); return; }
  const Hdu& w = ours ? h : other;
  MC_CHECK(g && c == w.ax[0] && r == w.ax[1], "read-size", "BITPIX %d, %ld x %ld in unit %d of %d, '%s': read as %d x %d", w.bitpix, w.ax[0], w.ax[1], want, nh, SP[spec], c, r);
  MC_CHECK(s1 == 0 && c1 == c && r1 == r, "size", "GetImageSize gives %d x %d (status %d) for a %d x %d image", c1, r1, s1, c, r);
  for (size_t i = 0; i < w.raw.size(); i++) { double v = w.raw[i]; if (w.scaled) v = w.bzero + w.bscale * v; MC_CHECK(same(g[i], v) || (v == 0 && g[i] == 0), "read-pixels", "BITPIX %d BSCALE %g BZERO %g: pixel %d reads as %.17g, should be %.17g", w.bitpix, w.bscale, w.bzero, (int)i, g[i], v); }
  fftw_free(g);
}
static vector<double> ramp(int n) { vector<double> v; for (int i = 0; i < n; i++) v.push_back(1 + i * 0.5); return v; }
MC_PART(truncated) {      // a file cut at every byte (quick: every byte of the header's last block and the data, coarser before)
  int big = mc::choose(2); int nc = big ? 40 : 5, nr = big ? 30 : 4; Hdu h; h.bitpix = big ? -32 : -64; h.ax = {nc, nr}; h.raw = ramp(nc * nr);
  string f = makeHdu(h, false); size_t dataEnd = 2880 + (size_t)nc * nr * (big ? 4 : 8);
  int k = mc::choose(mc::thorough() ? (int)f.size() : big ? 300 : 700); size_t cut = mc::thorough() ? k : big ? (size_t)(k * f.size() / 300) : k < 300 ? (size_t)k * 2880 / 300 : 2880 + (k - 300); if (k % 16 == 0) mc::shard();
  if (cut >= f.size()) { mc::prune(); return; }
  string fn = base() + "/t.fits"; unlink(fn.c_str()); spit(fn, f.substr(0, cut)); mc::state(mc::Hash()(big)(cut).h);
  Capture c2(2); int c = -5, r = -5; Arm a(-1, 0); double* g = rd(fn, c, r); armed = false; long left = g_open; c2.done();
  MC_CHECK(left == 0, "leak", "file cut after %d bytes: %ld file(s) left open", (int)cut, left);
  if (cut < dataEnd) { MC_CHECK(g == nullptr, "accepts-truncated", "a %d x %d image cut after %d of %d bytes (data end at %d) is read as %d x %d", nc, nr, (int)cut, (int)f.size(), (int)dataEnd, c, r); }
  if (g) { MC_CHECK(c == nc && r == nr, "read-size", "cut file read as %d x %d", c, r); for (int i = 0; i < nc * nr; i++) MC_CHECK(g[i] == h.raw[i], "read-pixels", "cut file: pixel %d wrong", i); fftw_free(g); }
}
MC_PART(garbled) {        // every header byte replaced by several characters: no crash, nothing left open
  Hdu h; h.bitpix = 16; h.ax = {5, 4}; h.raw = ramp(20); for (auto& v : h.raw) v = floor(v); string f = makeHdu(h, false);
  int b = mc::choose(6 * 80), ch = mc::choose(mc::tier(5, 9)); if (ch == 0 && b % 8 == 0) mc::shard(); static const char CH[] = {' ', '9', '\0', '-', 'T', '=', 'A', '/', '\377'}; if (f[b] == CH[ch]) { mc::prune(); return; }
  f[b] = CH[ch]; string fn = base() + "/g.fits"; unlink(fn.c_str()); spit(fn, f); mc::state(mc::Hash()(b)(ch).h);
  Capture c2(2); int c = -5, r = -5; Arm a(-1, 0); double* g = rd(fn, c, r); int c1, r1, s1; std::tie(c1, r1, s1) = GetImageSize(fn); armed = false; long left = g_open; c2.done();
  MC_CHECK(left == 0, "leak", "header byte %d = '%c': %ld file(s) left open", b, CH[ch], left);
  if (g) { MC_CHECK(c > 0 && r > 0, "read-size", "header byte %d = '%c': read as %d x %d", b, CH[ch], c, r); fftw_free(g); }
  if (s1 == 0 && b >= 160) MC_CHECK(c1 >= 0 && r1 >= 0, "size", "header byte %d = '%c': size %d x %d", b, CH[ch], c1, r1);
}
MC_PART(writefaults) {    // a fault at every file operation of saving
  static const int SH[][2] = {{5, 4}, {30, 30}, {190, 170}}; int sh = mc::choose(mc::tier(3, 3)), mode = mc::choose(4), old = mc::choose(3); int k = mc::choose(mc::tier(90, 140)); if (k % 4 == 0) mc::shard();
  int nc = SH[sh][0], nr = SH[sh][1]; vector<double> px = ramp(nc * nr); vector<string> com = {"c1", "c2"}; string fn = base() + "/w.fits"; unlink(fn.c_str());
  if (old) spit(fn, old == 1 ? string("old contents") : string(40000, 'q'));
  Capture c2(2); int st; { Arm a(k, mode); st = wr(px.data(), fn, nc, nr, com); } long n = ops(), left = g_open; c2.done();
  if (k >= n) { mc::prune(); return; }
  mc::state(mc::Hash()(sh)(mode)(old)(k).h); mc::count("faults");
  char w[120]; snprintf(w, sizeof w, "saving %d x %d, %s fails at operation %d of %ld", nc, nr, g_last, k, n);
  MC_CHECK(left == 0, "leak", "%s: %ld file(s) left open (status %d)", w, left, st);
  if (st == 0) checkSaved(fn, px, nc, nr, com, w);
}
static vector<string> longComments(int n) { vector<string> v; for (int i = 0; i < n; i++) v.push_back("comment " + std::to_string(i)); return v; }
MC_PART(diskfull) {       // a file-size limit at every byte of the saved file: the writes really fail, with everything stdio and CFITSIO then do
  static const int SH[][3] = {{5, 4, 2}, {20, 20, 1}, {3, 2, 60}, {30, 35, 0}, {1, 1, 0}}; int sh = mc::choose(mc::tier(4, 5)); int nc = SH[sh][0], nr = SH[sh][1]; vector<double> px = ramp(nc * nr); vector<string> com = longComments(SH[sh][2]);
  size_t data = 2880 * (1 + (sh == 2)) + (size_t)nc * nr * 4, full = (data + 2879) / 2880 * 2880; int step = mc::tier(8, 1); if (sh == 2) step *= 4;
  size_t lim = (size_t)mc::choose((int)(full / step) + 1) * step; if (lim / step % 64 == 0) mc::shard();
  string fn = base() + "/l.fits"; unlink(fn.c_str()); mc::state(mc::Hash()(sh)(lim).h); mc::count("faults"); int st;
  signal(SIGXFSZ, SIG_IGN); struct rlimit was; getrlimit(RLIMIT_FSIZE, &was); Capture c2(2);
  { struct rlimit r = was; r.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &r); st = wr(px.data(), fn, nc, nr, com); setrlimit(RLIMIT_FSIZE, &was); }
  c2.done(); char w[120]; snprintf(w, sizeof w, "saving %d x %d, the file may have %d of %d bytes", nc, nr, (int)lim, (int)full);
  if (lim >= full) { MC_CHECK(st == 0, "save-fails", "%s: status %d", w, st); checkSaved(fn, px, nc, nr, com, w); return; }
  if (st != 0) return;
  struct stat sb; long sz = stat(fn.c_str(), &sb) == 0 ? (long)sb.st_size : -1; MC_CHECK(sz >= (long)data, "incomplete-saved", "%s: success is reported, but the file has %ld bytes (its data end at byte %d)", w, sz, (int)data);
}
MC_PART(readfaults) {     // a fault at every file operation of reading
  static const int SH[][2] = {{5, 4}, {30, 30}, {190, 170}}; int sh = mc::choose(3), mode = mc::choose(4), fn_ = mc::choose(4); int k = mc::choose(mc::tier(60, 100)); if (k % 4 == 0) mc::shard();
  int nc = SH[sh][0], nr = SH[sh][1]; Hdu h; h.bitpix = sh == 1 ? -64 : -32; h.ax = {nc, nr}; h.raw = ramp(nc * nr); string fn = base() + "/r.fits"; unlink(fn.c_str()); spit(fn, makeHdu(h, false));
  Capture c2(2), c1(1); int c = -5, r = -5, st = 0; double* g = nullptr; const char* what = "";
  { Arm a(k, mode);
    if (fn_ == 0) { what = "ReadImageAsVector"; g = rd(fn, c, r); st = g ? 0 : -1; } else if (fn_ == 1) { what = "GetImageSize"; std::tie(c, r, st) = GetImageSize(fn); } else if (fn_ == 2) { what = "GetPsfImage"; std::tie(g, c, r, st) = GetPsfImage(fn); }
    else { what = "GetAndCheckImage"; std::tie(g, st) = GetAndCheckImage(fn, "data", nc, nr); c = nc; r = nr; } }
  long n = ops(), left = g_open; c1.done(); c2.done();
  if (k >= n) { mc::prune(); return; }
  mc::state(mc::Hash()(sh)(mode)(fn_)(k).h); mc::count("faults");
  MC_CHECK(left == 0, "leak", "%s: %s fails at operation %d of %ld: %ld file(s) left open (status %d)", what, g_last, k, n, left, st);
  if (st == 0) {
    MC_CHECK(c == nc && r == nr, "read-size", "%s: %s fails at operation %d of %ld: %d x %d reported for a %d x %d image", what, g_last, k, n, c, r, nc, nr);
    if (fn_ != 1) { MC_CHECK(g != nullptr, "read-null", "%s: success without data", what); for (int i = 0; i < nc * nr; i++) MC_CHECK(g[i] == h.raw[i], "read-pixels", "%s: %s fails at operation %d of %ld: pixel %d is %g, should be %g, yet success is reported", what, g_last, k, n, i, g[i], h.raw[i]); }
  } else MC_CHECK(g == nullptr, "failure-with-data", "%s: status %d but data returned", what, st);
  if (g) fftw_free(g);
}
MC_PART(missing) {        // missing files, directories, no such directory, no write permission to a directory path
  static const vector<string> N = {"/nosuch.fits", "/", "", "/nodir/x.fits", "/empty.fits", "/text.fits", "/nosuch.fits[1]", "/dirfits"};
  int i = mc::choose((int)N.size()); string fn = base() + N[i]; spit(base() + "/empty.fits", ""); spit(base() + "/text.fits", "hello, world\n"); mkdir((base() + "/dirfits").c_str(), 0700); spit(base() + "/dirfits/keep", "x"); mc::state(i);
  int c = -5, r = -5; Capture c2(2), c1(1); double* g = rd(fn, c, r); int a, b, s; std::tie(a, b, s) = GetImageSize(fn); double* q; int s2; std::tie(q, s2) = GetAndCheckImage(fn, "data", 0, 0); double* q3; int a3, b3, s3; std::tie(q3, a3, b3, s3) = GetPsfImage(fn);
  double px[4] = {1, 2, 3, 4}; int sw = (i == 3 || i == 7) ? wr(px, fn, 2, 2, {}) : -1; int sn = SaveVectorAsImage(nullptr, base() + "/n.fits", 2, 2, {}); c2.done(); c1.done();
  MC_CHECK(!g && s < 0 && !q && s2 < 0 && !q3 && s3 < 0, "accepts-missing", "'%s' is accepted as an image", N[i].c_str());
  MC_CHECK(sw != 0, "save-impossible", "saving to '%s' reports success", N[i].c_str()); MC_CHECK(sn != 0, "save-null", "saving no image reports success");
  unlink((base() + "/dirfits/keep").c_str()); rmdir((base() + "/dirfits").c_str());
}
MC_PART(masks) {          // mask and noise images together: every combination of good, missing and wrong-sized files
  auto mk = [&](const string& fn, int nc, int nr, double v) { Hdu h; h.ax = {nc, nr}; h.raw.assign(nc * nr, v); spit(fn, makeHdu(h, false)); };
  string A[4] = {"", base() + "/m.fits", base() + "/missing.fits", base() + "/wrong.fits"}, B[4] = {"", base() + "/e.fits", base() + "/missing.fits", base() + "/wrong.fits"}; mk(A[1], 4, 3, 1); mk(B[1], 4, 3, 2); mk(A[3], 3, 4, 1);
  int i = mc::choose(4), j = mc::choose(4); mc::state(i * 4 + j); bool ma = false, ea = false; double *m, *e; int st; Capture c1(1), c2(2); mc::count("transitions"); std::tie(m, e, st) = GetMaskAndErrorImages(4, 3, A[i], B[j], ma, ea); c1.done(); c2.done();
  if (i > 1 || j > 1) MC_CHECK(!m && !e && !ma && !ea, "mask-leak", "status %d but an image is returned", st);
  if (i > 1 || j > 1) MC_CHECK(st < 0, "mask-error", "a %s mask / %s noise image is accepted (status %d)", i == 2 ? "missing" : i == 3 ? "wrong-sized" : "good", j == 2 ? "missing" : j == 3 ? "wrong-sized" : "good", st);
  else {
    MC_CHECK(st == (i ? 1 : 0) + (j ? 2 : 0) && ma == (i == 1) && ea == (j == 1) && (m != nullptr) == (i == 1) && (e != nullptr) == (j == 1), "mask-status", "status %d, allocated %d %d", st, (int)ma, (int)ea);
    if (m) for (int k = 0; k < 12; k++) MC_CHECK(m[k] == 1, "mask-pixels", "mask pixel %d = %g", k, m[k]);
    if (e) for (int k = 0; k < 12; k++) MC_CHECK(e[k] == 2, "mask-pixels", "noise pixel %d = %g", k, e[k]);
  }
  if (m && st >= 0) fftw_free(m); if (e && st >= 0) fftw_free(e);
}
