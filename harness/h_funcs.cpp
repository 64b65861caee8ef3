// P22: what every image function computes.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include <memory>
#include <string>
#include <vector>
#include "funclist.h"
using std::string; using std::vector;
typedef vector<double> V;
static const double D2R = M_PI / 180;
struct Geo { double X, Y; };                       // component frame: X along the major axis
static Geo frame(double PA, double dx, double dy) { double a = (PA + 90) * D2R; return {dx * cos(a) + dy * sin(a), -dx * sin(a) + dy * cos(a)}; }
static double ellr(double PA, double ell, double dx, double dy, double c0 = 0) { Geo g = frame(PA, dx, dy); double a = fabs(g.X), b = fabs(g.Y) / (1 - ell); return c0 == 0 ? sqrt(a * a + b * b) : pow(pow(a, c0 + 2) + pow(b, c0 + 2), 1 / (c0 + 2)); }
static double bn(double n) { if (n > 0.36) return 2 * n - 1 / 3.0 + 4 / (405 * n) + 46 / (25515 * n * n) + 131 / (1148175 * pow(n, 3)) - 2194697 / (30690717750.0 * pow(n, 4)); return 0.01945 - 0.8902 * n + 10.95 * n * n - 19.67 * pow(n, 3) + 13.43 * pow(n, 4); }
static double brk(double r, double h1, double h2, double rb, double al) { double e = (1 / al) * (1 / h1 - 1 / h2), S = pow(1 + exp(-al * rb), -e), t = al * (r - rb); if (t > 100) return S * exp(rb / h2 - rb / h1 - r / h2); return S * exp(-r / h1) * pow(1 + exp(t), e); }
static double vert(double z, double n, double z0) { double al = 2 / n, u = fabs(z) / (al * z0); return u > 100 ? pow(2, al) * exp(-fabs(z) / z0) : pow(1 / cosh(u), al); }
static double bessK1(double x) { double s = 0; int N = 4000; double T = asinh(760 / x) + 1e-9; for (int i = 0; i <= N; i++) { double t = T * i / N; s += (i == 0 || i == N ? 0.5 : 1) * exp(-x * cosh(t)) * cosh(t); } return s * T / N; }
// line-of-sight integral of a density given in the component's own frame (line of nodes = X axis)
template <class Fd> static double los(double PA, double inc, double dx, double dy, double L, Fd den, double pw = 0.7) {
  static const double gx[8] = {-0.9602898564975363, -0.7966664774136267, -0.5255324099163290, -0.1834346424956498, 0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, gw[8] = {0.1012285362903763, 0.2223810344533745, 0.3137066458778873, 0.3626837833783620, 0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
  Geo g = frame(PA, dx, dy); double ci = cos(inc * D2R), si = sin(inc * D2R), y0 = g.Y * ci, z0 = g.Y * si; double sz = fabs(ci) > 1e-12 ? z0 / ci : 0, sy = fabs(si) > 1e-12 ? -y0 / si : 0; V cut = {-L, L}; for (double c : {sz, sy}) for (double k : {0.0, 0.02, -0.02, 0.1, -0.1, 0.5, -0.5}) { double s = c + k * 10; if (s > -L && s < L) cut.push_back(s); } std::sort(cut.begin(), cut.end());
  double t = 0; for (size_t c = 0; c + 1 < cut.size(); c++) { double w = cut[c + 1] - cut[c]; int N = std::max(12, (int)(w / pw)); for (int i = 0; i < N; i++) { double m = cut[c] + w * (i + 0.5) / N, h = w / N / 2; for (int k = 0; k < 8; k++) { double s = m + h * gx[k]; t += gw[k] * h * den(g.X, y0 + s * si, z0 - s * ci); } } }
  return t;
}
struct Par { char role; V vals; };                  // p position angle, a plain, I intensity, s size, i inverse size
struct FD { const char* name; vector<Par> par; std::function<double(const V&, double, double)> ref; int sub; int scale; double rThr; double tol; };
// sub: 0 none, 2 / 4 = factor of the central subsampling rule, 9 edge-on disc rule; scale = index of the scale parameter (-1: Moffat alpha)
static const Par PA_{'p', {0, 30, 135, -70}}, ELL{'a', {0, 0.35, 0.8}}, I0{'I', {1, 250.5, -3}};
static Par s_(V v) { return {'s', v}; } static Par a_(V v) { return {'a', v}; }
static double king(double r, double rc, double rt, double al) { if (r >= rt) return 0; double c = 1 / pow(1 + rt * rt / rc / rc, 1 / al); return pow(1 - c, -al) * pow(1 / pow(1 + r * r / rc / rc, 1 / al) - c, al); }
static double sersic(double r, double n, double re) { return exp(-bn(n) * (pow(r / re, 1 / n) - 1)); }
static const vector<FD>& table() {
  static vector<FD> t = {
    {"Exponential", {PA_, ELL, I0, s_({0.6, 4, 22})}, [](const V& p, double x, double y) { return p[2] * exp(-ellr(p[0], p[1], x, y) / p[3]); }, 2, 3, 3, 1e-9},
    {"Sersic", {PA_, ELL, a_({0.25, 0.5, 1, 3.7}), I0, s_({0.6, 4, 22})}, [](const V& p, double x, double y) { return p[3] * sersic(ellr(p[0], p[1], x, y), p[2], p[4]); }, 2, 4, 4, 1e-9},
    {"Sersic_GenEllipse", {PA_, ELL, a_({0, -0.9, 1.3}), a_({0.25, 0.5, 3.7}), I0, s_({0.6, 4, 22})}, [](const V& p, double x, double y) { return p[4] * sersic(ellr(p[0], p[1], x, y, p[2]), p[3], p[5]); }, 2, 5, 4, 1e-9},
    {"Core-Sersic", {PA_, ELL, a_({1, 4.2}), I0, s_({0.7, 12}), s_({0.5, 3}), a_({2, 20}), a_({0, 0.4})}, [](const V& p, double x, double y) { double r = std::max(ellr(p[0], p[1], x, y), 0.001), b = bn(p[2]), n = p[2], re = p[4], rb = p[5], al = p[6], g = p[7]; return p[3] * pow(2, -g / al) * exp(b * pow(pow(2, 1 / al) * rb / re, 1 / n)) * pow(1 + pow(rb / r, al), g / al) * exp(-b * pow((pow(r, al) + pow(rb, al)) / pow(re, al), 1 / (al * n))); }, 2, 4, 4, 1e-9},
    {"Exponential_GenEllipse", {PA_, ELL, a_({0, -0.9, 1.3}), I0, s_({0.6, 4, 22})}, [](const V& p, double x, double y) { return p[3] * exp(-ellr(p[0], p[1], x, y, p[2]) / p[4]); }, 2, 4, 3, 1e-9},
    {"BrokenExponential", {PA_, ELL, I0, s_({0.8, 12}), s_({3, 25}), s_({2, 20}), {'i', {0.4, 6}}}, [](const V& p, double x, double y) { return p[2] * brk(ellr(p[0], p[1], x, y), p[3], p[4], p[5], p[6]); }, 2, 3, 3, 1e-9},
    {"BrokenExponential2D", {PA_, I0, s_({0.8, 12}), s_({3, 25}), s_({2, 20}), {'i', {0.4, 6}}, s_({0.7, 4})}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); return p[1] * brk(fabs(g.X), p[2], p[3], p[4], p[5]) * exp(-fabs(g.Y) / p[6]); }, 2, 2, -3, 1e-9},
    {"EdgeOnRing", {PA_, I0, s_({2, 15}), s_({0.7, 4}), s_({0.5, 3})}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); double v = 0; for (double c : {p[2], -p[2]}) v += p[1] * exp(-(g.X - c) * (g.X - c) / (2 * p[3] * p[3]) - g.Y * g.Y / (2 * p[4] * p[4])); return v; }, 0, 0, 0, 1e-9},
    {"EdgeOnRing2Side", {PA_, I0, s_({2, 15}), s_({0.7, 4}), s_({1.5, 6}), s_({0.5, 3})}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); double v = 0, z = g.Y * g.Y / (2 * p[5] * p[5]); for (double c : {1.0, -1.0}) { double u = g.X * c, s = u < p[2] ? p[3] : p[4]; v += p[1] * exp(-(u - p[2]) * (u - p[2]) / (2 * s * s) - z); } return v; }, 0, 0, 0, 1e-9},
    {"FlatBar", {PA_, ELL, a_({4, 30}), I0, s_({0.8, 25}), s_({3, 9}), s_({2, 20}), {'i', {0.4, 6}}}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); double r = ellr(p[0], p[1], x, y), rc = sqrt(x * x + y * y), mx = p[2] * D2R, h1 = p[4], h2 = p[5], rb = p[6]; if (rc > 0) { rb *= r / rc; double d = fabs(atan2(fabs(g.Y), fabs(g.X))); h2 = d > mx ? h1 : h2 + (h1 - h2) * (d / mx) * (d / mx); } return p[3] * brk(r, h1, h2, rb, p[7]); }, 2, 4, 3, 1e-8},
    {"GaussianRing", {PA_, ELL, I0, s_({2, 15}), s_({0.7, 4})}, [](const V& p, double x, double y) { double d = ellr(p[0], p[1], x, y) - p[3]; return p[2] * exp(-d * d / (2 * p[4] * p[4])); }, 0, 0, 0, 1e-9},
    {"GaussianRing2Side", {PA_, ELL, I0, s_({2, 15}), s_({0.7, 4}), s_({1.5, 6})}, [](const V& p, double x, double y) { double d = ellr(p[0], p[1], x, y) - p[3], s = d < 0 ? p[4] : p[5]; return p[2] * exp(-d * d / (2 * s * s)); }, 0, 0, 0, 1e-9},
    {"GaussianRingAz", {PA_, ELL, I0, a_({0, 0.4, 1.6}), s_({2, 15}), s_({0.7, 4})}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); double d = ellr(p[0], p[1], x, y) - p[4], A = p[2], B = p[3] * A, th = x == 0 && y == 0 ? (p[0] + 90) * D2R : atan2(g.Y, g.X); return (0.5 * (A + B) + 0.5 * (A - B) * cos(2 * th)) * exp(-d * d / (2 * p[5] * p[5])); }, 0, 0, 0, 1e-9},
    {"Gaussian", {PA_, ELL, I0, s_({0.6, 4, 22})}, [](const V& p, double x, double y) { double r = ellr(p[0], p[1], x, y); return p[2] * exp(-r * r / (2 * p[3] * p[3])); }, 4, 3, 3, 1e-9},
    {"Moffat", {PA_, ELL, I0, s_({0.6, 4, 22}), a_({1.2, 4.765})}, [](const V& p, double x, double y) { double r = ellr(p[0], p[1], x, y), al = p[3] / (2 * sqrt(pow(2, 1 / p[4]) - 1)); return p[2] * pow(1 + r * r / al / al, -p[4]); }, 4, -1, 3, 1e-9},
    {"ModifiedKing", {PA_, ELL, I0, s_({0.6, 5}), s_({9, 40}), a_({1, 2, 3.3})}, [](const V& p, double x, double y) { return p[2] * king(ellr(p[0], p[1], x, y), p[3], p[4], p[5]); }, 2, 3, 3, 1e-8},
    {"ModifiedKing2", {PA_, ELL, I0, s_({0.6, 5}), a_({3, 12}), a_({1, 2, 3.3})}, [](const V& p, double x, double y) { return p[2] * king(ellr(p[0], p[1], x, y), p[3], p[4] * p[3], p[5]); }, 2, 3, 3, 1e-8},
    {"FerrersBar2D", {PA_, ELL, a_({0, -0.9, 1.3}), a_({1, 2.5}), I0, s_({0.9, 6, 30})}, [](const V& p, double x, double y) { double r = ellr(p[0], p[1], x, y, p[2]), m = r * r / p[5] / p[5]; return m > 1 ? 0.0 : p[4] * pow(1 - m, p[3]); }, 2, 5, 4, 1e-8},
    {"FlatSky", {I0}, [](const V& p, double, double) { return p[0]; }, 0, 0, 0, 1e-12},
    {"TiltedSkyPlane", {I0, a_({0, 0.25, -2}), a_({0, -0.5, 3})}, [](const V& p, double x, double y) { return p[0] + p[1] * x + p[2] * y; }, 0, 0, 0, 1e-9},
    {"EdgeOnDisk", {PA_, I0, s_({0.7, 6}), a_({0.3, 1, 2, 50}), s_({0.8, 3})}, [](const V& p, double x, double y) { Geo g = frame(p[0], x, y); double u = fabs(g.X) / p[2]; return 2 * p[2] * p[1] * (u == 0 ? 1 : u * bessK1(u)) * vert(g.Y, p[3], p[4]); }, 9, 2, 4, 1e-7},
    {"ExponentialDisk3D", {PA_, a_({0, 50, 90}), I0, s_({1.5, 6}), a_({1, 2, 50}), s_({0.6, 2})}, [](const V& p, double x, double y) { return los(p[0], p[1], x, y, 25 * p[3], [&](double X, double Y, double Z) { return p[2] * exp(-sqrt(X * X + Y * Y) / p[3]) * vert(Z, p[4], p[5]); }); }, 0, 0, 0, 2e-4},
    {"BrokenExponentialDisk3D", {PA_, a_({0, 50, 90}), I0, s_({5}), s_({2, 9}), s_({6}), {'i', {0.5, 3}}, a_({1, 50}), s_({0.8})}, [](const V& p, double x, double y) { return los(p[0], p[1], x, y, 25 * std::max(p[4], p[5]), [&](double X, double Y, double Z) { return p[2] * brk(sqrt(X * X + Y * Y), p[3], p[4], p[5], p[6]) * vert(Z, p[7], p[8]); }); }, 0, 0, 0, 2e-4},
    {"GaussianRing3D", {PA_, a_({0, 50, 90}), a_({0, 25, 120}), a_({0, 0.4}), I0, s_({12}), s_({1.1, 2}), s_({0.7})}, [](const V& p, double x, double y) { double a = (p[2] + 90) * D2R; return los(p[0], p[1], x, y, 2 * p[5], [&](double X, double Y, double Z) { double u = X * cos(a) + Y * sin(a), v = (-X * sin(a) + Y * cos(a)) / (1 - p[3]), d = sqrt(u * u + v * v) - p[5]; return p[4] * exp(-d * d / (2 * p[6] * p[6])) * exp(-fabs(Z) / p[7]); }); }, 0, 0, 0, 1e-3},
    {"FerrersBar3D", {PA_, a_({0, 50, 90}), a_({0, 25, 120}), I0, s_({12}), a_({0.4, 0.9}), a_({0.3}), a_({1, 2.5})}, [](const V& p, double x, double y) { double a = (p[2] + 90) * D2R; return los(p[0], p[1], x, y, 1.05 * p[4], [&](double X, double Y, double Z) { double u = X * cos(a) + Y * sin(a), v = -X * sin(a) + Y * cos(a), m = (v * v + u * u / p[5] / p[5] + Z * Z / p[6] / p[6]) / (p[4] * p[4]); return m > 1 ? 0.0 : p[3] * pow(1 - m, p[7]); }, 0.03); }, 0, 0, 0, 2e-4},
    {"DattathriPeanut3D", {PA_, a_({0, 50, 90}), a_({0, 25, 120}), I0, s_({6}), a_({0.4}), a_({0.3}), s_({5}), s_({1.5}), s_({2}), a_({1, 2.2}), a_({2})}, [](const V& p, double x, double y) { double a = p[2] * D2R; return los(p[0], p[1], x, y, 11 * p[4], [&](double X, double Y, double Z) { double u = X * cos(a) + Y * sin(a), v = -X * sin(a) + Y * cos(a), s2 = 2 * p[9] * p[9], z0 = p[8] * (exp(-((u - p[7]) * (u - p[7]) + v * v) / s2) + exp(-((u + p[7]) * (u + p[7]) + v * v) / s2)) + p[6] * p[4]; double R = pow(pow(pow(fabs(u) / p[4], p[11]) + pow(fabs(v) / (p[5] * p[4]), p[11]), p[10] / p[11]) + pow(fabs(Z) / z0, p[10]), 1 / p[10]); return p[3] / (cosh(R) * cosh(R)); }); }, 0, 0, 0, 1e-3},
  };
  return t;
}
static bool is3d(const FD& f) { string s = f.name; return s.find("3D") != string::npos; }
static V pickParams(const FD& f, bool few = false) { V p; for (size_t i = 0; i < f.par.size(); i++) { const V& v = f.par[i].vals; int n = (int)v.size(); if (few || !mc::thorough()) { if (f.par[i].role == 'p' && n > 2 && f.par.size() > 4) n = 2; if (f.par[i].role == 'I' && f.par.size() > 3) n = 1; if (few && n > 2) n = 2; } if (is3d(f) && !mc::thorough() && n > 2 && i != 1) n = 2; p.push_back(v[n == 1 && v.size() > 1 ? 1 : n == 2 && v.size() > 2 ? 1 + mc::choose(2) : mc::choose(n)]); if (i == 1) mc::shard(); } mc::shard(); return p; }
static string show(const V& p) { string s; char b[40]; for (double v : p) { snprintf(b, sizeof b, " %g", v); s += b; } return s; }
static int rule(const FD& f, const V& p, double dx, double dy, bool& edge) {
  const int SR = 10; edge = false; if (f.sub == 0) return 1;
  if (f.sub == 9) { Geo g = frame(p[0], dx, dy); double R = fabs(g.X), z = fabs(g.Y), h = p[2], z0 = p[4]; for (double t : {1.0, 3.0, 10.0}) edge |= fabs(R - t) < 1e-6 || fabs(z - t) < 1e-6; if (!(R < 10 || z < 10)) return 1; if ((h <= 1 && R <= 1) || (z0 <= 1 && z <= 1)) return std::max(std::min(100, (int)(2 * SR / h)), std::min(100, (int)(2 * SR / z0))); if (R <= 3 || z <= 3) return 2 * SR; return std::max(std::min(100, (int)(2 * SR / R)), std::min(100, (int)(2 * SR / z))); }
  double c0 = 0; string n = f.name; if (n.find("GenEllipse") != string::npos || n == "FerrersBar2D") c0 = p[2]; double r; if (f.rThr < 0) { r = sqrt(dx * dx + dy * dy); } else r = ellr(p[0], p[1], dx, dy, c0);
  double sc = f.scale >= 0 ? p[f.scale] : p[3] / (2 * sqrt(pow(2, 1 / p[4]) - 1)), thr = fabs(f.rThr); for (double t : {1.0, thr, 10.0}) edge |= fabs(r - t) < 1e-6; if (sc == 1) edge = true;
  if (r >= 10) return 1; if (sc <= 1 && r <= 1) return std::min(100, (int)(f.sub * SR / sc)); if (r <= thr) return 2 * SR; double q = 2 * SR / r; edge |= fabs(q - floor(q + 0.5)) < 1e-6; return std::min(100, (int)q);
}
static const V& lattice(int k) { static const V a = {-61.5, -9.25, -3.4, -0.9, 0, 0.6, 2.3, 7.5, 17.25}, b = {-8.6, -3.2, -0.7, 0, 0.35, 1.6, 5.5}, c = {-14.5, -5.25, 0, 1.3, 8.5}, d = {-11.3, -2.2, 0.4, 6.1}; return k == 0 ? a : k == 1 ? b : k == 2 ? c : d; }
static void check(const FD& f, const V& p, const V& pref, FunctionObject* o, double x0, double y0, bool sub, const V& L, const string& key) {
  double sc = 0; for (size_t i = 0; i < p.size(); i++) if (f.par[i].role == 'I') sc = std::max(sc, fabs(pref[i]));
  for (double dy : L) for (double dx : L) {
    bool edge = false; int n = sub ? rule(f, pref, dx, dy, edge) : 1; if (edge) continue; double w = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) w += f.ref(pref, dx - 0.5 + (i + 0.5) / n, dy - 0.5 + (j + 0.5) / n); w /= (double)n * n;
    double g = o->GetValue(x0 + dx, y0 + dy); mc::count("transitions");
    MC_CHECK(std::isfinite(g) || !std::isfinite(w), key + ":finite:" + f.name, "%s with parameters%s: value %g at offset (%g,%g)", f.name, show(p).c_str(), g, dx, dy);
    if (g == 0 && fabs(w) < 0.02 * sc && string(f.name) == "FerrersBar3D") continue;   // the adaptive integration can miss a line of sight that only grazes the sharp edge
    MC_CHECK(mc::close(g, w, f.tol, 1e-13 * sc + (is3d(f) ? 1e-6 * sc : 0)), key + ":" + f.name, "%s with parameters%s: value %.12g instead of %.12g at offset (%g,%g) (%s subsampling%s)", f.name, show(p).c_str(), g, w, dx, dy, sub ? "with" : "no", sub ? (", " + std::to_string(n) + " per side").c_str() : "");
  }
}
// values at single points
MC_PART(formula) {
  int k = mc::choose((int)table().size()); const FD& f = table()[k]; V p = pickParams(f); std::unique_ptr<FunctionObject> o(makeFunction(f.name)); MC_CHECK(o.get() != nullptr, "missing", "no function %s", f.name); o->SetSubsampling(false); V q = {7, 8, 9}; int off = mc::choose(2) ? 3 : 0; q.resize(off); q.insert(q.end(), p.begin(), p.end()); q.push_back(1e9);
  double x0 = off ? 10.3 : 5, y0 = off ? 7.6 : 5; V before = q; o->Setup(q.data(), off, x0, y0); MC_CHECK(q == before, "params-changed", "%s changed its parameters", f.name); check(f, p, p, o.get(), x0, y0, false, lattice(is3d(f) ? 2 : string(f.name) == "EdgeOnDisk" ? 1 : 0), "formula"); mc::state((mc::Hash()(k)(p)(off)).h);
}
// averages over pixels
MC_PART(subsampling) {
  static vector<int> with; if (with.empty()) for (size_t i = 0; i < table().size(); i++) if (table()[i].sub) with.push_back((int)i); int k = mc::pick(with); const FD& f = table()[k]; if (f.sub == 9 && !mc::thorough()) { } V p = pickParams(f, true); std::unique_ptr<FunctionObject> o(makeFunction(f.name)); if (mc::flip()) o->SetSubsampling(true); o->Setup(p.data(), 0, 4.25, -2.5); check(f, p, p, o.get(), 4.25, -2.5, true, f.sub == 9 ? V{-11.3, 0.4} : lattice(3), "subsampling"); mc::state((mc::Hash()(k)(p)).h);
}
// functions without subsampling do not change when it is asked for
MC_PART(nosubsampling) {
  int k = mc::choose((int)table().size()); const FD& f = table()[k]; if (f.sub) mc::prune(); V p = pickParams(f, true); std::unique_ptr<FunctionObject> o(makeFunction(f.name)); o->SetSubsampling(true); o->Setup(p.data(), 0, 4.25, -2.5); check(f, p, p, o.get(), 4.25, -2.5, true, {-3.3, 0.4, 9.2}, "nosubsampling"); mc::state((mc::Hash()(k)(p)).h);
}
// image-description parameters: sizes in units of the image's pixels, angles relative to its rotation, intensities on its scale
MC_PART(imageparams) {
  int k = mc::choose((int)table().size() + 2); mc::shard(); double ps = (const double[]){1, 0.5, 2.5}[mc::choose(3)], rot = (const double[]){0, 30, -100}[mc::choose(3)], in = (const double[]){1, 0.2, 7}[mc::choose(3)];
  if (k >= (int)table().size()) { bool r = k > (int)table().size(); std::unique_ptr<FunctionObject> o(makeFunction(r ? "PointSourceRot" : "PointSource")); V p = r ? V{20, 3.5} : V{3.5}, w = p, g(4, -9); if (r) w[0] -= rot; w.back() *= in; o->SetImageParameters(ps, rot, in); o->AdjustParametersForImage(p.data(), g.data(), 0); for (size_t i = 0; i < w.size(); i++) MC_CHECK(mc::close(g[i], w[i]), "adjust:PointSource", "parameter %zu adjusted to %g instead of %g", i, g[i], w[i]); mc::state((mc::Hash()(k)(ps)(rot)(in)).h); return; }
  const FD& f = table()[k]; V p; for (auto& a : f.par) p.push_back(a.vals[a.vals.size() > 1 ? 1 : 0]); V w = p; for (size_t i = 0; i < p.size(); i++) switch (f.par[i].role) { case 'p': w[i] -= rot; break; case 'I': w[i] *= in; break; case 's': w[i] /= ps; break; case 'i': w[i] *= ps; break; }
  int off = mc::choose(2) * 2, sub = mc::choose(2), hist = mc::choose(3); std::unique_ptr<FunctionObject> o(makeFunction(f.name)); V q(off, 3.0), g(off + p.size() + 1, -9.0); q.insert(q.end(), p.begin(), p.end());
  if (hist == 1) { o->SetImageParameters(3, 77, 5); o->Setup(q.data(), off, 1, 1); o->GetValue(2, 3); } if (hist == 2) { o->SetImageParameters(ps, rot, in); o->Setup(q.data(), off, 9, 9); }
  o->SetSubsampling(sub); o->SetImageParameters(ps, rot, in); o->AdjustParametersForImage(q.data(), g.data(), off);
  for (size_t i = 0; i < w.size(); i++) MC_CHECK(mc::close(g[off + i], w[i], 1e-12), string("adjust:") + f.name, "%s: parameter %zu adjusted from %g to %g instead of %g (pixel scale %g, rotation %g, intensity scale %g)", f.name, i, p[i], g[off + i], w[i], ps, rot, in);
  MC_CHECK(g[off + w.size()] == -9 && (!off || g[0] == -9), "adjust-overrun", "%s: adjusted parameters written elsewhere", f.name);
  o->Setup(q.data(), off, 4.25, -2.5); std::unique_ptr<FunctionObject> r(makeFunction(f.name)); r->SetSubsampling(sub); r->Setup(w.data(), 0, 4.25, -2.5);
  for (double dy : {-3.3, 0.0, 2.1}) for (double dx : {-5.2, 0.0, 0.7}) { double a = o->GetValue(4.25 + dx, -2.5 + dy), b = r->GetValue(4.25 + dx, -2.5 + dy); mc::count("transitions"); MC_CHECK(mc::close(a, b, 1e-9, 1e-300), string("imageparams:") + f.name, "%s with parameters%s in an image with pixel scale %g, rotation %g, intensity scale %g: value %.12g instead of %.12g at offset (%g,%g)", f.name, show(p).c_str(), ps, rot, in, a, b, dx, dy); }
  mc::state((mc::Hash()(k)(ps)(rot)(in)(off)(sub)(hist)).h);
}
// a value depends on nothing but the last Setup of the same object
MC_PART(history) {
  int k = mc::choose((int)table().size()); const FD& f = table()[k]; V A, B; for (auto& a : f.par) { A.push_back(a.vals[a.vals.size() > 1 ? 1 : 0]); B.push_back(a.vals.back()); } B[0] = f.par[0].role == 'p' ? 77 : 2.5; mc::shard();
  static const double X[] = {5.5, 2, 12}; std::unique_ptr<FunctionObject> o(makeFunction(f.name)), o2(makeFunction(f.name)), fa(makeFunction(f.name)), fb(makeFunction(f.name)); fa->Setup(A.data(), 0, 3, 4); fb->Setup(B.data(), 0, 6, 2); int cur = 0, n = mc::tier(4, 5); o->Setup(A.data(), 0, 3, 4); string tr; vector<int> ops;
  for (int i = 0; i < n; i++) { int op = mc::choose(5); ops.push_back(op); if (op == 0) { o->Setup(A.data(), 0, 3, 4); cur = 0; } else if (op == 1) { o->Setup(B.data(), 0, 6, 2); cur = 1; } else if (op == 2) { o2->Setup(B.data(), 0, -3, 9); o2->GetValue(1, 1); } else { double x = X[op - 3], y = X[2 - (op - 3)]; double g = o->GetValue(x, y), w = (cur ? fb : fa)->GetValue(x, y); mc::count("transitions"); MC_CHECK(g == w || (std::isnan(g) && std::isnan(w)), string("history:") + f.name, "%s: value %.17g instead of %.17g after a history of calls", f.name, g, w); } }
  mc::state((mc::Hash()(k)(ops)).h);
}
// ... also when consecutive Setups share some of their parameters: every subset of parameters changes (every one, two or all but one, two for long lists)
MC_PART(setups) {
  int k = mc::choose((int)table().size()); const FD& f = table()[k]; int n = (int)f.par.size(); V A, B; bool low = mc::flip(); mc::shard(); bool big = n > 6 || is3d(f);
  for (auto& a : f.par) { double v = a.vals[!low && a.vals.size() > 1 ? 1 : 0], w = a.vals.back(); if (w == v) w = a.vals[0]; if (w == v) w = v == 0 ? 0.25 : v * 1.25; A.push_back(v); B.push_back(w); }
  vector<int> masks; for (int m = 0; m < 1 << n; m++) { int c = __builtin_popcount(m); if (!big || c <= (is3d(f) && !mc::thorough() ? 1 : 2) || c >= n - 2) masks.push_back(m); }
  int m = mc::pick(masks), other = mc::choose(2); std::unique_ptr<FunctionObject> o(makeFunction(f.name)), o2(makeFunction(f.name)); o->SetSubsampling(false); o2->SetSubsampling(false); V M = A; for (int i = 0; i < n; i++) if (m >> i & 1) M[i] = B[i];
  o->Setup(A.data(), 0, 5, 5); o->GetValue(6.5, 4); FunctionObject* u = other ? o2.get() : o.get(); u->Setup(M.data(), 0, 4.25, -2.5); static const V few = {0.4, 2.3}; /* not where a line of sight only grazes a sharp-edged component */ check(f, M, M, u, 4.25, -2.5, false, is3d(f) ? few : lattice(3), "setups"); if (other) check(f, A, A, o.get(), 5, 5, false, few, "setups"); mc::state((mc::Hash()(k)(m)(other)(low)).h);
}
