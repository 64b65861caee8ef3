// P04: image sections and region strings.
#define MC_DEFINE_MAIN
#include "mc.h"
#include <tuple>
#include "fitsio.h"
#include "fftw3.h"
#include "utilities_pub.h"
#include "image_io.h"
#include "psf_oversampling_info.h"
using std::string; using std::vector;

static const int W = 6, H = 5, W1 = 5, H1 = 6;
static string imageFile() {
  static string fn;
  if (fn.empty()) {
    fn = mc::scratch() + "/coord.fits"; fitsfile* f; int st = 0; long n[2] = {W, H}, n1[2] = {W1, H1}, fp[2] = {1, 1};
    fits_create_file(&f, ("!" + fn).c_str(), &st);
    fits_create_img(f, DOUBLE_IMG, 2, n, &st);
    vector<double> v; for (int j = 1; j <= H; j++) for (int i = 1; i <= W; i++) v.push_back(100 * i + j);
    fits_write_pix(f, TDOUBLE, fp, v.size(), v.data(), &st);
    fits_create_img(f, DOUBLE_IMG, 2, n1, &st); v.clear();
    for (int j = 1; j <= H1; j++) for (int i = 1; i <= W1; i++) v.push_back(10000 + 100 * i + j);
    fits_write_pix(f, TDOUBLE, fp, v.size(), v.data(), &st);
    fits_close_file(f, &st);
    if (st) mc::fail("harness", "cannot make test image");
  }
  return fn;
}
static string range(int n, int& a, int& b) {
  int k = mc::choose(1 + n * (n + 1) / 2, "range");
  if (k == 0) { a = 1; b = n; return "*"; }
  k--;
  for (a = 1; a <= n; a++) { int m = n - a + 1; if (k < m) { b = a + k; break; } k -= m; }
  return std::to_string(a) + ":" + std::to_string(b);
}
// every section of a small image, read through the real CFITSIO
MC_PART(fits_sections) {
  string fn = imageFile();
  int deco = 0, ext = mc::choose(3, "ext");  // none, [0], [1]
  int w = ext == 2 ? W1 : W, h = ext == 2 ? H1 : H, a = 1, b = w, c = 1, d = h;
  string spec = ext == 0 ? "" : ext == 1 ? "[0]" : "[1]";
  bool sec = mc::flip("section");
  if (sec) {
    string rx = range(w, a, b), ry = range(h, c, d);
    mc::shard();
    deco = mc::choose(4, "spaces");
    if (deco == 0) spec += "[" + rx + "," + ry + "]";
    if (deco == 1) spec += "[" + rx + ", " + ry + "]";
    if (deco == 2) spec += "[ " + rx + "," + ry + "]";
    if (deco == 3) spec += "[" + rx + " , " + ry + " ]";
  }
  mc::note("%s", spec.c_str());
  int nc = 0, nr = 0; double* v = ReadImageAsVector(fn + spec, &nc, &nr);
  if (!v) { mc::count("not_readable"); return; }      // CFITSIO does not accept this spelling
  int base = ext == 2 ? 10000 : 0;
  double v0 = v[0], vl = v[nc * nr - 1]; 
  bool same = nc == b - a + 1 && nr == d - c + 1;
  for (int j = 0; same && j < nr; j++) for (int i = 0; i < nc; i++) same = same && v[j * nc + i] == base + 100 * (a + i) + (c + j);
  fftw_free(v);
  mc::state(mc::Hash()(ext)(a)(b)(c)(d).h);
  if (!same && deco == 3) { mc::count("not_readable"); return; }   // CFITSIO does not take this spelling as a section
  MC_CHECK(same, "section-read", "section %s read as %dx%d, first pixel %g, last %g", spec.c_str(), nc, nr, v0, vl);
  int gc, gr, st; std::tie(gc, gr, st) = GetImageSize(fn + spec);
  MC_CHECK(st == 0 && gc == nc && gr == nr, "section-size", "GetImageSize(%s) = %d x %d status %d, image read is %d x %d", spec.c_str(), gc, gr, st, nc, nr);
  int ox, oy; std::tie(ox, oy) = DetermineImageOffset(fn + spec);
  MC_CHECK(ox == a - 1 && oy == c - 1, "offset", "DetermineImageOffset(...%s) = %d,%d but the first pixel read is (%d,%d)", spec.c_str(), ox, oy, a, c);
  MC_CHECK(ImageFileExists((fn + spec).c_str()), "exists", "ImageFileExists false for %s", spec.c_str());
  MC_CHECK(CheckForImage(fn + spec) == 1, "checkforimage", "CheckForImage rejects %s", spec.c_str());
}
static string gen(const string& alpha, int n, int sh) {
  string s; for (int i = 0; i < n; i++) { int c = mc::choose((int)alpha.size() + 1); if (i + 1 == sh) mc::shard(); if (!c) break; s += alpha[c - 1]; } mc::shard(); return s;
}
static vector<string> splitOn(const string& s, char d) { vector<string> o(1); for (char c : s) if (c == d) o.push_back(""); else o.back() += c; return o; }
static bool digits(const string& s) { return !s.empty() && s.find_first_not_of("0123456789") == string::npos; }
// every bracket string
MC_PART(region_strings) {
  string s = gen("12:,*[]", mc::tier(7, 8), 3);
  mc::note("region '%s'", s.c_str());
  string body = s; while (!body.empty() && body[0] == '[') body.erase(0, 1); while (!body.empty() && body.back() == ']') body.erase(body.size() - 1);
  auto p = splitOn(body, ','); bool exact = p.size() == 2, plain = body.find_first_of("[]*") == string::npos;
  int n[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < p.size(); i++) { auto r = splitOn(p[i], ':'); if (r.size() != 2 || !digits(r[0]) || !digits(r[1])) exact = false; else if (i < 2) { n[2 * i] = atoi(r[0].c_str()); n[2 * i + 1] = atoi(r[1].c_str()); } }
  int a, b, c, d; mc::phase("GetAllCoordsFromBracket");
  std::tie(a, b, c, d) = GetAllCoordsFromBracket(s);
  mc::phase("");
  if (exact) { mc::state(mc::Hash()(n[0])(n[1])(n[2])(n[3]).h);
    MC_CHECK(a == n[0] && b == n[1] && c == n[2] && d == n[3], "region", "'%s' decoded as %d:%d,%d:%d", s.c_str(), a, b, c, d);
    PsfOversamplingInfo info; info.AddRegionString(s); int ox = mc::choose(2) * 3, oy = mc::choose(2) * 5; info.AddImageOffset(ox, oy);
    int e, f, g, h; std::tie(e, f, g, h) = info.GetCorrectedRegionCoords();
    MC_CHECK(e == a - ox && f == b - ox && g == c - oy && h == d - oy, "region-offset", "region '%s' with offset %d,%d became %d:%d,%d:%d", s.c_str(), ox, oy, e, f, g, h);
  } else {
    int nonEmptyParts = 0; for (auto& x : p) nonEmptyParts += !x.empty();
    bool badPart = false; if (nonEmptyParts == 2 && plain) for (auto& x : p) if (!x.empty()) { int k = 0; for (auto& y : splitOn(x, ':')) k += !y.empty(); badPart |= (k != 2); }
    if (plain && (nonEmptyParts < 2 || badPart))
      MC_CHECK(a == 0 && b == 0 && c == 0 && d == 0, "region-malformed", "malformed region '%s' decoded as %d:%d,%d:%d instead of an error", s.c_str(), a, b, c, d);
  }
}
// every file-name suffix: never crashes; well-formed sections decode; malformed ones give the error value or no offset
MC_PART(name_strings) {
  string s = gen("12:,*[] ", mc::tier(7, 8), 3);
  mc::note("name 'f.fits%s'", s.c_str());
  int x, y; mc::phase("DetermineImageOffset"); std::tie(x, y) = DetermineImageOffset("f.fits" + s); mc::phase("");
  // strict grammar: [n]? [r,r] with r = d+:d+ | *
  string t; for (char c : s) if (c != ' ') t += c;
  bool ok = false; int ex = 0, ey = 0; string u = t;
  if (u.empty()) ok = (s.empty());
  else if (u[0] == '[' && u.back() == ']') {
    size_t e = u.find(']'); string g1 = u.substr(1, e - 1), rest = u.substr(e + 1), sec = g1;
    if (digits(g1)) { if (rest.empty()) ok = true; else if (rest[0] == '[' && rest.find(']') == rest.size() - 1) { sec = rest.substr(1, rest.size() - 2); } else sec = "bad"; }
    else if (!rest.empty()) sec = "bad";
    if (!ok && sec.find_first_of("[]") == string::npos) {
      auto p = splitOn(sec, ','); int st[2] = {0, 0}; bool g = p.size() == 2;
      for (int i = 0; g && i < 2; i++) { auto r = splitOn(p[i], ':'); if (p[i] == "*") st[i] = 1; else if (r.size() == 2 && digits(r[0]) && digits(r[1])) st[i] = atoi(r[0].c_str()); else g = false; }
      if (g) { ok = true; ex = st[0] - 1; ey = st[1] - 1; }
    }
  }
  // spaces: only those that do not split a number or the brackets
  bool hasSpace = s.find(' ') != string::npos;
  if (ok && hasSpace) for (size_t i = 1; i + 1 < s.size(); i++) if (s[i] == ' ') { size_t a = s.find_last_not_of(' ', i), b = s.find_first_not_of(' ', i); if (a == string::npos || b == string::npos || (isdigit(s[a]) && isdigit(s[b])) || s[a] == ']' ) ok = false; }
  if (ok && hasSpace && (s[0] == ' ' || s.back() == ' ')) ok = false;
  if (ok) { mc::state(mc::Hash()(ex)(ey)((int)s.size()).h); MC_CHECK(x == ex && y == ey, "name-offset", "'f.fits%s' gave offset %d,%d, expected %d,%d", s.c_str(), x, y, ex, ey); }
  else { mc::count("malformed_names"); }
  string base; StripBrackets("f.fits" + s, base);
  if (s.empty() || s[0] == '[') MC_CHECK(base == "f.fits", "strip", "StripBrackets gave '%s'", base.c_str());
}
