// every image function: documented parameter names, units, and one admissible parameter vector
#ifndef FUNCTABLE_H
#define FUNCTABLE_H
#include <vector>
#include <string>
#include <cstring>
using std::string; using std::vector;
struct T { const char* name; const char* labels; const char* units; vector<double> p; bool slow; T(const char* n, const char* l, const char* u, vector<double> q) : name(n), labels(l), units(u), p(q), slow(strstr(n, "3D") != nullptr) {} };
#define A "deg (CCW from +y axis)"
#define CP "counts/pixel"
#define CV "counts/voxel"
inline const vector<T>& functable() {
  static const vector<T> t = {
    {"BrokenExponential", "PA ell I_0 h1 h2 r_break alpha", A "||" CP "|pixels|pixels|pixels|1/pixels", {25, 0.3, 10, 9, 2, 3, 2}}, {"BrokenExponential2D", "PA I_0 h1 h2 r_break alpha h_z", A "|" CP "|pixels|pixels|pixels|1/pixels|pixels", {25, 10, 9, 2, 3, 2, 1.5}},
    {"BrokenExponentialDisk3D", "PA inc J_0 h1 h2 r_break alpha n z_0", A "|deg|" CV "|pixels|pixels|pixels|1/pixels||pixels", {25, 60, 3, 5, 2, 3, 2, 1, 0.8}}, {"Core-Sersic", "PA ell n I_b r_e r_b alpha gamma", A "|||" CP "|pixels|pixels||", {25, 0.3, 2, 10, 8, 1.5, 5, 0.3}},
    {"DattathriPeanut3D", "PA_lon inc barPA J0_bar R_bar_x q q_z R_peanut A_peanut sigma_peanut c_bar_par c_bar_perp", A "|deg|deg|" CV "|pixels|||pixels|pixels|pixels||", {25, 60, 20, 3, 5, 0.4, 0.3, 4, 1, 2, 1.5, 2}},
    {"EdgeOnDisk", "PA L_0 h n z_0", A "|" CV "|pixels||pixels", {25, 2, 4, 1, 1.5}}, {"EdgeOnRing", "PA I_0 r sigma_r sigma_z", A "|" CP "|pixels|pixels|pixels", {25, 7, 2, 1, 0.8}}, {"EdgeOnRing2Side", "PA I_0 r sigma_r_in sigma_r_out sigma_z", A "|" CP "|pixels|pixels|pixels|pixels", {25, 7, 2, 1, 2, 0.8}},
    {"Exponential", "PA ell I_0 h", A "||" CP "|pixels", {25, 0.3, 10, 3}}, {"ExponentialDisk3D", "PA inc J_0 h n z_0", A "|deg|" CV "|pixels||pixels", {25, 60, 3, 5, 1, 0.8}}, {"Exponential_GenEllipse", "PA ell c0 I_0 h", A "|||" CP "|pixels", {25, 0.3, 0.7, 10, 3}},
    {"FerrersBar2D", "PA ell c0 n I_0 a_bar", A "||||" CP "|pixels", {25, 0.3, 0.7, 1.5, 10, 4}}, {"FerrersBar3D", "PA inc barPA J_0 R_bar q q_z n", A "|deg|deg|" CV "|pixels|||", {25, 60, 20, 3, 5, 0.5, 0.3, 2}}, {"FlatBar", "PA ell deltaPA_max I_0 h1 h2 r_break alpha", A "||deg|" CP "|pixels|pixels|pixels|1/pixels", {25, 0.3, 15, 10, 9, 2, 3, 2}},
    {"FlatSky", "I_sky", CP, {3.5}}, {"Gaussian", "PA ell I_0 sigma", A "||" CP "|pixels", {25, 0.3, 10, 2}}, {"GaussianRing", "PA ell A R_ring sigma_r", A "||" CP "|pixels|pixels", {25, 0.3, 10, 2.5, 1}}, {"GaussianRing2Side", "PA ell A R_ring sigma_r_in sigma_r_out", A "||" CP "|pixels|pixels|pixels", {25, 0.3, 10, 2.5, 1, 2}},
    {"GaussianRing3D", "PA inc PA_ring ell J_0 a_ring sigma h_z", A "|deg|deg||" CV "|pixels|pixels|pixels", {25, 60, 20, 0.3, 3, 4, 1, 0.5}}, {"GaussianRingAz", "PA ell A_maj A_min_rel R_ring sigma_r", A "||" CP "||pixels|pixels", {25, 0.3, 10, 0.4, 2.5, 1}}, {"ModifiedKing", "PA ell I_0 r_c r_t alpha", A "||" CP "|pixels|pixels|", {25, 0.3, 10, 2, 9, 2}},
    {"ModifiedKing2", "PA ell I_0 r_c c alpha", A "||" CP "|pixels||", {25, 0.3, 10, 2, 5, 2}}, {"Moffat", "PA ell I_0 fwhm beta", A "||" CP "|pixels|", {25, 0.3, 10, 3, 2.5}}, {"PointSource", "I_tot", "counts", {17}}, {"PointSourceRot", "PA I_tot", A "|counts", {33, 17}},
    {"Sersic", "PA ell n I_e r_e", A "|||" CP "|pixels", {25, 0.3, 2, 10, 3}}, {"Sersic_GenEllipse", "PA ell c0 n I_e r_e", A "||||" CP "|pixels", {25, 0.3, 0.7, 2, 10, 3}}, {"TiltedSkyPlane", "I_0 m_x m_y", CP "||", {3, 0.25, -0.5}}};
  return t;
}
#undef A
#undef CP
#undef CV
#endif
