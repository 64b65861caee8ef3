// all image functions by name, created directly from their classes
#ifndef FUNCLIST_H
#define FUNCLIST_H
#include <string>
#include <algorithm>
#include <functional>
#include "function_object.h"
#include "func_exp.h"
#include "func_sersic.h"
#include "func_gen-sersic.h"
#include "func_core-sersic.h"
#include "func_gen-exp.h"
#include "func_broken-exp.h"
#include "func_broken-exp2d.h"
#include "func_edge-on-ring.h"
#include "func_edge-on-ring2side.h"
#include "func_flatbar.h"
#include "func_gaussian-ring.h"
#include "func_gaussian-ring2side.h"
#include "func_gaussian-ring-az.h"
#include "func_gaussian.h"
#include "func_moffat.h"
#include "func_king.h"
#include "func_king2.h"
#include "func_ferrersbar2d.h"
#include "func_flatsky.h"
#include "func_tilted-sky-plane.h"
#include "func_peanut_dattathri.h"
#include "func_edge-on-disk.h"
#include "func_expdisk3d.h"
#include "func_brokenexpdisk3d.h"
#include "func_gaussianring3d.h"
#include "func_ferrersbar3d.h"
#ifndef FUNC_POINTSOURCE_SEEN
#define FUNC_POINTSOURCE_SEEN
#include "func_pointsource.h"
#endif
#include "func_pointsource-rot.h"
inline FunctionObject* makeFunction(const std::string& n) {
#define F_(name, cls) if (n == name) return new cls();
  F_("Exponential", Exponential) F_("Sersic", Sersic) F_("Sersic_GenEllipse", GenSersic) F_("Core-Sersic", CoreSersic) F_("Exponential_GenEllipse", GenExponential)
  F_("BrokenExponential", BrokenExponential) F_("BrokenExponential2D", BrokenExponential2D) F_("EdgeOnRing", EdgeOnRing) F_("EdgeOnRing2Side", EdgeOnRing2Side) F_("FlatBar", FlatBar)
  F_("GaussianRing", GaussianRing) F_("GaussianRing2Side", GaussianRing2Side) F_("GaussianRingAz", GaussianRingAz) F_("Gaussian", Gaussian) F_("Moffat", Moffat) F_("ModifiedKing", ModifiedKing)
  F_("ModifiedKing2", ModifiedKing2) F_("FerrersBar2D", FerrersBar2D) F_("FlatSky", FlatSky) F_("TiltedSkyPlane", TiltedSkyPlane) F_("DattathriPeanut3D", DattathriPeanut3D) F_("EdgeOnDisk", EdgeOnDisk)
  F_("ExponentialDisk3D", ExponentialDisk3D) F_("BrokenExponentialDisk3D", BrokenExponentialDisk3D) F_("GaussianRing3D", GaussianRing3D) F_("FerrersBar3D", FerrersBar3D) F_("PointSource", PointSource) F_("PointSourceRot", PointSourceRot)
#undef F_
  return nullptr;
}
#endif
