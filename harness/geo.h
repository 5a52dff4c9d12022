// Exact and double precision oracles for the plane.
#ifndef VERIF_GEO_H_
#define VERIF_GEO_H_
#include "gen.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/vec.h"
namespace vh {
struct P { double x, y; };
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator*(double k, P a) { return {k * a.x, k * a.y}; }
inline double Det(P a, P b) { return a.x * b.y - a.y * b.x; }
inline double Dot(P a, P b) { return a.x * b.x + a.y * b.y; }
inline double Len(P a) { return std::hypot(a.x, a.y); }
inline P D(ink::Point p) { return {p.x, p.y}; }
inline P D(ink::Vec p) { return {p.x, p.y}; }
using Poly = std::vector<P>;  // a convex set: point, segment, triangle or parallelogram by its corners
inline Poly PolyOf(ink::Point p) { return {D(p)}; }
inline Poly PolyOf(const ink::Segment& s) { return {D(s.start), D(s.end)}; }
inline Poly PolyOf(const ink::Triangle& t) { return {D(t.p0), D(t.p1), D(t.p2)}; }
inline Poly PolyOf(const ink::Rect& r) { return {{r.XMin(), r.YMin()}, {r.XMax(), r.YMin()}, {r.XMax(), r.YMax()}, {r.XMin(), r.YMax()}}; }
inline Poly PolyOf(const ink::Quad& q) {  // from its parameters, in double
  double a = q.Rotation().ValueInRadians(), w = q.Width(), h = q.Height(), s = q.ShearFactor();
  P u = .5 * w * P{std::cos(a), std::sin(a)}, v = .5 * h * P{s * std::cos(a) - std::sin(a), s * std::sin(a) + std::cos(a)}, c = D(q.Center());
  return {c - u - v, c + u - v, c + u + v, c - u + v};
}
// Doubles hold the products of the grid coordinates exactly, so these are exact there.
inline int Sgn(double v) { return (v > 0) - (v < 0); }
inline int Orient(P a, P b, P c) { return Sgn(Det(b - a, c - a)); }
inline bool OnSeg(P q, P a, P b) {
  return Orient(a, b, q) == 0 && std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y);
}
inline bool SegSeg(P a, P b, P c, P d) {
  int o1 = Orient(a, b, c), o2 = Orient(a, b, d), o3 = Orient(c, d, a), o4 = Orient(c, d, b);
  if (o1 * o2 < 0 && o3 * o4 < 0) return true;
  return OnSeg(c, a, b) || OnSeg(d, a, b) || OnSeg(a, c, d) || OnSeg(b, c, d);
}
inline double PolyArea2(const Poly& p) { double s = 0; for (size_t i = 0; i < p.size(); ++i) s += Det(p[i] - p[0], p[(i + 1) % p.size()] - p[0]); return s; }
inline bool InPoly(P q, const Poly& p) {
  size_t n = p.size();
  if (n == 1) return q.x == p[0].x && q.y == p[0].y;
  for (size_t i = 0; i < n; ++i) if (OnSeg(q, p[i], p[(i + 1) % n])) return true;
  if (n < 3 || PolyArea2(p) == 0) return false;
  int s = Sgn(PolyArea2(p));
  for (size_t i = 0; i < n; ++i) if (Orient(p[i], p[(i + 1) % n], q) * s < 0) return false;
  return true;
}
inline bool PolyPoly(const Poly& a, const Poly& b) {
  for (P q : a) if (InPoly(q, b)) return true;
  for (P q : b) if (InPoly(q, a)) return true;
  for (size_t i = 0; i < a.size() && a.size() > 1; ++i) for (size_t j = 0; j < b.size() && b.size() > 1; ++j)
    if (SegSeg(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return true;
  return false;
}
inline double PtSeg(P q, P a, P b) {
  P v = b - a; double l2 = Dot(v, v);
  double t = l2 > 0 ? std::min(1., std::max(0., Dot(q - a, v) / l2)) : 0;
  return Len(q - (a + t * v));
}
inline double PolyDist(const Poly& a, const Poly& b) {
  if (PolyPoly(a, b)) return 0;
  double m = 1e300;
  for (P q : a) for (size_t j = 0; j < b.size(); ++j) m = std::min(m, PtSeg(q, b[j], b[(j + 1) % b.size()]));
  for (P q : b) for (size_t j = 0; j < a.size(); ++j) m = std::min(m, PtSeg(q, a[j], a[(j + 1) % a.size()]));
  return m;
}
// How deep two convex sets overlap: the least separating-axis overlap (0 when they do not).
inline double PolyDepth(const Poly& a, const Poly& b) {
  double best = 1e300;
  for (const Poly* p : {&a, &b}) for (size_t i = 0; i < p->size(); ++i) {
    P e = (*p)[(i + 1) % p->size()] - (*p)[i]; double l = Len(e);
    if (l == 0) continue;
    P nrm = (1 / l) * P{-e.y, e.x};
    for (P ax : {nrm, P{-nrm.y, nrm.x}}) {
      double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
      for (P q : a) { a0 = std::min(a0, Dot(q, ax)); a1 = std::max(a1, Dot(q, ax)); }
      for (P q : b) { b0 = std::min(b0, Dot(q, ax)); b1 = std::max(b1, Dot(q, ax)); }
      best = std::min(best, std::min(a1 - b0, b1 - a0));
    }
  }
  return best > 1e299 ? 0 : std::max(0., best);
}
// Two convex sets overlap in a way that no rounding below tol can hide: two edges cross, or all corners of one are
// well inside the other.
inline bool PolyCross(const Poly& a, const Poly& b, double tol) {
  auto side = [](P q, P s, P e) { return Det(e - s, q - s) / std::max(1e-300, Len(e - s)); };
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) {
    P p = a[i], q = a[(i + 1) % a.size()], s = b[j], t = b[(j + 1) % b.size()];
    double c0 = side(s, p, q), c1 = side(t, p, q), c2 = side(p, s, t), c3 = side(q, s, t);
    if (std::min(c0, c1) < -tol && std::max(c0, c1) > tol && std::min(c2, c3) < -tol && std::max(c2, c3) > tol) return true;
  }
  for (int k = 0; k < 2; ++k) {
    const Poly &in = k ? b : a, &out = k ? a : b;
    if (out.size() < 3) continue;
    double sg = Sgn(PolyArea2(out)); bool all = sg != 0;
    for (P q : in) for (size_t i = 0; i < out.size() && all; ++i) all = sg * side(q, out[i], out[(i + 1) % out.size()]) > tol;
    if (all) return true;
  }
  return false;
}
struct X { double a = 1, b = 0, c = 0, d = 0, e = 1, f = 0; P operator()(P p) const { return {a * p.x + b * p.y + c, d * p.x + e * p.y + f}; } };
inline X D(const ink::AffineTransform& t) { return {t.A(), t.B(), t.C(), t.D(), t.E(), t.F()}; }
inline std::string Show(const Poly& p) { std::string s = "["; for (P q : p) s += Cat("(", q.x, ",", q.y, ")"); return s + "]"; }
}  // namespace vh
#endif
