// Tip shapes: S10 the hulls of their circles, containment, and the outlines of a shape and of the sweep of several.
#include <algorithm>
#include "geo.h"
#include "ink/geometry/internal/circle.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/extrusion_points.h"
#include "vh_main.h"
namespace vh {
namespace {
using ink::Angle;
using ink::Point;
using ink::Vec;
using ink::strokes_internal::BrushTipShape;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::ExtrusionPoints;
struct C { P c; double r; };
using Cs = std::vector<C>;
constexpr int kDirs = 720;
P Dir(int i) { return {std::cos(2 * M_PI * i / kDirs), std::sin(2 * M_PI * i / kDirs)}; }
double Sup(const Cs& s, P u) { double m = -1e300; for (auto& x : s) m = std::max(m, Dot(x.c, u) + x.r); return m; }
double Sup(const Poly& s, P u) { double m = -1e300; for (P x : s) m = std::max(m, Dot(x, u)); return m; }
// The directions in which the support of b minus that of a may peak: normals of edges of a, and of those between both.
void Normals(std::vector<P>& out, P v, double dr) {
  double l = Len(v);
  if (l <= std::fabs(dr) || l == 0) return;
  double k = dr / l, q = std::sqrt(1 - k * k);  // u with v . u = -dr
  P e = (1 / l) * v, n{-e.y, e.x};
  out.push_back(-k * e + q * n); out.push_back(-k * e + -q * n);
}
void Peaks(std::vector<P>& out, const Cs& a) { for (auto& x : a) for (auto& y : a) Normals(out, y.c - x.c, y.r - x.r); }
void Peaks(std::vector<P>& out, const Poly& a) { for (size_t i = 0; i < a.size(); ++i) Normals(out, a[(i + 1) % a.size()] - a[i], 0); }
P At(const C& x) { return x.c; }
P At(P x) { return x; }
// How far b reaches out of the hull of a (negative: how far inside it stays).
template <typename A, typename B> double Out(const A& a, const B& b) {
  std::vector<P> dirs;
  for (int i = 0; i < kDirs; ++i) dirs.push_back(Dir(i));
  Peaks(dirs, a);
  if (a.size() <= 8 && b.size() <= 8) for (auto& x : a) for (auto& y : b) { P v = At(y) - At(x); if (double l = Len(v); l > 0) dirs.push_back((1 / l) * v); }
  double m = -1e300;
  for (P u : dirs) m = std::max(m, Sup(b, u) - Sup(a, u));
  return m;
}
Cs Of(const BrushTipShape& s) { Cs v; for (auto& x : s.PerimeterCircles()) v.push_back({D(x.Center()), x.Radius()}); return v; }
// The corners of a tip shape as documented.
Cs Want(const BrushTipState& s) {
  double w = s.width / 2., h = s.height / 2., rad = s.percent_radius * std::min(w, h);
  double x = w - rad, y = h - rad, sl = s.slant.ValueInRadians(), ro = s.rotation.ValueInRadians(), px = (1 - s.pinch) * x;
  Cs out;
  for (P c : {P{x, y}, P{-x, y}, P{-px, -y}, P{px, -y}}) {
    P q{c.x - c.y * std::sin(sl), c.y * std::cos(sl)};
    out.push_back({{q.x * std::cos(ro) - q.y * std::sin(ro) + s.position.x, q.x * std::sin(ro) + q.y * std::cos(ro) + s.position.y}, rad});
  }
  return out;
}
Cs Both(Cs a, const Cs& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
double Area(const Poly& p) { return PolyArea2(p) / 2; }
// Of the hull of circles, from its support function: half of the sum over the directions of h * (h + h'').
Poly HullPoly(const Cs& s) {
  Poly pts;
  for (int i = 0; i < kDirs; ++i) {
    P u = Dir(i), best{}; double m = -1e300;
    for (auto& x : s) if (double v = Dot(x.c, u) + x.r; v > m) { m = v; best = x.c + x.r * u; }
    pts.push_back(best);
  }
  return pts;
}
std::string Show(const BrushTipState& s) {
  return Cat("{at ", s.position, " ", s.width, "x", s.height, " radius ", s.percent_radius, " rotation ", s.rotation, " slant ", s.slant, " pinch ", s.pinch, "}");
}
BrushTipState AnyState(Rng& r, double size) {
  BrushTipState s{};
  s.position = {r.F(-20, 20), r.F(-20, 20)};
  s.pinch = 0; s.slant = {};
  s.width = (float)(size * r.LogReal(.2, 2));
  s.height = r.Chance(.4) ? s.width : (float)(size * r.LogReal(.2, 2));
  if (r.Chance(.06)) s.width = 0;
  if (r.Chance(.06)) s.height = 0;
  s.percent_radius = r.Chance(.3) ? 1 : r.Chance(.3) ? 0 : r.F(0, 1);
  s.rotation = r.Chance(.1) ? Angle() : r.Chance(.3) ? Angle::Degrees(45 * r.Int(-4, 4)) : Angle::Radians(r.F(-3.1, 3.1));
  if (r.Chance(.3)) s.slant = r.Chance(.2) ? Angle::Degrees(30 * r.Int(-3, 3)) : Angle::Radians(r.F(-1.5, 1.5));
  if (r.Chance(.3)) s.pinch = r.Chance(.3) ? 1 : r.F(0, 1);
  return s;
}
BrushTipState Next(Rng& r, const BrushTipState& a, P by, bool same) {
  BrushTipState s = same ? a : AnyState(r, std::max({a.width, a.height, .5f}));
  s.position = {(float)(a.position.x + by.x), (float)(a.position.y + by.y)};
  return s;
}
double Radius(const Cs& s, P c) { double m = 0; for (auto& x : s) m = std::max(m, Len(x.c - c) + x.r); return m; }
Poly Outline(const ExtrusionPoints& e) {
  Poly p;
  for (Point q : e.left) p.push_back(D(q));
  for (auto i = e.right.rbegin(); i != e.right.rend(); ++i) p.push_back(D(*i));
  return p;
}
// A clockwise convex outline of the hull of the circles, approximated to the chord height.
void ConvexOutline(Ctx& c, const ExtrusionPoints& e, const Cs& hull, double chord, double tol, const char* what, const std::string& info, bool loops = false) {
  Poly p = Outline(e);
  VH_REQUIRE(c, !p.empty(), "empty", what, info);
  double out = Out(hull, p), in = Out(p, hull);
  VH_REQUIRE(c, out <= tol, "outside", what, ": a point is ", out, " out; ", info);
  VH_REQUIRE(c, in <= chord + tol, "cut-off", what, ": misses ", in, " with a chord height of ", chord, "; ", info);
  if (loops) return;
  double want = -Area(HullPoly(hull)), got = Area(p), per = 0;
  for (size_t i = 0; i < p.size(); ++i) per += Len(p[(i + 1) % p.size()] - p[i]);
  VH_REQUIRE(c, std::fabs(got - want) <= (per + tol) * (chord + 2 * tol), "order", what, ": area ", got, " not ", want, "; ", info);
  // Convex: no edge turns left.
  Poly d;
  for (P q : p) if (d.empty() || Len(q - d.back()) > 4 * tol) d.push_back(q);
  while (d.size() > 1 && Len(d.back() - d[0]) <= 4 * tol) d.pop_back();
  for (size_t i = 0; i < d.size() && d.size() > 2; ++i) {
    P a = d[(i + 1) % d.size()] - d[i], b = d[(i + 2) % d.size()] - d[(i + 1) % d.size()];
    VH_REQUIRE(c, Det(a, b) <= 2 * tol * (Len(a) + Len(b)), "not-convex", what, ": turns left at point ", (int)i, "; ", info);
  }
}
// Whether some circle touches the hull in (nearly) a single point: the outline may then have an unnecessary loop around it.
bool NearlyCollinear(const Cs& s, double scale) {
  for (auto& x : s) {
    int arc = 0; double gap = 1e300;
    for (int i = 0; i < kDirs; ++i) { P u = Dir(i); double g = Sup(s, u) - Dot(x.c, u) - x.r; gap = std::min(gap, g); arc += g <= 1e-5 * scale; }
    if (arc <= 4 && gap <= .05 * scale) return true;
  }
  return false;
}
void SplitSides(Ctx& c, const std::vector<Point>& left, const std::vector<Point>& right, Point at, Vec f, double tol, const char* what, const std::string& info) {
  for (auto* v : {&left, &right}) for (Point q : *v) {
    double d = Det(D(f), D(q) - D(at));
    VH_REQUIRE(c, v == &left ? d >= -tol : d <= tol, "side", what, ": ", q, " is on the wrong side by ", d, "; ", info);
  }
}
double Deep(const Cs& s, P q) { double m = 1e300; for (int i = 0; i < kDirs; ++i) { P u = Dir(i); m = std::min(m, Sup(s, u) - Dot(q, u)); } return m; }
int Turns(P q, const Poly& p) {
  int w = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    P a = p[i], b = p[(i + 1) % p.size()];
    if (a.y <= q.y && b.y > q.y && Det(b - a, q - a) > 0) ++w;
    if (a.y > q.y && b.y <= q.y && Det(b - a, q - a) < 0) --w;
  }
  return w;
}
// A stroke of three shapes covers the hulls of the first two and of the last two, and no more.
void Turn(Ctx& c, const BrushTipState& sa, const BrushTipShape& a, const Cs& ca, double ra, const BrushTipShape& b, const Cs& cb, double rb, double dist, P u, bool same, double eps, double chord, std::string info) {
  Rng& r = c.rng;
  double turn = r.Chance(.2) ? 0 : r.Real(-1.5, 1.5), ct = std::cos(turn), st = std::sin(turn);
  P v{u.x * ct - u.y * st, u.x * st + u.y * ct};
  double d2 = rb * r.LogReal(1, 8);
  BrushTipState sn = same ? sa : Next(r, sa, {0, 0}, true);
  sn.position = {(float)(b.Center().x + d2 * v.x), (float)(b.Center().y + d2 * v.y)};
  BrushTipShape n(sn, eps);
  Cs cn = Of(n);
  double rn = Radius(cn, D(sn.position)), all = ra + rb + rn + dist + d2;
  if (d2 <= rb + rn) return;
  ExtrusionPoints e;
  BrushTipShape::AppendStartcapExtrusionPoints(a, b, chord, e);
  BrushTipShape::AppendTurnExtrusionPoints(a, b, n, chord, e);
  BrushTipShape::AppendEndcapExtrusionPoints(b, n, chord, e);
  Poly p = Outline(e);
  Cs h1 = Both(ca, cb), h2 = Both(cb, cn);
  double margin = chord + 2 * eps + 2e-3 * all;
  const double lost = same ? 0 : .7 * std::max({ra, rb, rn});  // beside the rear of shapes of different size
  for (int i = 0; i < 40; ++i) {
    const Cs& h = r.Chance(.5) ? h1 : h2;
    double k = r.U();
    P from = i < 8 ? D(b.Center()) : &h == &h1 ? D(a.Center()) + k * (D(b.Center()) - D(a.Center())) : D(b.Center()) + k * (D(n.Center()) - D(b.Center()));
    P q = from + r.Real(0, 1.5 * ra) * Dir((int)r.Below(kDirs));
    if (i >= 12) {  // just inside of the boundary of the middle shape
      P to = Dir((int)r.Below(kDirs)); double m = -1e300;
      for (auto& x : cb) if (Dot(x.c, to) + x.r > m) { m = Dot(x.c, to) + x.r; q = x.c + (x.r - 1.1 * margin) * to; }
      if (r.Chance(.3)) q = D(b.Center()) + r.U() * (q - D(b.Center()));
    }
    double in = std::max(Deep(h1, q), Deep(h2, q));
    int w = Turns(q, p);
    std::string i2 = Cat(info, " chord ", chord, " then at ", n.Center(), ": point ", q.x, ",", q.y, " lies ", in, " inside, winding ", w);
    if (in > margin + lost) { VH_REQUIRE(c, w != 0, "turn-gap", i2); c.Count("turn_points_inside"); }
    if (in < -margin) { VH_REQUIRE(c, w == 0, "turn-outside", i2); c.Count("turn_points_outside"); }
  }
  c.Count("turns");
}
VH_PROPERTY(S10) {
  Rng& r = c.rng;
  double size = r.LogReal(.5, 30);
  double eps = size * r.LogReal(1e-3, .1), chord = r.Chance(.5) ? eps : size * r.LogReal(1e-3, .2);
  BrushTipState sa = AnyState(r, size);
  BrushTipShape a(sa, eps);
  Cs ca = Of(a), want = Want(sa);
  double ra = Radius(ca, D(sa.position)), tol = 2e-5 * (ra + 30);
  std::string info = Cat(Show(sa), " epsilon ", eps);
  c.Sample(info); c.Sig(sa.width); c.Sig(sa.position.x);
  VH_REQUIRE(c, !ca.empty() && ca.size() <= 4 && a.Center() == sa.position, "circles", info);
  double slack = 3 * eps + tol;
  VH_REQUIRE(c, Out(want, ca) <= slack && Out(ca, want) <= slack, "shape", "reaches ", Out(want, ca), " out of the documented shape, misses ", Out(ca, want), "; ", info);
  if (ca.size() > 1) for (size_t i = 0; i < ca.size(); ++i) {
    int n = (int)ca.size();
    VH_REQUIRE(c, a.GetNextPerimeterIndexCcw((int)i) == ((int)i + 1) % n && a.GetNextPerimeterIndexCw((int)i) == ((int)i + n - 1) % n, "next", info);
    if (n > 2) { P u = ca[(i + 1) % n].c - ca[i].c, v = ca[(i + 2) % n].c - ca[(i + 1) % n].c; VH_REQUIRE(c, Det(u, v) >= -tol * (Len(u) + Len(v)), "not-ccw", info); }
  }
  {
    auto b = a.Bounds();
    VH_REQUIRE(c, std::fabs(b.XMax() - Sup(ca, {1, 0})) <= tol && std::fabs(b.XMin() + Sup(ca, {-1, 0})) <= tol && std::fabs(b.YMax() - Sup(ca, {0, 1})) <= tol &&
               std::fabs(b.YMin() + Sup(ca, {0, -1})) <= tol, "bounds", b, "; ", info);
    ExtrusionPoints e;
    int junk = r.Int(0, 2);
    for (int i = 0; i < junk; ++i) { e.left.push_back({1e6f, 1}); e.right.push_back({2e6f, 1}); }
    Angle fa = r.Chance(.3) ? Angle::Degrees(45 * r.Int(-4, 4)) : Angle::Radians(r.F(-3.1, 3.1));
    Vec f = Vec::FromDirectionAndMagnitude(fa, 1);
    if (r.Chance(.15)) { f = r.Of({Vec{1, 0}, Vec{-1, 0}, Vec{0, 1}, Vec{0, -1}}); fa = f.Direction(); }
    BrushTipShape::AppendWholeShapeExtrusionPoints(a, chord, f, e);
    for (int i = 0; i < junk; ++i) VH_REQUIRE(c, e.left[i] == (Point{1e6f, 1}) && e.right[i] == (Point{2e6f, 1}), "earlier-points", info);
    e.left.erase(e.left.begin(), e.left.begin() + junk); e.right.erase(e.right.begin(), e.right.begin() + junk);
    std::string i2 = Cat(info, " forward ", fa, " chord ", chord);
    if (ra > 4 * tol) ConvexOutline(c, e, ca, chord, tol, "whole shape", i2);
    if (ca.size() > 1) SplitSides(c, e.left, e.right, a.Center(), f, tol, "whole shape", i2);
    c.Count("whole_shapes");
  }
  // A second shape.
  int kind = r.Int(0, 3);
  bool same = r.Chance(.5);
  Angle to = r.Chance(.3) ? Angle::Degrees(45 * r.Int(-4, 4)) : Angle::Radians(r.F(-3.1, 3.1));
  P u{std::cos(to.ValueInRadians()), std::sin(to.ValueInRadians())};
  if (r.Chance(.15)) u = r.Of({P{1, 0}, P{-1, 0}, P{0, 1}, P{0, -1}});
  double dist = kind == 0 ? ra * r.LogReal(1e-3, 1) : kind == 3 ? 2.05 * ra * r.LogReal(1, 5) : ra * r.LogReal(.05, 10);
  BrushTipState sb = Next(r, sa, dist * u, same);
  BrushTipShape b(sb, eps);
  Cs cb = Of(b);
  double rb = Radius(cb, D(sb.position));
  tol = 4e-5 * (ra + rb + dist + 30);
  info = Cat(info, " then ", Show(sb));
  double oa = Out(ca, cb), ob = Out(cb, ca);  // b out of a; a out of b
  if (oa > tol) VH_REQUIRE(c, !a.Contains(b), "contains", "though it is ", oa, " out of it; ", info);
  if (oa < -tol) { VH_REQUIRE(c, a.Contains(b), "contains-not", "though it is ", -oa, " inside of it; ", info); c.Count("contained"); }
  if (ob > tol) VH_REQUIRE(c, !b.Contains(a), "contains", "(second, first) though it is ", ob, " out of it; ", info);
  if (ob < -tol) { VH_REQUIRE(c, b.Contains(a), "contains-not", "(second, first) though it is ", -ob, " inside of it; ", info); c.Count("contained"); }
  if (oa <= 4 * tol || ob <= 4 * tol) return;
  c.NonTrivial();
  bool apart = dist > ra + rb;
  Vec f = (b.Center() - a.Center()).AsUnitVec();
  if (!apart) return;
  {
    ExtrusionPoints e;
    BrushTipShape::AppendStartcapExtrusionPoints(a, b, chord, e);
    std::string i2 = Cat(info, " chord ", chord);
    Cs hull = Both(ca, cb);
    // Angles between (nearly) parallel directions are only accurate to 3.5e-4: which of the circles that lie closer than that
    // to a tangent is taken does not matter.
    bool loops = NearlyCollinear(hull, ra + rb + dist), close = false;
    for (auto* q : {&ca, &cb}) for (size_t i = 0; i < q->size() && q->size() > 1; ++i) close |= Len((*q)[i].c - (*q)[(i + 1) % q->size()].c) < .03 * (ra + rb + dist);
    loops |= close;
    if (!loops) SplitSides(c, e.left, e.right, a.Center(), f, tol, "start cap", i2);
    size_t l = e.left.size(), q = e.right.size();
    BrushTipShape::AppendEndcapExtrusionPoints(a, b, chord, e);
    if (!loops) SplitSides(c, {e.left.begin() + l, e.left.end()}, {e.right.begin() + q, e.right.end()}, b.Center(), f, tol, "end cap", i2);
    // A shape that is followed close by by a smaller one need not be covered at the sides beside its rear corners.
    double taper = same ? 0 : rb < .9 * ra ? .6 * ra : ca.size() == 2 ? .35 * ra : 0;
    ConvexOutline(c, e, hull, chord + 2 * eps + taper + (close ? .03 : 7e-4) * (ra + rb + dist), tol, "caps", i2, loops);
    c.Count(loops ? "sweeps_collinear" : "sweeps");
    if (loops) return;
    Turn(c, sa, a, ca, ra, b, cb, rb, dist, u, same, eps, chord, info);
  }
}
}  // namespace
}  // namespace vh
