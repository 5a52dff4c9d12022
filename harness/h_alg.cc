// Geometry helpers: G11 interpolation, intersections and circles; G12 convex hulls, polylines and tessellation.
#include <algorithm>
#include <numbers>
#include <optional>
#include "geo.h"
#include "ink/color/color.h"
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/internal/algorithms.h"
#include "ink/geometry/internal/circle.h"
#include "ink/geometry/internal/polyline_processing.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/tessellator.h"
#include "vh_main.h"
namespace vh {
namespace {
namespace gi = ink::geometry_internal;
using gi::Circle;
using ink::Angle;
using ink::Point;
using ink::Segment;
using ink::Vec;
constexpr double kPi = std::numbers::pi;
double Rad(Angle a) { return a.ValueInRadians(); }
double AngDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * kPi)); }
// ---------------------------------------------------------------- G11
float LerpParam(Rng& r) { return r.Chance(.4) ? r.Of({0.f, 1.f, .5f, .25f, 2.f, -1.f}) : r.Chance(.8) ? r.F(0, 1) : r.F(-3, 4); }
void CheckLerps(Ctx& c) {
  Rng& r = c.rng;
  auto lerp = [&](float got, float a, float b, float t, const char* key) {
    double want = a + ((double)b - a) * t, tol = 1e-6 * (std::fabs(a) + std::fabs(b)) * (1 + std::fabs(t));
    VH_REQUIRE(c, std::fabs(got - want) <= tol, key, got, " want ", want, " for ", a, " to ", b, " at ", t);
    if (a == b) VH_REQUIRE(c, std::fabs(got - a) <= 3e-7 * std::fabs(a) * (1 + std::fabs(t)), key, "equal ends: ", got, " want ", a, " at ", t);
    if (t == 0) VH_REQUIRE(c, got == a, key, "start: ", got, " want ", a);
    c.Sig(got);
  };
  float a = ModerateFloat(r), b = r.Chance(.15) ? a : ModerateFloat(r), x = ModerateFloat(r), y = ModerateFloat(r), t = LerpParam(r);
  lerp(gi::Lerp(a, b, t), a, b, t, "lerp");
  if (a == b) VH_REQUIRE(c, gi::Lerp(a, b, t) == a, "lerp-equal", gi::Lerp(a, b, t), " want ", a);
  Point p = gi::Lerp(Point{a, x}, Point{b, y}, t);
  lerp(p.x, a, b, t, "lerp-point"), lerp(p.y, x, y, t, "lerp-point");
  Vec v = gi::Lerp(Vec{a, x}, Vec{b, y}, t);
  lerp(v.x, a, b, t, "lerp-vec"), lerp(v.y, x, y, t, "lerp-vec");
  lerp(gi::Lerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(), a, b, t, "lerp-angle");
  ink::Color::RgbaFloat ca{a, x, r.F(0, 1), r.F(0, 1)}, cb{b, y, r.F(0, 1), r.F(0, 1)}, cc = gi::Lerp(ca, cb, t);
  lerp(cc.r, ca.r, cb.r, t, "lerp-color"), lerp(cc.g, ca.g, cb.g, t, "lerp-color"), lerp(cc.b, ca.b, cb.b, t, "lerp-color"), lerp(cc.a, ca.a, cb.a, t, "lerp-color");
  // Inverse and maps.
  float value = r.Chance(.3) ? r.Of({a, b}) : r.Chance(.5) ? gi::Lerp(a, b, r.F(0, 1)) : x, il = gi::InverseLerp(a, b, value);
  if (a == b) VH_REQUIRE(c, il == 0, "inverse-lerp", il);
  else {
    double want = ((double)value - a) / ((double)b - a), tol = 1e-6 * (1 + std::fabs(want)) + 1e-6 * (std::fabs(a) + std::fabs(b) + std::fabs(value)) / std::fabs((double)b - a) * (1 + std::fabs(want));
    VH_REQUIRE(c, std::fabs(il - want) <= tol, "inverse-lerp", il, " want ", want, " for ", value, " in ", a, " to ", b);
    if (value == a) VH_REQUIRE(c, il == 0, "inverse-lerp-start", il);
    if (value == b) VH_REQUIRE(c, il == 1, "inverse-lerp-end", il);
    if (std::min(a, b) <= value && value <= std::max(a, b)) VH_REQUIRE(c, il >= 0 && il <= 1, "inverse-lerp-range", il);
    double o = gi::LinearMap(value, {a, b}, {x, y}), mwant = x + ((double)y - x) * want;
    VH_REQUIRE(c, std::fabs(o - mwant) <= 1e-6 * (std::fabs(x) + std::fabs(y)) * (1 + std::fabs(want)) + tol * std::fabs((double)y - x), "linear-map", o, " want ", mwant);
    if (value == a) VH_REQUIRE(c, o == x, "linear-map-start", o);
  }
  // Angles the short way.
  float ra = r.F(-10, 10), rb = r.Chance(.2) ? ra + r.Of({0.f, (float)kPi, (float)-kPi, 6.2831855f}) : r.F(-10, 10);
  double n = Rad(gi::NormalizedAngleLerp(Angle::Radians(ra), Angle::Radians(rb), t)), d = std::remainder((double)rb - ra, 2 * kPi);
  VH_REQUIRE(c, n >= 0 && n < 2 * kPi, "angle-lerp-range", n, " from ", ra, " to ", rb, " at ", t);
  bool fits = AngDiff(n, ra + d * t) <= 1e-5 * (1 + std::fabs(t)) || (std::fabs(d) > kPi - 1e-5 && AngDiff(n, ra - d * t) <= 1e-5 * (1 + std::fabs(t)));
  VH_REQUIRE(c, fits, "angle-lerp", n, " from ", ra, " to ", rb, " at ", t);
  // Spirals.
  Vec sa{a, x}, sb{b, y}, s = gi::SpiralLerp(sa, sb, t);
  double ma = Len(D(sa)), mb = Len(D(sb)), m = (1 - (double)t) * ma + (double)t * mb;
  double tol = 4e-6 * (ma + mb) * (1 + std::fabs(t));
  VH_REQUIRE(c, std::fabs(Len(D(s)) - std::fabs(m)) <= tol, "spiral-magnitude", s, " from ", sa, " to ", sb, " at ", t);
  if (ma > 0 && mb > 0) {
    double da = std::atan2(sa.y, sa.x), dd = std::atan2(Det(D(sa), D(sb)), Dot(D(sa), D(sb)));
    P want = m * P{std::cos(da + t * dd), std::sin(da + t * dd)}, other = m * P{std::cos(da - t * dd), std::sin(da - t * dd)};
    double slack = tol + 1e-3 * std::fabs(m) * std::fabs(t);  // angles between near parallel vectors lose precision
    VH_REQUIRE(c, Len(D(s) - want) <= slack || (std::fabs(dd) > kPi - 1e-3 && Len(D(s) - other) <= slack + 2e-3 * std::fabs(m * t)), "spiral", s, " want ", want.x, ",", want.y, " from ", sa, " to ", sb, " at ", t);
  }
  if (t == 0) VH_REQUIRE(c, s == sa, "spiral-start", s);
  if (t == 1) VH_REQUIRE(c, s == sb, "spiral-end", s);
  c.Count("interpolations");
  c.Sample("from ", a, " to ", b, " at ", t, ", spiral from ", sa, " to ", sb);
}
struct Rat { double n, d; double V() const { return n / d; } };
void CheckSegments(Ctx& c) {
  Rng& r = c.rng;
  int g = r.Of({2, 4, 30});
  double k = r.Of({1., 1., .25, 64.});
  auto pt = [&] { return Point{(float)(k * r.Int(-g, g)), (float)(k * r.Int(-g, g))}; };
  for (int rep = 0; rep < 6; ++rep) {
    Segment a{pt(), pt()}, b{pt(), pt()};
    if (r.Chance(.1)) b = a;
    if (r.Chance(.1)) a.end = a.start;
    if (r.Chance(.1)) b.end = b.start;
    if (r.Chance(.15)) b.start = a.end;
    if (r.Chance(.15)) { int u = r.Int(-2, 3), w = r.Int(-2, 3); b = {a.start + (float)u * a.Vector(), a.start + (float)w * a.Vector()}; }
    P a0 = D(a.start), a1 = D(a.end), b0 = D(b.start), b1 = D(b.end), u = a1 - a0, v = b1 - b0, w = b0 - a0;
    auto ratio = gi::SegmentIntersectionRatio(a, b);
    auto at = gi::SegmentIntersection(a, b);
    bool meet = SegSeg(a0, a1, b0, b1);
    VH_REQUIRE(c, ratio.has_value() == meet && at.has_value() == meet, "segments-meet", a, " and ", b, " meet: ", meet);
    if (meet) {
      c.Count("meeting_segments");
      double t = 0, s = 0;
      bool pa = u.x == 0 && u.y == 0, pb = v.x == 0 && v.y == 0;
      if (Det(u, v) != 0) t = Det(w, v) / Det(u, v), s = Det(w, u) / Det(u, v);
      else {
        auto on = [](P q, P s0, P dir) { return Dot(q - s0, dir) / Dot(dir, dir); };
        if (!pa) t = std::max(0., std::min(on(b0, a0, u), on(b1, a0, u)));
        if (!pb) s = std::max(0., std::min(on(a0, b0, v), on(a1, b0, v)));
      }
      VH_REQUIRE(c, std::fabs(ratio->first - t) <= 1e-6 && std::fabs(ratio->second - s) <= 1e-6, "segment-ratios", ratio->first, ",", ratio->second, " want ", t, ",", s, " for ", a, " and ", b);
      P want = a0 + t * u;
      VH_REQUIRE(c, Len(D(*at) - want) <= 1e-6 * k * g * 4, "segment-point", *at, " want ", want.x, ",", want.y);
      VH_REQUIRE(c, ratio->first >= 0 && ratio->first <= 1 && ratio->second >= 0 && ratio->second <= 1, "segment-ratio-range", ratio->first, ",", ratio->second);
      c.Sig(t), c.Sig(s);
    }
    auto line = gi::UniqueLineIntersectionRatio(a, b);
    VH_REQUIRE(c, line.has_value() == (Det(u, v) != 0), "lines-meet", a, " and ", b);
    if (line) {
      double t = Det(w, v) / Det(u, v), s = Det(w, u) / Det(u, v);
      VH_REQUIRE(c, std::fabs(line->first - t) <= 1e-6 * (1 + std::fabs(t)) && std::fabs(line->second - s) <= 1e-6 * (1 + std::fabs(s)), "line-ratios", line->first, ",", line->second, " want ", t, ",", s);
    }
    // Projections and barycentric coordinates.
    Point q = pt();
    auto pr = gi::VectorFromPointToSegmentProjection(q, a);
    VH_REQUIRE(c, pr.has_value() == (Dot(u, u) != 0), "projection-exists", q, " on ", a);
    if (pr) {
      P want = a0 + (Dot(D(q) - a0, u) / Dot(u, u)) * u - D(q);
      VH_REQUIRE(c, Len(D(*pr) - want) <= 2e-6 * k * g * 4, "projection", *pr, " want ", want.x, ",", want.y);
    }
    ink::Triangle tri{a.start, a.end, b.start};
    auto bc = gi::GetBarycentricCoordinates(tri, q);
    double area = Det(u, w);
    VH_REQUIRE(c, bc.has_value() == (area != 0), "barycentric-exists", tri);
    if (bc) {
      double want[3] = {Det(a1 - D(q), b0 - D(q)) / area, Det(b0 - D(q), a0 - D(q)) / area, Det(a0 - D(q), a1 - D(q)) / area};
      double big = 1 + std::fabs(want[0]) + std::fabs(want[1]) + std::fabs(want[2]);
      for (int i = 0; i < 3; ++i) VH_REQUIRE(c, std::fabs((*bc)[i] - want[i]) <= 2e-6 * big, "barycentric", i, ": ", (*bc)[i], " want ", want[i], " in ", tri, " at ", q);
    }
  }
}
void CheckCircles(Ctx& c) {
  Rng& r = c.rng;
  auto radius = [&] { return r.Chance(.15) ? 0.f : (float)r.LogReal(1e-3, 1e3); };
  auto center = [&] { return Point{ModerateFloat(r), ModerateFloat(r)}; };
  Point ca = center();
  float ra = radius();
  Circle a(ca, ra), b(r.Chance(.2) ? ca : r.Chance(.5) ? ca + Vec{r.F(-3, 3) * std::max(ra, 1e-3f), r.F(-3, 3) * std::max(ra, 1e-3f)} : center(), r.Chance(.2) ? ra : radius());
  if (r.Chance(.1)) a = Circle();
  VH_REQUIRE(c, CheckFails([&] { Circle bad(ca, -1e-3f); }), "circle-negative-radius");
  double d = Len(D(b.Center()) - D(a.Center())), rA = a.Radius(), rB = b.Radius(), scale = std::fabs(a.Center().x) + std::fabs(a.Center().y) + std::fabs(b.Center().x) + std::fabs(b.Center().y) + rA + rB;
  // Containment.
  double margin = 1e-6 * scale;
  if (rA - rB - d > margin || (d == 0 && rA >= rB)) VH_REQUIRE(c, a.Contains(b), "circle-contains", a.Center(), " ", rA, " and ", b.Center(), " ", rB);
  if (d + rB - rA > margin) VH_REQUIRE(c, !a.Contains(b), "circle-contains-not", a.Center(), " ", rA, " and ", b.Center(), " ", rB);
  VH_REQUIRE(c, a.Contains(a), "circle-contains-itself");
  // Points.
  Angle at = Angle::Radians(r.F(-7, 7));
  P on = D(a.Center()) + rA * P{std::cos(Rad(at)), std::sin(Rad(at))};
  VH_REQUIRE(c, Len(D(a.GetPoint(at)) - on) <= 1e-6 * scale, "circle-point", a.GetPoint(at), " want ", on.x, ",", on.y);
  // Tangents.
  auto tan = a.GetTangentAngles(b);
  bool nested = std::fabs(rA - rB) >= d;
  if (std::fabs(std::fabs(rA - rB) - d) > margin || d == 0) VH_REQUIRE(c, tan.has_value() == !nested, "tangents-exist", tan.has_value(), " for radii ", rA, ",", rB, " at distance ", d);
  if (tan && d > 1e-4 * scale) {
    c.Count("tangents");
    P off = D(b.Center()) - D(a.Center());
    double ref = std::atan2(off.y, off.x), half = std::acos(std::max(-1., std::min(1., (rA - rB) / d)));
    double tol = 1e-5 + 4e-4 * (std::fabs(rA - rB) / d > .999) + 4 * margin / d;
    VH_REQUIRE(c, AngDiff(Rad(tan->left), ref + half) <= tol, "tangent-left", Rad(tan->left), " want ", ref + half, " tolerance ", tol);
    VH_REQUIRE(c, AngDiff(Rad(tan->right), ref - half) <= tol, "tangent-right", Rad(tan->right), " want ", ref - half);
    for (Angle x : {tan->left, tan->right}) VH_REQUIRE(c, Rad(x) > -kPi - 1e-6 && Rad(x) <= kPi + 1e-6, "tangent-range", Rad(x));
    Angle right = a.GuaranteedRightTangentAngle(b);
    if (std::fabs(rA - rB) + margin < d) VH_REQUIRE(c, AngDiff(Rad(right), ref - half) <= tol, "right-tangent", Rad(right), " want ", ref - half);
  }
  // Chords and arcs.
  double h = r.Chance(.15) ? -r.U() : r.LogReal(1e-4, 4) * std::max(1e-3, rA);
  double arc = Rad(a.GetArcAngleForChordHeight((float)h));
  VH_REQUIRE(c, arc >= 0 && arc <= 2 * kPi + 1e-6, "chord-range", arc);
  if (h <= 0 || rA == 0) VH_REQUIRE(c, arc == 0, "chord-zero", arc, " for height ", h);
  else {
    double want = 2 * std::acos(std::max(-1., 1 - h / rA));
    VH_REQUIRE(c, std::fabs(arc - want) <= 1e-4 * want + 1e-3 * (h / rA > 1.99) + 1e-3 * (h / rA < 1e-3), "chord-angle", arc, " want ", want, " for height ", h, " radius ", rA);
  }
  if (h <= 0) { VH_REQUIRE(c, CheckFails([&] { std::vector<Point> none; a.AppendArcToPolyline(at, Angle(), (float)h, none); }), "arc-height-checked", h); h = r.Chance(.3) ? r.LogReal(1e-12, 1e-5) * std::max(1e-3, rA) : r.LogReal(1e-4, 4) * std::max(1e-3, rA); }
  if (r.Chance(.1)) h = r.Of({1., 2., 3.}) * (double)a.Radius();
  if (h <= 0) h = 1;
  std::vector<Point> line(r.Below(3), Point{7, 7});
  size_t before = line.size();
  Angle start = Angle::Radians(r.F(-7, 7)), sweep = Angle::Radians(r.Chance(.2) ? 0 : r.Chance(.2) ? r.Of({(float)kPi, (float)-kPi, 6.2831855f}) : r.F(-7, 7));
  a.AppendArcToPolyline(start, sweep, (float)h, line);
  size_t n = line.size() - before;
  for (size_t i = 0; i < before; ++i) VH_REQUIRE(c, line[i] == (Point{7, 7}), "arc-appends");
  VH_REQUIRE(c, n >= 2, "arc-two-points", (int)n);
  auto is = [&](Point p, double ang, const char* key) { P want = D(a.Center()) + rA * P{std::cos(ang), std::sin(ang)}; VH_REQUIRE(c, Len(D(p) - want) <= 4e-6 * scale, key, p, " want ", want.x, ",", want.y, " of ", (int)n); };
  double s0 = Rad(start), sw = Rad(sweep);
  if (rA == 0) VH_REQUIRE(c, n == 2, "arc-of-point", (int)n);
  else {
    for (size_t i = 0; i < n; i += 1 + n / 50) is(line[before + i], s0 + sw * i / (n - 1), "arc-even");
    is(line[before], s0, "arc-start"), is(line.back(), s0 + sw, "arc-end");
    VH_REQUIRE(c, n <= 32768, "arc-cap", (int)n);
    double step = 2 * std::acos(std::max(-1., std::min(1., 1 - h / rA))), want = std::max(1., std::ceil(std::fabs(sw) / step));
    if (h / rA > 1e-3) {
      double lo = std::max(1., std::ceil(std::fabs(sw) / (step * (1 + 1e-3)) - 1e-6)), hi = std::max(1., std::ceil(std::fabs(sw) / (step * (1 - 1e-3)) + 1e-6));
      VH_REQUIRE(c, n - 1 >= lo && n - 1 <= hi, "arc-count", (int)n, " points, want ", want + 1, " for height ", h, " radius ", rA, " sweep ", sw);
    } else if (n < 32768 && sw != 0) {
      double sag = rA * (1 - std::cos(std::fabs(sw) / (n - 1) / 2));
      VH_REQUIRE(c, sag <= h * 1.3 + 1e-7 * rA, "arc-sagitta", sag, " for height ", h, " radius ", rA, " sweep ", sw, " points ", (int)n);
    } else if (sw == 0) VH_REQUIRE(c, n == 2, "arc-of-no-angle", (int)n);
    // A height of the diameter allows a full turn in one step, one of the radius half a turn.
    if (((float)h >= 2 * a.Radius() && std::fabs(sw) <= (double)6.2831855f) || ((float)h == a.Radius() && std::fabs(sw) <= (double)3.14159274f)) VH_REQUIRE(c, n == 2, "arc-one-step", (int)n, " points for height ", h, " radius ", rA, " sweep ", sw);
    c.Count("arc_points", n), c.Sig((uint64_t)n);
  }
}
VH_PROPERTY(G11) {
  CheckLerps(c);
  CheckSegments(c);
  CheckCircles(c);
  ink::MutableMesh m;
  Poly ps;
  int n = c.rng.Int(0, 6);
  for (int i = 0; i < n; ++i) { Point p{ModerateFloat(c.rng), ModerateFloat(c.rng)}; m.AppendVertex(p); ps.push_back(D(p)); }
  ink::Envelope e = gi::CalculateEnvelope(m);
  VH_REQUIRE(c, e.IsEmpty() == (n == 0), "mesh-envelope-empty");
  if (n) {
    ink::Rect b = *e.AsRect();
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (P p : ps) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
    VH_REQUIRE(c, b.XMin() == x0 && b.XMax() == x1 && b.YMin() == y0 && b.YMax() == y1, "mesh-envelope", b);
  }
  c.NonTrivial();
}

// ---------------------------------------------------------------- G12
// Convex hull by monotone chain; exact on integer coordinates.
Poly Hull(Poly p) {
  std::sort(p.begin(), p.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
  p.erase(std::unique(p.begin(), p.end(), [](P a, P b) { return a.x == b.x && a.y == b.y; }), p.end());
  if (p.size() < 3) return p;
  Poly h;
  for (int pass = 0; pass < 2; ++pass) {
    size_t base = h.size();
    for (P q : p) {
      while (h.size() >= base + 2 && Det(h.back() - h[h.size() - 2], q - h.back()) <= 0) h.pop_back();
      h.push_back(q);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h;
}
void CheckHull(Ctx& c) {
  Rng& r = c.rng;
  bool grid = r.Chance(.7);
  int n = r.Chance(.15) ? r.Int(501, 1200) : r.Chance(.3) ? r.Int(20, 500) : r.Int(0, 12), shape = r.Int(0, 5), g = r.Of({1, 3, 20, 1000});
  float scale = grid ? 1 : (float)r.LogReal(1e-2, 1e3), ox = grid ? (float)r.Int(-5, 5) : r.F(-3, 3) * scale, oy = grid ? (float)r.Int(-5, 5) : r.F(-3, 3) * scale;
  std::vector<Point> in;
  int dx = r.Int(-3, 3), dy = r.Int(-3, 3);
  for (int i = 0; i < n; ++i) {
    double x, y;
    if (shape == 0) { double a = r.F(0, 6.3f); x = g * std::cos(a), y = g * std::sin(a); }
    else if (shape == 1) { int k = r.Int(-g, g); x = dx * k, y = dy * k; if (n > 3 && r.Chance(.02)) ++x; }
    else if (shape == 2) { x = r.Int(0, 1) * g, y = r.F(0, 1) * g; if (r.Chance(.5)) std::swap(x, y); }
    else x = r.F((float)-g, (float)g), y = r.F((float)-g, (float)g);
    if (grid) x = std::round(x), y = std::round(y);
    in.push_back({(float)(x * scale) + ox, (float)(y * scale) + oy});
    if (r.Chance(.05)) in.push_back(in[r.Below(in.size())]);
  }
  std::vector<Point> hull = ink::ConvexHull(in);
  auto show = [&] { std::string t; for (Point p : hull) t += Cat("(", p.x, ",", p.y, ")"); if (in.size() < 13) { t += " of "; for (Point p : in) t += Cat("(", p.x, ",", p.y, ")"); } return t; };
  Poly h, all;
  for (Point p : hull) h.push_back(D(p));
  for (Point p : in) all.push_back(D(p));
  for (Point p : hull) VH_REQUIRE(c, std::find(in.begin(), in.end(), p) != in.end(), "hull-vertex-not-input", p);
  if (grid && n > 1) {
    Poly want = Hull(all);
    VH_REQUIRE(c, h.size() == want.size(), "hull-size", (int)h.size(), " want ", (int)want.size(), " of ", (int)in.size(), " points: ", show());
    size_t k = 0;
    while (k < want.size() && !(want[k].x == h[0].x && want[k].y == h[0].y)) ++k;
    VH_REQUIRE(c, k < want.size(), "hull-vertex", show());
    for (size_t i = 0; i < h.size(); ++i) { P w = want[(k + i) % want.size()]; VH_REQUIRE(c, w.x == h[i].x && w.y == h[i].y, "hull-order", (int)i, ": ", w.x, ",", w.y, " in ", show()); }
  } else if (n > 1) {
    double tol = 2e-6 * (g * scale + std::fabs(ox) + std::fabs(oy));
    for (size_t i = 0; h.size() > 2 && i < h.size(); ++i) {
      P a = h[i], b = h[(i + 1) % h.size()];
      double len = Len(b - a);
      VH_REQUIRE(c, len > 0, "hull-repeats", show());
      for (P q : all) VH_REQUIRE(c, Det(b - a, q - a) / len >= -tol, "hull-point-outside", q.x, ",", q.y, " by ", -Det(b - a, q - a) / len, " of ", (int)in.size());
    }
    if (h.size() == 2) for (P q : all) VH_REQUIRE(c, PtSeg(q, h[0], h[1]) <= tol, "hull-point-outside", q.x, ",", q.y);
    if (h.size() == 1) for (P q : all) VH_REQUIRE(c, Len(q - h[0]) <= tol, "hull-point-outside", q.x, ",", q.y);
    VH_REQUIRE(c, !h.empty(), "hull-empty");
  } else VH_REQUIRE(c, in.size() > 1 || hull == in, "hull-of-few");
  c.Count("hulls"), c.Count("hull_vertices", hull.size()), c.Count("pruned_hulls", in.size() > 500), c.Sig((uint64_t)hull.size());
  c.Sample("hull with ", (int)hull.size(), " of ", (int)in.size(), " points, shape ", shape, grid ? " on a grid" : "");
}
// What the header documents about cleaning up a drawn outline, in double precision.
struct Cleaner {
  const Poly& p;
  bool exact;  // coordinates are small integers
  double min_walk, max_dist, min_ratio, min_trim, scale;
  bool ambiguous = false;
  std::vector<double> walk{};  // from the start to each point
  bool Less(double a, double b) { if (std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b))) ambiguous = true; return a < b; }
  // The position along segment i of its first (sign 1) or last (sign -1) crossing with segment j.
  std::optional<double> Cross(int i, int j) {
    P a = p[i], u = p[i + 1] - a, b = p[j], v = p[j + 1] - b, w = b - a;
    double d = Det(u, v);
    if (exact) {
      if (!SegSeg(a, p[i + 1], b, p[j + 1])) return std::nullopt;
      if (d == 0) {  // overlapping or touching in line
        double t0 = Dot(w, u) / Dot(u, u), t1 = Dot(w + v, u) / Dot(u, u), lo = std::max(0., std::min(t0, t1)), hi = std::min(1., std::max(t0, t1));
        if (hi > lo) ambiguous = true;
        return lo;
      }
      return Det(w, v) / d;
    }
    if (PolyDist({a, p[i + 1]}, {b, p[j + 1]}) > 1e-5 * scale) return std::nullopt;
    if (std::fabs(d) <= 1e-3 * Len(u) * Len(v)) { ambiguous = true; return std::nullopt; }
    double t = Det(w, v) / d, s = Det(w, u) / d, et = 1e-4 * scale / Len(u), es = 1e-4 * scale / Len(v);
    if (t < et || t > 1 - et || s < es || s > 1 - es) ambiguous = true;
    return t < 0 || t > 1 || s < 0 || s > 1 ? std::nullopt : std::optional(t);
  }
  struct At { int i = 0; double f = 0; };
  P Pos(At a) { return p[a.i] + a.f * (p[a.i + 1] - p[a.i]); }
  double Walk(At a, bool back) { double w = walk[a.i] + a.f * (walk[a.i + 1] - walk[a.i]); return back ? walk.back() - w : w; }
  bool Run(Poly& out) {
    int n = (int)p.size() - 1;
    walk = {0};
    for (int i = 0; i < n; ++i) walk.push_back(walk[i] + Len(p[i + 1] - p[i]));
    At first, last;
    bool crossed = false, con[2] = {false, false};
    for (int i = 0; i < n && !crossed; ++i)
      for (int j = i + 2; j < n; ++j)
        if (auto t = Cross(i, j); t && (!crossed || *t < first.f)) crossed = true, first = {i, *t};
    bool found = false;
    for (int i = n - 1; crossed && i >= 0 && !found; --i)
      for (int j = i - 2; j >= 0; --j)
        if (auto t = Cross(i, j); t && (!found || *t > last.f)) found = true, last = {i, *t};
    At to[2];
    for (int end = 0; end < 2; ++end) {
      P q = end ? p.back() : p[0];
      double best = 1e300, limit = crossed ? Walk(end ? last : first, end) : 0;
      for (int i = 0; i < n; ++i) {
        if (end ? i >= n - 2 : i <= 1) continue;
        P u = p[i + 1] - p[i];
        double f = std::max(0., std::min(1., Dot(q - p[i], u) / Dot(u, u))), d = Len(p[i] + f * u - q), w = Walk({i, f}, end);
        if (d > max_dist * 1.001) continue;
        bool was = ambiguous;
        ambiguous = false;
        bool ok = Less(d, max_dist);
        if (ok) { ok = !Less(w, min_walk); if (ok) ok = !(Less(w, min_ratio * d) && d > 0); if (ok && crossed) ok = !(Less(limit, min_trim * d) && d > 0); }
        ambiguous |= was;
        if (!ok) continue;
        if (best < 1e300 && std::fabs(d - best) <= 1e-5 * (d + best) + 1e-6 * scale && Len(Pos({i, f}) - Pos(to[end])) > 1e-6 * scale) ambiguous = true;
        if (d < best) best = d, to[end] = {i, f}, con[end] = true;
      }
    }
    bool any = crossed || con[0] || con[1];
    if (!any) { out = p; return false; }
    // Trim to the outermost crossing, old or made by the new connection of the other end.
    auto before = [](At a, At b) { return a.i < b.i || (a.i == b.i && a.f < b.f); };
    if (con[0] && !con[1] && (!crossed || before(last, to[0]))) last = to[0];
    if (con[1] && !con[0] && (!crossed || before(to[1], first))) first = to[1];
    out.clear();
    out.push_back(con[0] ? Pos(to[0]) : Pos(first));
    for (int i = con[0] ? 0 : first.i + 1; i <= (con[1] ? n : last.i); ++i) out.push_back(p[i]);
    out.push_back(con[1] ? Pos(to[1]) : Pos(last));
    return true;
  }
};
std::vector<Point> DrawnLine(Rng& r, bool exact) {
  std::vector<Point> in;
  int n = r.Chance(.1) ? r.Int(0, 3) : r.Int(3, 30), shape = r.Int(0, 3);
  if (exact || shape == 0) {
    int g = r.Of({3, 8, 40});
    for (int i = 0; i < n; ++i) in.push_back(exact ? Point{(float)r.Int(-g, g), (float)r.Int(-g, g)} : Point{r.F((float)-g, (float)g), r.F((float)-g, (float)g)});
  } else {
    double radius = r.LogReal(1, 100), a0 = r.F(0, 6.3f), sweep = r.F(4, 8) * r.Of({1, -1}), wobble = r.Of({0., .02, .2});
    for (int i = 0; i < n; ++i) {
      double a = a0 + sweep * i / std::max(1, n - 1), q = radius * (1 + (shape == 1 ? 0. : .3 * std::sin(3 * a)) + r.F(-1, 1) * wobble + (shape == 3 ? .1 * i / n : 0));
      in.push_back({(float)(q * std::cos(a)), (float)(q * std::sin(a))});
    }
  }
  if (n > 2 && r.Chance(.15)) in.push_back(in[0]);
  if (n > 2 && r.Chance(.2)) for (int k = r.Int(1, 3); k > 0; --k) { size_t i = r.Chance(.4) ? r.Of<size_t>({0, in.size() - 1}) : r.Below(in.size()); in.insert(in.begin() + i, in[i]); }
  return in;
}
void CheckPolyline(Ctx& c) {
  Rng& r = c.rng;
  bool exact = r.Chance(.35);
  std::vector<Point> in = DrawnLine(r, exact);
  double scale = 1e-3;
  for (Point p : in) scale = std::max<double>(scale, std::fabs(p.x) + std::fabs(p.y));
  float walk = r.Chance(.3) ? 0 : (float)(r.F(0, 2) * scale), dist = r.Chance(.1) ? 0 : (float)(r.F(0, .8f) * scale), ratio = r.Of({0.f, 1.f, 1.7f, 4.f}), trim = r.Of({0.f, .5f, 1.7f, 6.f});
  std::vector<Point> out = gi::ProcessPolylineForMeshCreation(in, walk, dist, ratio, trim);
  Poly p, want;
  for (Point q : in) if (p.empty() || p.back().x != q.x || p.back().y != q.y) p.push_back(D(q));
  auto show = [&] { std::string t = Cat(" walk ", walk, " distance ", dist, " ratio ", ratio, " trim ", trim, " got"); for (Point q : out) t += Cat("(", q.x, ",", q.y, ")"); t += " of "; for (Point q : in) t += Cat("(", q.x, ",", q.y, ")"); return t; };
  for (size_t i = 1; i + 1 < out.size(); ++i) VH_REQUIRE(c, std::find(in.begin(), in.end(), out[i]) != in.end(), "polyline-point-not-input", (int)i, show());
  if (p.size() < 2) { VH_REQUIRE(c, out == in, "polyline-few-points", show()); return; }
  Cleaner k{p, exact, walk, dist, ratio, trim, scale};
  bool changed = k.Run(want);
  if (k.ambiguous) { c.Count("undecided_polylines"); return; }
  if (!changed) { VH_REQUIRE(c, out == in, "polyline-unchanged", show()); c.Count("unchanged_polylines"); return; }
  c.Count("changed_polylines");
  if (p.size() == in.size()) for (size_t i = 1; i < out.size(); ++i) VH_REQUIRE(c, out[i] != out[i - 1], "polyline-point-repeated", (int)i, show());
  double tol = 2e-5 * scale;
  auto thin = [&](const Poly& q) { Poly t; for (P x : q) if (t.empty() || Len(x - t.back()) > 2 * tol) t.push_back(x); return t; };
  Poly got;
  for (Point q : out) got.push_back(D(q));
  Poly a = thin(got), b = thin(want);
  bool same = a.size() == b.size();
  for (size_t i = 0; same && i < a.size(); ++i) same = Len(a[i] - b[i]) <= 4 * tol;
  VH_REQUIRE(c, same, "polyline", "want ", Show(want), show());
  c.Sig((uint64_t)out.size());
}
int Winding(P q, const Poly& p) {
  int w = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    P a = p[i], b = p[(i + 1) % p.size()];
    if (a.y <= q.y && b.y > q.y && Det(b - a, q - a) > 0) ++w;
    if (a.y > q.y && b.y <= q.y && Det(b - a, q - a) < 0) --w;
  }
  return w;
}
void CheckFill(Ctx& c) {
  Rng& r = c.rng;
  std::vector<Point> in = DrawnLine(r, r.Chance(.4));
  if (r.Chance(.1)) { int dx = r.Int(-3, 3), dy = r.Int(-3, 3); for (Point& p : in) { int k = r.Int(-9, 9); p = {(float)(dx * k), (float)(dy * k)}; } }
  auto mesh = ink::CreateMeshFromPolyline(in);
  Poly p;
  for (Point q : in) p.push_back(D(q));
  auto show = [&] { return Show(p); };
  if (in.size() < 3 || Hull(p).size() < 3) { VH_REQUIRE(c, !mesh.ok(), "fill-degenerate", show()); VH_REQUIRE(c, in.size() >= 3 || mesh.status().code() == absl::StatusCode::kInvalidArgument, "fill-few-points-status", mesh.status().ToString()); c.Count("refused_fills"); return; }
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
  for (P q : p) x0 = std::min(x0, q.x), x1 = std::max(x1, q.x), y0 = std::min(y0, q.y), y1 = std::max(y1, q.y);
  double size = (x1 - x0) + (y1 - y0), margin = 2e-4 * size;
  std::vector<Poly> tris;
  if (mesh.ok()) {
    VH_REQUIRE(c, mesh->TriangleCount() > 0 && mesh->VertexCount() >= 3, "fill-empty", show());
    VH_REQUIRE(c, mesh->Format() == ink::MeshFormat(), "fill-format");
    for (uint32_t i = 0; i < mesh->TriangleCount(); ++i) {
      ink::Triangle t = mesh->GetTriangle(i);
      tris.push_back(PolyOf(t));
      for (P q : tris.back()) VH_REQUIRE(c, q.x >= x0 - margin && q.x <= x1 + margin && q.y >= y0 - margin && q.y <= y1 + margin, "fill-outside", t, " for ", show());
    }
  }
  for (int i = 0; i < 40; ++i) {
    P q{x0 + r.U() * (x1 - x0), y0 + r.U() * (y1 - y0)};
    bool near = false;
    for (size_t k = 0; !near && k < p.size(); ++k) near = PtSeg(q, p[k], p[(k + 1) % p.size()]) <= margin;
    if (near) continue;
    int w = Winding(q, p), n = 0;
    c.Count(w ? "points_inside" : "points_outside");
    if (w) VH_REQUIRE(c, mesh.ok(), "fill-refused", mesh.status().ToString(), " for ", show());
    for (const Poly& t : tris) {
      if (!InPoly(q, t)) continue;
      bool edge = false;
      for (int k = 0; k < 3; ++k) edge |= PtSeg(q, t[k], t[(k + 1) % 3]) <= margin;
      n = edge ? 1000 : n + 1;
      if (edge) break;
    }
    if (w) VH_REQUIRE(c, n > 0, "fill-gap", q.x, ",", q.y, " winding ", w, " in ", show());
    if (n < 1000) VH_REQUIRE(c, n == (w != 0), "fill-count", q.x, ",", q.y, " is in ", n, " triangles, winding ", w, " in ", show());
  }
  c.Count("fills"), c.Sig((uint64_t)tris.size());
}
VH_PROPERTY(G12) {
  CheckHull(c);
  for (int i = 0; i < 3; ++i) CheckPolyline(c);
  CheckFill(c);
    c.NonTrivial();
}
}  // namespace
}  // namespace vh
