// G01 angles, vectors, points, segments; G02 rects and envelopes; G03 transforms and quads;
// G04 intersection; G05 distance.
#include "vh_main.h"
#include "geo.h"
#include "absl/hash/hash.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/intersects_internal.h"
#include "ink/geometry/intersects.h"
using namespace vh;
using namespace ink;

// ---------------------------------------------------------------- G01
namespace {
const double kPi = 3.14159265358979323846;
// 2*pi as the library represents it, so that reduction can be checked in double.
const double kTau = (double)(float)(2 * kPi);
Vec AnyVec(Rng& r) {
  switch (r.Below(4)) {
    case 0: return {AnyFloat(r), AnyFloat(r)};
    case 1: { float s = (float)r.LogReal(1e-44, 1e38), a = r.F(-3.2, 3.2); return {s * std::cos(a), s * std::sin(a)}; }
    default: return {ModerateFloat(r), ModerateFloat(r)};
  }
}
bool Fin(Vec v) { return std::isfinite(v.x) && std::isfinite(v.y); }
}  // namespace
VH_PROPERTY(G01) {
  Rng& r = c.rng;
  // Normalization.
  float rad = r.Chance(.3) ? (float)(r.Int(-12, 12) * kPi / 4) : AnyFloat(r);
  if (r.Chance(.3)) rad = std::nextafter(rad, r.Chance(.5) ? kInf : -kInf);
  Angle a = Angle::Radians(rad);
  VH_REQUIRE(c, SameF(a.ValueInRadians(), rad), "angle-radians", rad);
  float n = a.Normalized().ValueInRadians(), z = a.NormalizedAboutZero().ValueInRadians();
  if (std::isfinite(rad)) {
    VH_REQUIRE(c, n >= 0 && n < (float)kTau, "angle-normalized-range", rad, " -> ", n);
    VH_REQUIRE(c, z > -(float)kPi && z <= (float)kPi, "angle-about-zero-range", rad, " -> ", z);
    for (float v : {n, z}) {  // same angle modulo a full turn
      double k = std::remainder(std::fmod((double)rad, kTau) - v, kTau);
      VH_REQUIRE(c, std::fabs(k) <= 6e-7, "angle-normalized-equivalent", rad, " -> ", v, " off by ", k);
    }
    if (rad >= 0 && rad < (float)kTau) VH_REQUIRE(c, n == rad, "angle-normalized-identity", rad, " -> ", n);
    if (rad > -(float)kPi && rad <= (float)kPi) VH_REQUIRE(c, z == rad, "angle-about-zero-identity", rad, " -> ", z);
    VH_REQUIRE(c, Angle::Radians(n).Normalized().ValueInRadians() == n && Angle::Radians(z).NormalizedAboutZero().ValueInRadians() == z, "angle-normalize-idempotent", rad);
    c.Count("angles normalized");
  }
  float deg = ModerateFloat(r);
  VH_REQUIRE(c, std::fabs(Angle::Degrees(deg).ValueInRadians() - deg * kPi / 180) <= 4e-7 * std::fabs(deg * kPi / 180) && std::fabs(Angle::Degrees(deg).ValueInDegrees() - deg) <= 4e-7 * std::fabs(deg), "angle-degrees", deg);
  {
    float y = ModerateFloat(r), k = ModerateFloat(r), x = ModerateFloat(r);
    Angle p = Angle::Radians(x), q = Angle::Radians(y), t = p;
    VH_REQUIRE(c, (p + q).ValueInRadians() == x + y && (p - q).ValueInRadians() == x - y && (-p).ValueInRadians() == -x && (p * k).ValueInRadians() == x * k && (k * p).ValueInRadians() == x * k && Abs(p).ValueInRadians() == std::fabs(x), "angle-arith", x, " ", y, " ", k);
    t += q; VH_REQUIRE(c, t == p + q, "angle-arith", "+="); t = p; t -= q; VH_REQUIRE(c, t == p - q, "angle-arith", "-="); t = p; t *= k; VH_REQUIRE(c, t == p * k, "angle-arith", "*=");
    if (k != 0) { t = p; t /= k; VH_REQUIRE(c, t == p / k && t.ValueInRadians() == x / k, "angle-arith", "/="); }
    if (y != 0) VH_REQUIRE(c, p / q == x / y && Mod(p, q).ValueInRadians() == std::fmod(x, y), "angle-arith", "ratio");
    VH_REQUIRE(c, (p == q) == (x == y) && (p != q) == (x != y) && (p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y) && Min(p, q).ValueInRadians() == std::min(x, y) && Max(p, q).ValueInRadians() == std::max(x, y), "angle-order", x, " ", y);
    VH_REQUIRE(c, std::fabs(Sin(p) - std::sin((double)x)) < 2e-7 && std::fabs(Cos(p) - std::cos((double)x)) < 2e-7, "angle-trig", x);
    float u = r.F(-1, 1);
    VH_REQUIRE(c, std::fabs(Asin(u).ValueInRadians() - std::asin((double)u)) < 3e-7 && std::fabs(Acos(u).ValueInRadians() - std::acos((double)u)) < 5e-7 && std::fabs(Atan(x).ValueInRadians() - std::atan((double)x)) < 3e-7, "angle-arc", u);
  }
  // Vectors.
  Vec v = AnyVec(r), w = AnyVec(r);
  c.Sample("angle ", rad, " vectors (", v.x, ",", v.y, ") (", w.x, ",", w.y, ")");
  if (!std::isnan(v.x) && !std::isnan(v.y)) {
    Vec u = v.AsUnitVec();
    VH_REQUIRE(c, std::fabs(std::hypot((double)u.x, (double)u.y) - 1) <= 1e-6, "unit-vec-length", v, " -> ", u);
    double dir = std::atan2((double)v.y, (double)v.x), ud = std::atan2((double)u.y, (double)u.x);
    VH_REQUIRE(c, std::fabs(std::remainder(dir - ud, 2 * kPi)) <= 1e-6, "unit-vec-direction", v, " -> ", u);
    VH_REQUIRE(c, std::signbit(u.x) == std::signbit(v.x) && std::signbit(u.y) == std::signbit(v.y), "unit-vec-signs", v, " -> ", u);
    float d = v.Direction().ValueInRadians();
    VH_REQUIRE(c, std::fabs(d - dir) <= 4e-7 && std::fabs(d) <= (float)kPi && std::signbit(d) == std::signbit(v.y), "vec-direction", v, " -> ", d);
    double m = std::hypot((double)v.x, (double)v.y);
    if (m < 3e38) VH_REQUIRE(c, std::fabs(v.Magnitude() - m) <= 3e-7 * m + 2e-45, "vec-magnitude", v, " -> ", v.Magnitude());
    c.Count("unit vectors");
    if (!std::isnan(w.x) && !std::isnan(w.y)) {
      float ab = Vec::AbsoluteAngleBetween(v, w).ValueInRadians(), sa = Vec::SignedAngleBetween(v, w).ValueInRadians();
      double want = std::remainder(std::atan2((double)w.y, (double)w.x) - dir, 2 * kPi);
      VH_REQUIRE(c, ab >= 0 && ab <= (float)kPi, "absolute-angle-range", v, " ", w, " -> ", ab);
      VH_REQUIRE(c, sa > -(float)kPi && sa <= (float)kPi, "signed-angle-range", v, " ", w, " -> ", sa);
      VH_REQUIRE(c, std::fabs(ab - std::fabs(want)) <= 8e-4, "absolute-angle", v, " ", w, " -> ", ab, " want ", want);
      VH_REQUIRE(c, std::fabs(std::remainder(sa - want, 2 * kPi)) <= 8e-4, "signed-angle", v, " ", w, " -> ", sa, " want ", want);
      c.Count("angles between");
    }
  } else {
    VH_REQUIRE(c, std::isnan(v.AsUnitVec().x) && std::isnan(v.AsUnitVec().y) && std::isnan(v.Direction().ValueInRadians()) && std::isnan(Vec::AbsoluteAngleBetween(v, w).ValueInRadians()) && std::isnan(Vec::SignedAngleBetween(w, v).ValueInRadians()), "vec-nan", v, " ", w);
  }
  if (!c.nontrivial && Fin(v)) {
    Vec o = v.Orthogonal();
    VH_REQUIRE(c, o.x == -v.y && o.y == v.x, "vec-orthogonal", v);
    float k = ModerateFloat(r);
    VH_REQUIRE(c, v * k == (Vec{v.x * k, v.y * k}) && k * v == v * k && -v == (Vec{-v.x, -v.y}), "vec-scale", v, " ", k);
    Vec t = v; t *= k; VH_REQUIRE(c, t == v * k, "vec-scale", v, " ", k);
    if (k != 0) { VH_REQUIRE(c, v / k == (Vec{v.x / k, v.y / k}), "vec-div", v, " ", k); t = v; t /= k; VH_REQUIRE(c, t == v / k, "vec-div", v); }
    else VH_REQUIRE(c, CheckFails([&] { (void)(v / k); }), "vec-div-zero", v);
  }
  // Points and vectors agree.
  {
    Point p{ModerateFloat(r), ModerateFloat(r)}, q{ModerateFloat(r), ModerateFloat(r)};
    Vec d{ModerateFloat(r), ModerateFloat(r)}, e{ModerateFloat(r), ModerateFloat(r)};
    VH_REQUIRE(c, q - p == (Vec{q.x - p.x, q.y - p.y}) && p + d == (Point{p.x + d.x, p.y + d.y}) && d + p == p + d && p - d == (Point{p.x - d.x, p.y - d.y}) && d + e == (Vec{d.x + e.x, d.y + e.y}) && d - e == (Vec{d.x - e.x, d.y - e.y}), "point-arith", p, " ", q, " ", d);
    Point t = p; t += d; VH_REQUIRE(c, t == p + d, "point-arith", "+="); t = p; t -= d; VH_REQUIRE(c, t == p - d, "point-arith", "-=");
    Vec s = d; s += e; VH_REQUIRE(c, s == d + e, "vec-arith", "+="); s = d; s -= e; VH_REQUIRE(c, s == d - e, "vec-arith", "-=");
    VH_REQUIRE(c, p.Offset() == (Vec{p.x, p.y}) && (p == q) == (p.x == q.x && p.y == q.y) && (p != q) == !(p == q) && (d == e) == (d.x == e.x && d.y == e.y) && (d != e) == !(d == e), "point-equality", p, " ", q);
    double sc = Len(D(d)) * Len(D(e));
    VH_REQUIRE(c, std::fabs(Vec::DotProduct(d, e) - Dot(D(d), D(e))) <= 4e-7 * sc && std::fabs(Vec::Determinant(d, e) - Det(D(d), D(e))) <= 4e-7 * sc && std::fabs(d.MagnitudeSquared() - Dot(D(d), D(d))) <= 4e-7 * Dot(D(d), D(d)), "vec-products", d, " ", e);
    float mag = r.F(0, 100); Angle dir = Angle::Radians(r.F(-10, 10));
    VH_REQUIRE(c, Len(D(Vec::FromDirectionAndMagnitude(dir, mag)) - mag * P{std::cos((double)dir.ValueInRadians()), std::sin((double)dir.ValueInRadians())}) <= 1e-6 * mag, "vec-from-direction", dir.ValueInRadians(), " ", mag);
    VH_REQUIRE(c, !(p == q) || absl::Hash<Point>()(p) == absl::Hash<Point>()(q), "point-hash", p);
    { Point pc = p; VH_REQUIRE(c, absl::Hash<Point>()(p) == absl::Hash<Point>()(pc), "point-hash", p); Vec dc = d; VH_REQUIRE(c, absl::Hash<Vec>()(d) == absl::Hash<Vec>()(dc), "vec-hash", d); }
    // Segments.
    if (r.Chance(.05)) q = p;
    if (r.Chance(.05)) { float tiny = (float)r.LogReal(1e-30, 1e-15); p = {tiny * r.Int(-3, 3), tiny * r.Int(-3, 3)}; q = {tiny * r.Int(-3, 3), tiny * r.Int(-3, 3)}; }
    Segment sg{p, q};
    double L = Len(D(q) - D(p)), big = Len(D(p)) + Len(D(q));
    VH_REQUIRE(c, std::fabs(sg.Length() - L) <= 4e-7 * big && sg.Vector() == q - p, "segment-length", sg);
    float k = r.Chance(.3) ? r.Of({0.f, 1.f, .5f}) : r.F(-1, 2);
    P lp = D(p) + (double)k * (D(q) - D(p));
    VH_REQUIRE(c, Len(D(sg.Lerp(k)) - lp) <= 1e-6 * big * (1 + std::fabs(k)), "segment-lerp", sg, " ", k);
    VH_REQUIRE(c, sg.Lerp(0) == p && sg.Lerp(1) == q && Len(D(sg.Midpoint()) - .5 * (D(p) + D(q))) <= 4e-7 * big, "segment-ends", sg);
    Point far{(float)(kMax * r.F(-1, 1)), kMax}, far2{kMax, (float)(kMax * r.F(-1, 1))};
    Point lf = Segment{far, far2}.Lerp(r.F(0, 1)), mf = Segment{far, far2}.Midpoint();
    VH_REQUIRE(c, std::isfinite(lf.x) && std::isfinite(lf.y) && std::isfinite(mf.x) && std::isfinite(mf.y), "segment-overflow", far, " ", far2);
    Point x{ModerateFloat(r), ModerateFloat(r)};
    auto pr = sg.Project(x);
    VH_REQUIRE(c, pr.has_value() == (sg.Vector().MagnitudeSquared() > 0), "segment-project-degenerate", sg);
    if (pr && L > 1e-3 * big && L > 1e-15) {
      double want = Dot(D(x) - D(p), D(q) - D(p)) / (L * L);
      VH_REQUIRE(c, std::fabs(*pr - want) <= 1e-5 * (big + Len(D(x))) / L * (1 + std::fabs(want)), "segment-project", sg, " ", x, " -> ", *pr, " want ", want);
    }
    // Triangles.
    Triangle tr{p, q, x};
    double area = .5 * Det(D(q) - D(p), D(x) - D(q)), bb = big + Len(D(x));
    VH_REQUIRE(c, std::fabs(tr.SignedArea() - area) <= 1e-6 * bb * bb + 1e-44, "triangle-area", tr);
    Triangle tq = tr;
    if (r.Chance(.8)) r.Of({&tq.p0, &tq.p1, &tq.p2}) [0] = r.Of({p, q, x, Point{p.x, q.y}, Point{q.x, p.y}});
    bool same = tq.p0 == tr.p0 && tq.p1 == tr.p1 && tq.p2 == tr.p2;
    VH_REQUIRE(c, (tr == tq) == same && (tr != tq) == !same && tr == tr, "triangle-equality", tr, " ", tq);
    Segment s2{r.Chance(.5) ? p : x, r.Chance(.5) ? q : x};
    same = s2.start == p && s2.end == q;
    VH_REQUIRE(c, (sg == s2) == same && (sg != s2) == !same, "segment-equality", sg, " ", s2);
    VH_REQUIRE(c, tr.GetEdge(0) == (Segment{p, q}) && tr.GetEdge(1) == (Segment{q, x}) && tr.GetEdge(2) == (Segment{x, p}) && CheckFails([&] { tr.GetEdge(3); }) && CheckFails([&] { tr.GetEdge(-1); }), "triangle-edge", tr);
    c.Sig(p.x); c.Sig(q.y);
  }
  c.Sig(rad); c.Sig(v.x); c.Sig(v.y);
  c.NonTrivial();
}

// ---------------------------------------------------------------- G02
namespace {
struct RM { double x0, y0, x1, y1; };  // model of a Rect
}  // namespace
VH_PROPERTY(G02) {
  Rng& r = c.rng;
  const bool grid = r.Chance(.5);
  auto co = [&] { return grid ? (float)r.Int(-16, 16) : ModerateFloat(r); };
  auto pt = [&] { Point p; p.x = co(); p.y = co(); return p; };
  Point a = pt(), b = pt();
  Rect q = Rect::FromTwoPoints(a, b);
  VH_REQUIRE(c, q.XMin() == std::min(a.x, b.x) && q.XMax() == std::max(a.x, b.x) && q.YMin() == std::min(a.y, b.y) && q.YMax() == std::max(a.y, b.y), "rect-two-points", a, " ", b);
  RM m{q.XMin(), q.YMin(), q.XMax(), q.YMax()};
  double mag = 1;
  std::string trace = Cat(q);
  int ops = r.Int(2, 12);
  auto near = [&](double got, double want) { return std::fabs(got - want) <= 4e-6 * mag; };
  for (int i = 0; i < ops; ++i) {
    mag = std::max({mag, std::fabs(m.x0), std::fabs(m.x1), std::fabs(m.y0), std::fabs(m.y1)});
    int op = r.Int(0, 17);
    float x = co(), y = co();
    mag = std::max({mag, (double)std::fabs(x), (double)std::fabs(y)});
    double W = m.x1 - m.x0, H = m.y1 - m.y0, cx = (m.x0 + m.x1) / 2, cy = (m.y0 + m.y1) / 2;
    Rect before = q;
    auto wh = [&](double w, double h) { m = {cx - w / 2, cy - h / 2, cx + w / 2, cy + h / 2}; };
    switch (op) {
      case 0: { Point p{x, y}; q.Join(p); m = {std::min(m.x0, (double)x), std::min(m.y0, (double)y), std::max(m.x1, (double)x), std::max(m.y1, (double)y)}; VH_REQUIRE(c, q.Contains(p) && q.Contains(before), "rect-join-contains", before, " ", p); VH_REQUIRE(c, before.Contains(p) ? q.XMin() == before.XMin() && q.XMax() == before.XMax() && q.YMin() == before.YMin() && q.YMax() == before.YMax() : true, "rect-join-minimal", before, p); break; }
      case 1: { Rect o = Rect::FromTwoPoints(pt(), pt()); q.Join(o); m = {std::min(m.x0, (double)o.XMin()), std::min(m.y0, (double)o.YMin()), std::max(m.x1, (double)o.XMax()), std::max(m.y1, (double)o.YMax())}; VH_REQUIRE(c, q.Contains(o) && q.Contains(before), "rect-join-contains", before, " ", o); mag = std::max({mag, std::fabs(m.x0), std::fabs(m.x1), std::fabs(m.y0), std::fabs(m.y1)}); break; }
      case 2: case 3: {
        float h = x, v = op == 2 ? x : y;
        if (op == 2) q.Offset(h); else q.Offset(h, v);
        m = {m.x0 - h, m.y0 - v, m.x1 + h, m.y1 + v};
        if (m.x1 < m.x0) m.x0 = m.x1 = cx;
        if (m.y1 < m.y0) m.y0 = m.y1 = cy;
        break;
      }
      case 4: case 5: {
        float h = std::fabs(x) > 50 ? 2 : x, v = op == 4 ? h : std::fabs(y) > 50 ? .5f : y;
        if (h < 0 || v < 0) { VH_REQUIRE(c, CheckFails([&] { Rect t = q; if (op == 4) t.Scale(h); else t.Scale(h, v); }), "rect-scale-negative", h, " ", v); break; }
        if (op == 4) q.Scale(h); else q.Scale(h, v);
        wh(W * h, H * v); break;
      }
      case 6: q.Translate({x, y}); m = {m.x0 + x, m.y0 + y, m.x1 + x, m.y1 + y}; break;
      case 7: if (x < 0) { VH_REQUIRE(c, CheckFails([&] { Rect t = q; t.SetWidth(x); }), "rect-negative-width", x); break; } q.SetWidth(x); wh(x, H); break;
      case 8: if (x < 0) { VH_REQUIRE(c, CheckFails([&] { Rect t = q; t.SetHeight(x); }), "rect-negative-height", x); break; } q.SetHeight(x); wh(W, x); break;
      case 9: q.SetCenter({x, y}); cx = x; cy = y; wh(W, H); break;
      case 10: q.ResizeSettingXMinTo(x); m.x0 = x; m.x1 = std::max(m.x1, m.x0); VH_REQUIRE(c, q.XMin() == x, "rect-resize-exact", x); break;
      case 11: q.ResizeSettingYMinTo(x); m.y0 = x; m.y1 = std::max(m.y1, m.y0); VH_REQUIRE(c, q.YMin() == x, "rect-resize-exact", x); break;
      case 12: q.ResizeSettingXMaxTo(x); m.x1 = x; m.x0 = std::min(m.x1, m.x0); VH_REQUIRE(c, q.XMax() == x, "rect-resize-exact", x); break;
      case 13: q.ResizeSettingYMaxTo(x); m.y1 = x; m.y0 = std::min(m.y1, m.y0); VH_REQUIRE(c, q.YMax() == x, "rect-resize-exact", x); break;
      case 14: { double t; switch (r.Below(4)) {
          case 0: q.TranslateSettingXMinTo(x); t = x - m.x0; m.x0 += t; m.x1 += t; break;
          case 1: q.TranslateSettingYMinTo(x); t = x - m.y0; m.y0 += t; m.y1 += t; break;
          case 2: q.TranslateSettingXMaxTo(x); t = x - m.x1; m.x0 += t; m.x1 += t; break;
          case 3: q.TranslateSettingYMaxTo(x); t = x - m.y1; m.y0 += t; m.y1 += t; break;
        } break; }
      case 15: case 16: {
        float ar = r.Chance(.2) ? r.Of({0.f, -1.f}) : r.Chance(.2) ? (float)r.LogReal(1e-3, 1e3) : (float)r.LogReal(.05, 20);
        bool cont = op == 15;
        if (ar < 0 || (cont && ar == 0)) { VH_REQUIRE(c, CheckFails([&] { (void)(cont ? q.ContainingRectWithAspectRatio(ar) : q.InteriorRectWithAspectRatio(ar)); }), "rect-bad-aspect-ratio", ar); break; }
        Rect o;
        bool died = CheckFails([&] { o = cont ? q.ContainingRectWithAspectRatio(ar) : q.InteriorRectWithAspectRatio(ar); });
        VH_REQUIRE(c, !died, "rect-aspect-ratio-crash", q, " ", ar);
        mag = std::max({mag, (double)std::fabs(o.XMin()), (double)std::fabs(o.XMax()), (double)std::fabs(o.YMin()), (double)std::fabs(o.YMax())});
        double ow = o.Width(), oh = o.Height(), qw = q.Width(), qh = q.Height();
        VH_REQUIRE(c, near(o.Center().x, q.Center().x) && near(o.Center().y, q.Center().y), "rect-aspect-center", q, " ", o);
        VH_REQUIRE(c, near(ow, ar * oh) || near(oh, ow / ar), "rect-aspect-ratio", q, " ", ar, " -> ", o);
        VH_REQUIRE(c, near(ow, qw) || near(oh, qh), "rect-aspect-keeps-one", q, " ", ar, " -> ", o);
        if (cont) VH_REQUIRE(c, ow >= qw - 4e-6 * mag && oh >= qh - 4e-6 * mag, "rect-aspect-contains", q, " ", ar, " -> ", o);
        else VH_REQUIRE(c, ow <= qw + 4e-6 * mag && oh <= qh + 4e-6 * mag, "rect-aspect-interior", q, " ", ar, " -> ", o);
        c.Count("aspect ratio rects");
        break;
      }
      case 17: {
        float w = x, h = y;
        if (w < 0 || h < 0) { VH_REQUIRE(c, CheckFails([&] { (void)Rect::FromCenterAndDimensions(a, w, h); }), "rect-negative-dimensions", w, " ", h); break; }
        q = Rect::FromCenterAndDimensions(a, w, h); cx = a.x; cy = a.y; wh(w, h); break;
      }
    }
    mag = std::max({mag, std::fabs(m.x0), std::fabs(m.x1), std::fabs(m.y0), std::fabs(m.y1)});
    VH_REQUIRE(c, q.XMin() <= q.XMax() && q.YMin() <= q.YMax(), "rect-inverted", "op ", op, " ", before, " -> ", q);
    VH_REQUIRE(c, near(q.XMin(), m.x0) && near(q.XMax(), m.x1) && near(q.YMin(), m.y0) && near(q.YMax(), m.y1), "rect-op", "op ", op, " (", x, ",", y, ") on ", before, " gave ", q, ", want ", m.x0, " ", m.y0, " ", m.x1, " ", m.y1);
    m = {q.XMin(), q.YMin(), q.XMax(), q.YMax()};
    if (mag > 1e6) { q = Rect::FromTwoPoints(pt(), pt()); m = {q.XMin(), q.YMin(), q.XMax(), q.YMax()}; mag = 1; }
    c.Sig(op);
    if (c.want_sample) trace += Cat(" op", op, "(", x, ",", y, ")->", q);
  }
  mag = std::max({mag, std::fabs(m.x0), std::fabs(m.x1), std::fabs(m.y0), std::fabs(m.y1)});
  // Derived quantities.
  VH_REQUIRE(c, near(q.Width(), m.x1 - m.x0) && near(q.Height(), m.y1 - m.y0) && near(q.SemiWidth(), (m.x1 - m.x0) / 2) && near(q.SemiHeight(), (m.y1 - m.y0) / 2) && near(q.Center().x, (m.x0 + m.x1) / 2) && near(q.Center().y, (m.y0 + m.y1) / 2), "rect-derived", q);
  VH_REQUIRE(c, q.Area() >= 0 && std::fabs(q.Area() - (m.x1 - m.x0) * (m.y1 - m.y0)) <= 1e-5 * mag * mag, "rect-area", q, " ", q.Area());
  if (q.Height() == 0) VH_REQUIRE(c, CheckFails([&] { (void)q.AspectRatio(); }), "rect-aspect-zero-height", q);
  else VH_REQUIRE(c, q.AspectRatio() == q.Width() / q.Height(), "rect-aspect", q);
  auto cs = q.Corners();
  VH_REQUIRE(c, cs[0] == (Point{q.XMin(), q.YMin()}) && cs[1] == (Point{q.XMax(), q.YMin()}) && cs[2] == (Point{q.XMax(), q.YMax()}) && cs[3] == (Point{q.XMin(), q.YMax()}), "rect-corners", q);
  for (int i = 0; i < 4; ++i) VH_REQUIRE(c, q.GetEdge(i) == (Segment{cs[i], cs[(i + 1) % 4]}) && q.Contains(cs[i]), "rect-edge", q, i);
  VH_REQUIRE(c, CheckFails([&] { q.GetEdge(4); }) && CheckFails([&] { q.GetEdge(-1); }), "rect-edge-range", q);
  for (int i = 0; i < 8; ++i) {
    Point p = pt();
    if (r.Chance(.4)) p.x = r.Of({q.XMin(), q.XMax(), std::nextafter(q.XMax(), kInf), std::nextafter(q.XMin(), -kInf)});
    if (r.Chance(.4)) p.y = r.Of({q.YMin(), q.YMax(), std::nextafter(q.YMax(), kInf), std::nextafter(q.YMin(), -kInf)});
    VH_REQUIRE(c, q.Contains(p) == (p.x >= q.XMin() && p.x <= q.XMax() && p.y >= q.YMin() && p.y <= q.YMax()), "rect-contains-point", q, " ", p);
    Rect o = Rect::FromTwoPoints(p, pt());
    VH_REQUIRE(c, q.Contains(o) == (o.XMin() >= q.XMin() && o.XMax() <= q.XMax() && o.YMin() >= q.YMin() && o.YMax() <= q.YMax()), "rect-contains-rect", q, " ", o);
  }
  // Huge rects do not overflow where that is promised.
  {
    Rect h = Rect::FromTwoPoints({-kMax * r.F(.5, 1), -kMax * r.F(.5, 1)}, {kMax * r.F(.5, 1), kMax * r.F(.5, 1)});
    VH_REQUIRE(c, std::isfinite(h.SemiWidth()) && std::isfinite(h.SemiHeight()) && std::isfinite(h.Center().x) && std::isfinite(h.Center().y), "rect-overflow", h);
    Rect i = Rect::FromTwoPoints({-kInf, 0}, {kInf, 1});
    VH_REQUIRE(c, i.Center() == (Point{0, .5}), "rect-infinite-center", i);
    i = Rect::FromTwoPoints({2, kInf}, {1, -kInf});
    VH_REQUIRE(c, i.Center() == (Point{1.5, 0}), "rect-infinite-center", i);
    float sx = r.Of({-kMax, kMax}), sy = r.Of({-kMax, kMax});
    Rect f = Rect::FromTwoPoints({sx * r.F(.4, 1), sy * r.F(.4, 1)}, {sx * r.F(.4, 1), sy * r.F(.4, 1)});
    auto mid = [](float a, float b, float m) { return std::fabs((double(a) + b) / 2 - m) <= 1e-6 * kMax; };
    VH_REQUIRE(c, mid(f.XMin(), f.XMax(), f.Center().x) && mid(f.YMin(), f.YMax(), f.Center().y) && std::isfinite(f.SemiWidth()) && std::isfinite(f.SemiHeight()), "rect-overflow-far", f, " ", f.Center());
    Point to{r.F(-1, 1), r.F(-1, 1)};
    h.SetCenter(to);
    VH_REQUIRE(c, std::isfinite(h.XMin()) && std::isfinite(h.XMax()) && std::isfinite(h.YMin()) && std::isfinite(h.YMax()), "rect-overflow-set-center", h);
  }
  // Envelopes: the least box around everything added, in any order and grouping.
  {
    Envelope e, rev;
    VH_REQUIRE(c, e.IsEmpty() && !e.AsRect().has_value(), "envelope-empty", "");
    double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300; double qe = 0;
    std::vector<std::function<void(Envelope&)>> adds;
    int k = r.Int(0, 7);
    auto see = [&](const Poly& p) { for (P s : p) { x0 = std::min(x0, s.x); x1 = std::max(x1, s.x); y0 = std::min(y0, s.y); y1 = std::max(y1, s.y); } };
    for (int i = 0; i < k; ++i) {
      int kind = r.Int(0, 7);
      c.Sig(kind);
      if (kind == 0) { Point p = pt(); see(PolyOf(p)); adds.push_back([p](Envelope& e) { e.Add(p); }); }
      if (kind == 1) { Segment s{pt(), pt()}; see(PolyOf(s)); adds.push_back([s](Envelope& e) { e.Add(s); }); }
      if (kind == 2) { Triangle t{pt(), pt(), pt()}; see(PolyOf(t)); adds.push_back([t](Envelope& e) { e.Add(t); }); }
      if (kind == 3) { Rect t = Rect::FromTwoPoints(pt(), pt()); see(PolyOf(t)); adds.push_back([t](Envelope& e) { e.Add(t); }); }
      if (kind == 4) { Quad t = Quad::FromCenterDimensionsRotationAndShear(pt(), r.F(0, 20), r.F(-20, 20), Angle::Radians(r.F(0, 6.28)), r.F(-2, 2)); Poly p = PolyOf(t); see(p); for (P s : p) qe = std::max({qe, std::fabs(s.x), std::fabs(s.y)}); adds.push_back([t](Envelope& e) { e.Add(t); }); }
      if (kind == 5) { adds.push_back([](Envelope& e) { e.Add(Envelope()); }); }
      if (kind == 6) { Segment s{pt(), pt()}; see(PolyOf(s)); adds.push_back([s](Envelope& e) { e.Add(Envelope(s)); }); }
      if (kind == 7) { std::vector<Point> ps; int n = r.Int(0, 4); while (n--) { ps.push_back(pt()); see(PolyOf(ps.back())); } adds.push_back([ps](Envelope& e) { e.Add(ps); }); }
    }
    for (auto& f : adds) f(e);
    for (auto it = adds.rbegin(); it != adds.rend(); ++it) { Envelope part; (*it)(part); rev.Add(part); }
    VH_REQUIRE(c, e.IsEmpty() == (x0 > x1) && rev.IsEmpty() == e.IsEmpty() && e.AsRect().has_value() == !e.IsEmpty(), "envelope-emptiness", k);
    if (!e.IsEmpty()) {
      const Rect& g = *e.AsRect(); const Rect& h = *rev.AsRect();
      double tol = 2e-6 * qe;
      VH_REQUIRE(c, std::fabs(g.XMin() - x0) <= tol && std::fabs(g.XMax() - x1) <= tol && std::fabs(g.YMin() - y0) <= tol && std::fabs(g.YMax() - y1) <= tol, "envelope-bounds", g, " want ", x0, " ", y0, " ", x1, " ", y1);
      VH_REQUIRE(c, g.XMin() == h.XMin() && g.XMax() == h.XMax() && g.YMin() == h.YMin() && g.YMax() == h.YMax(), "envelope-order", g, " ", h);
      e.Reset(); VH_REQUIRE(c, e.IsEmpty(), "envelope-reset", "");
      Envelope one(a); VH_REQUIRE(c, one.AsRect()->Contains(a) && one.AsRect()->Width() == 0 && one.AsRect()->Height() == 0, "envelope-point", a);
      c.Count("envelopes");
    }
  }
  c.Sig(q.XMin()); c.Sig(q.YMax());
  c.Sample(trace);
  if (q.Width() > 0 && q.Height() > 0) c.NonTrivial();
}

// ---------------------------------------------------------------- G03
namespace {
AffineTransform RandomTransform(Rng& r, int depth = 0) {
  switch (r.Below(depth > 2 ? 9 : 11)) {
    case 0: return AffineTransform::Identity();
    case 1: return AffineTransform::Translate({r.F(-50, 50), r.F(-50, 50)});
    case 2: return AffineTransform::Scale(r.F(.1, 4) * (r.Chance(.2) ? -1 : 1));
    case 3: return AffineTransform::Scale(r.F(-4, 4), r.F(-4, 4));
    case 4: return AffineTransform::Rotate(Angle::Radians(r.F(-7, 7)));
    case 5: return r.Chance(.5) ? AffineTransform::ShearX(r.F(-2, 2)) : AffineTransform::ShearY(r.F(-2, 2));
    case 6: return AffineTransform(r.F(-3, 3), r.F(-3, 3), r.F(-30, 30), r.F(-3, 3), r.F(-3, 3), r.F(-30, 30));
    case 7: return AffineTransform::RotateAboutPoint(Angle::Degrees(r.Int(-12, 12) * 30), {r.F(-20, 20), r.F(-20, 20)});
    case 8: { float a = r.F(-2, 2), d = r.F(-2, 2), k = (float)r.Int(-2, 2); return AffineTransform(a, a * k, r.F(-5, 5), d, d * k, r.F(-5, 5)); }  // singular
    default: return RandomTransform(r, depth + 1) * RandomTransform(r, depth + 1);
  }
}
bool NearX(const X& g, const X& w, double tol) { return std::fabs(g.a - w.a) <= tol && std::fabs(g.b - w.b) <= tol && std::fabs(g.c - w.c) <= tol && std::fabs(g.d - w.d) <= tol && std::fabs(g.e - w.e) <= tol && std::fabs(g.f - w.f) <= tol; }
X MulX(const X& l, const X& r) { return {l.a * r.a + l.b * r.d, l.a * r.b + l.b * r.e, l.a * r.c + l.b * r.f + l.c, l.d * r.a + l.e * r.d, l.d * r.b + l.e * r.e, l.d * r.c + l.e * r.f + l.f}; }
double NormX(const X& t) { return std::max({std::fabs(t.a) + std::fabs(t.b), std::fabs(t.d) + std::fabs(t.e)}); }
// Distance between two polygons as sets of corners (each corner of one to the nearest of the other).
double CornerGap(const Poly& a, const Poly& b) {
  double g = 0;
  for (P p : a) { double m = 1e300; for (P q : b) m = std::min(m, Len(p - q)); g = std::max(g, m); }
  for (P p : b) { double m = 1e300; for (P q : a) m = std::min(m, Len(p - q)); g = std::max(g, m); }
  return g;
}
// Hausdorff distance of the hulls, by support functions: equal sets have equal supports.
double SupportGap(const Poly& a, const Poly& b) {
  double g = 0;
  for (int i = 0; i < 64; ++i) {
    P n{std::cos(i * kPi / 32), std::sin(i * kPi / 32)};
    double sa = -1e300, sb = -1e300;
    for (P p : a) sa = std::max(sa, Dot(p, n));
    for (P p : b) sb = std::max(sb, Dot(p, n));
    g = std::max(g, std::fabs(sa - sb));
  }
  return g;
}
}  // namespace
VH_PROPERTY(G03) {
  Rng& r = c.rng;
  AffineTransform t = RandomTransform(r), s = RandomTransform(r);
  X td = D(t), sd = D(s);
  double nt = NormX(td) + 1e-9, ns = NormX(sd) + 1e-9, off = std::max({std::fabs(td.c), std::fabs(td.f), std::fabs(sd.c), std::fabs(sd.f), 1.});
  auto pt = [&] { return Point{r.F(-20, 20), r.F(-20, 20)}; };
  // Definition of each factory, as matrices in double.
  {
    float k = r.F(-3, 3), k2 = r.F(-3, 3); Angle an = Angle::Radians(r.F(-7, 7)); Point ce = pt(); double A = an.ValueInRadians();
    VH_REQUIRE(c, NearX(D(AffineTransform::Translate({k, k2})), X{1, 0, k, 0, 1, k2}, 0) && NearX(D(AffineTransform::Scale(k)), X{k, 0, 0, 0, k, 0}, 0) && NearX(D(AffineTransform::Scale(k, k2)), X{k, 0, 0, 0, k2, 0}, 0) && NearX(D(AffineTransform::ScaleX(k)), X{k, 0, 0, 0, 1, 0}, 0) && NearX(D(AffineTransform::ScaleY(k)), X{1, 0, 0, 0, k, 0}, 0) && NearX(D(AffineTransform::ShearX(k)), X{1, k, 0, 0, 1, 0}, 0) && NearX(D(AffineTransform::ShearY(k)), X{1, 0, 0, k, 1, 0}, 0) && NearX(D(AffineTransform()), X{}, 0) && NearX(D(AffineTransform::Identity()), X{}, 0), "transform-factory", k, " ", k2);
    X rot{std::cos(A), -std::sin(A), 0, std::sin(A), std::cos(A), 0};
    VH_REQUIRE(c, NearX(D(AffineTransform::Rotate(an)), rot, 1e-6), "transform-rotate", A);
    auto about = [&](X m) { return MulX(X{1, 0, ce.x, 0, 1, ce.y}, MulX(m, X{1, 0, -ce.x, 0, 1, -ce.y})); };
    VH_REQUIRE(c, NearX(D(AffineTransform::RotateAboutPoint(an, ce)), about(rot), 1e-5), "transform-rotate-about", A, " ", ce);
    VH_REQUIRE(c, NearX(D(AffineTransform::ScaleAboutPoint(k, ce)), about(X{k, 0, 0, 0, k, 0}), 2e-5) && NearX(D(AffineTransform::ScaleAboutPoint(k, k2, ce)), about(X{k, 0, 0, 0, k2, 0}), 2e-5), "transform-scale-about", k, " ", k2, " ", ce);
  }
  // Composition and inverse.
  AffineTransform ts = t * s;
  VH_REQUIRE(c, NearX(D(ts), MulX(td, sd), 4e-6 * (nt * ns + nt * off + off)), "transform-compose", t, " * ", s, " = ", ts);
  Point p = pt();
  VH_REQUIRE(c, Len(D(t.Apply(p)) - td(D(p))) <= 4e-6 * (nt * 30 + off), "transform-apply-point", t, " ", p);
  VH_REQUIRE(c, Len(D(ts.Apply(p)) - td(sd(D(p)))) <= 2e-5 * (nt * ns * 30 + nt * off + off), "transform-compose-apply", t, " ", s, " ", p);
  double det = td.a * td.e - td.b * td.d;
  auto inv = t.Inverse();
  if (inv.has_value()) {
    double cond = nt * nt / std::max(1e-300, std::fabs(det));
    if (cond < 1e4) {
      X i = D(*inv);
      VH_REQUIRE(c, NearX(MulX(td, i), X{}, 3e-6 * cond * (1 + off)) && NearX(MulX(i, td), X{}, 3e-6 * cond * (1 + off / nt)), "transform-inverse", t, " inverse ", *inv);
      c.Count("inverses checked");
    }
  } else {
    VH_REQUIRE(c, std::fabs(det) <= 2e-7 * (std::fabs(td.a * td.e) + std::fabs(td.b * td.d)), "transform-inverse-missing", t);
    c.Count("singular transforms");
  }
  if (det == 0 && td.a * td.e == td.b * td.d && td.a == 0) VH_REQUIRE(c, !inv.has_value(), "transform-inverse-of-singular", t);
  // Shapes transform corner by corner.
  Segment sg{pt(), pt()}; Triangle tr{pt(), pt(), pt()};
  if (r.Chance(.1)) tr.p2 = tr.p1;
  Segment ag = t.Apply(sg); Triangle at = t.Apply(tr);
  VH_REQUIRE(c, ag.start == t.Apply(sg.start) && ag.end == t.Apply(sg.end) && at.p0 == t.Apply(tr.p0) && at.p1 == t.Apply(tr.p1) && at.p2 == t.Apply(tr.p2), "transform-apply-shape", t);
  auto qg = [&] { return Quad::FromCenterDimensionsRotationAndShear(pt(), r.Chance(.15) ? 0 : r.F(-20, 20), r.Chance(.15) ? 0 : r.F(-20, 20), r.Chance(.3) ? Angle::Degrees((float)r.Int(-8, 8) * 45) : Angle::Radians(r.F(-9, 9)), r.Chance(.4) ? 0 : r.F(-2, 2)); };
  // Quads: construction, accessors, axes.
  float w0 = r.Chance(.15) ? 0 : r.F(-20, 20), h0 = r.Chance(.15) ? 0 : r.F(-20, 20), s0 = r.Chance(.3) ? 0 : r.F(-2, 2); Angle r0 = Angle::Radians(r.F(-9, 9)); Point c0 = pt();
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c0, w0, h0, r0, s0);
  auto raw = [&](double w, double h, double a, double sh) { P u = .5 * w * P{std::cos(a), std::sin(a)}, v = .5 * h * P{sh * std::cos(a) - std::sin(a), sh * std::sin(a) + std::cos(a)}; P ce = D(c0); return Poly{ce - u - v, ce + u - v, ce + u + v, ce - u + v}; };
  auto check_quad = [&](const Quad& k, double w, double h, double a, double sh, const char* what) {
    VH_REQUIRE(c, k.Width() == std::fabs((float)w) && k.Height() == (float)(w < 0 ? -h : h) && k.ShearFactor() == (float)sh, "quad-dimensions", what, " ", w, " ", h);
    float n = k.Rotation().ValueInRadians();
    VH_REQUIRE(c, n >= 0 && n < (float)(2 * kPi) && std::fabs(std::remainder(n - a - (w < 0 ? kPi : 0), 2 * kPi)) < 3e-6, "quad-rotation", what, " ", a, " -> ", n);
    Poly cs; for (Point x : k.Corners()) cs.push_back(D(x));
    Poly want = raw(w, h, a, sh);
    // Same parallelogram with the axes unchanged by normalization.
    for (int i = 0; i < 4; ++i) VH_REQUIRE(c, Len(cs[i] - want[i]) <= 3e-4, "quad-corners", what, " corner ", i, " ", Show(cs), " want ", Show(want));
    auto [u, v] = k.SemiAxes();
    VH_REQUIRE(c, Len(D(k.Center()) + D(u) + D(v) - cs[2]) <= 1e-4 && Len(D(k.Center()) + D(u) - D(v) - cs[1]) <= 1e-4, "quad-semi-axes", what);
    for (int i = 0; i < 4; ++i) VH_REQUIRE(c, k.GetEdge(i) == (Segment{k.Corners()[i], k.Corners()[(i + 1) % 4]}), "quad-edge", i);
    VH_REQUIRE(c, k.IsRectangular() == (sh == 0) && std::fabs(k.SignedArea() - std::fabs(w) * (w < 0 ? -h : h)) <= 1e-4, "quad-derived", what);
  };
  check_quad(q, w0, h0, r0.ValueInRadians(), s0, "construct");
  VH_REQUIRE(c, CheckFails([&] { q.GetEdge(4); }), "quad-edge-range", "");
  if (q.Height() == 0) VH_REQUIRE(c, CheckFails([&] { (void)q.AspectRatio(); }), "quad-aspect", ""); else VH_REQUIRE(c, q.AspectRatio() == q.Width() / q.Height(), "quad-aspect", "");
  {
    Quad k = q;  // setters, with the cached axes warm
    (void)k.SemiAxes();
    double w = q.Width(), h = q.Height(), a = q.Rotation().ValueInRadians(), sh = q.ShearFactor();
    int n = r.Int(1, 5);
    while (n--) {
      int op = r.Int(0, 4);
      float x = r.F(-15, 15);
      if (r.Chance(.5)) (void)k.Corners();
      if (op == 0) { k.SetWidth(x); w = x; if (x < 0) { check_quad(k, w, h, a, sh, "SetWidth"); w = -w; h = -h; a = k.Rotation().ValueInRadians(); } }
      if (op == 1) { k.SetHeight(x); h = x; }
      if (op == 2) { k.SetRotation(Angle::Radians(x)); a = x; }
      if (op == 3) { k.SetShearFactor(x / 8); sh = x / 8; }
      if (op == 4) { c0 = pt(); k.SetCenter(c0); VH_REQUIRE(c, k.Center() == c0, "quad-center", c0); }
      check_quad(k, w, h, a, sh, "after setters");
      c.Sig(op);
    }
    VH_REQUIRE(c, (k == q) == (k.Center() == q.Center() && k.Width() == q.Width() && k.Height() == q.Height() && k.Rotation() == q.Rotation() && k.ShearFactor() == q.ShearFactor()) && (k != q) == !(k == q) && q == q, "quad-equality", "");
  }
  {  // An upright quad on a grid has its boundary, exactly.
    int w = 2 * r.Int(0, 5), h = 2 * r.Int(-5, 5), cx = r.Int(-9, 9), cy = r.Int(-9, 9), x = r.Int(-12, 12), y = r.Int(-12, 12);
    if (r.Chance(.5)) (r.Chance(.5) ? x : y) = r.Of({cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2});
    Quad up = Quad::FromCenterDimensionsAndRotation({(float)cx, (float)cy}, w, h, Angle());
    VH_REQUIRE(c, up.Contains({(float)x, (float)y}) == (2 * std::abs(x - cx) <= w && 2 * std::abs(y - cy) <= std::abs(h)), "quad-contains-grid", cx, ",", cy, " ", w, "x", h, " ", x, ",", y);
  }
  // Quads: containment and join against the double polygon.
  q = qg();
  for (int i = 0; i < 6; ++i) {
    P u = D(q.SemiAxes().first), v = D(q.SemiAxes().second);
    P pd = D(q.Center()) + r.Real(-1.5, 1.5) * u + r.Real(-1.5, 1.5) * v + (r.Chance(.4) ? P{r.Real(-5, 5), r.Real(-5, 5)} : P{0, 0});
    Point pp{(float)pd.x, (float)pd.y};
    Poly pq = PolyOf(q);
    double d = PolyDist(PolyOf(pp), pq), deep = PolyDepth(PolyOf(pp), pq);
    if (d > 1e-3) VH_REQUIRE(c, !q.Contains(pp), "quad-contains", "outside by ", d, " ", Show(pq), " ", pp);
    if (deep > 1e-3) VH_REQUIRE(c, q.Contains(pp), "quad-contains", "inside by ", deep, " ", Show(pq), " ", pp);
    Quad j = q; j.Join(pp);
    Poly jp = PolyOf(j);
    // The corners reported agree with the parameters.
    { Poly jc; for (Point x : j.Corners()) jc.push_back(D(x)); VH_REQUIRE(c, CornerGap(jc, jp) < 1e-3, "quad-join-stale-axes", Show(jc), " vs ", Show(jp)); }
    VH_REQUIRE(c, j.Rotation() == q.Rotation() && j.ShearFactor() == q.ShearFactor() && j.Width() >= q.Width() && std::fabs(j.Height()) >= std::fabs(q.Height()), "quad-join-shape", "");
    VH_REQUIRE(c, PolyDist(PolyOf(pp), jp) <= 2e-3, "quad-join-point", Show(pq), " joined ", pp, " gave ", Show(jp));
    for (P x : pq) VH_REQUIRE(c, PolyDist({x}, jp) <= 2e-3, "quad-join-old", Show(pq), " joined ", pp, " gave ", Show(jp));
    if (deep > 1e-3) VH_REQUIRE(c, CornerGap(jp, pq) < 1e-3, "quad-join-minimal", Show(pq), " joined ", pp, " gave ", Show(jp));
    else {  // no larger than needed: the point is on the boundary of the result
      double wgrow = j.Width() - q.Width(), hgrow = std::fabs(j.Height()) - std::fabs(q.Height());
      double need = PolyDist(PolyOf(pp), pq) * (1 + std::fabs(q.ShearFactor())) * 1.5 + 1e-3;
      VH_REQUIRE(c, wgrow <= need && hgrow <= need, "quad-join-minimal", wgrow, " ", hgrow, " for a point at ", need);
    }
    c.Count("quad containment queries");
  }
  Rect rc = Rect::FromTwoPoints(pt(), pt());
  { Poly f; for (Point x : Quad::FromRect(rc).Corners()) f.push_back(D(x)); VH_REQUIRE(c, CornerGap(f, PolyOf(rc)) <= 1e-5, "quad-from-rect", rc); VH_REQUIRE(c, Quad::FromRect(rc).IsAxisAligned(), "quad-axis-aligned", rc); }
  if (q.IsRectangular()) { double m4 = std::fabs(std::remainder((double)q.Rotation().ValueInRadians(), kPi / 2)); if (m4 < 5e-6) VH_REQUIRE(c, q.IsAxisAligned(), "quad-axis-aligned", m4); if (m4 > 2e-5) VH_REQUIRE(c, !q.IsAxisAligned(), "quad-axis-aligned", m4); }
  else VH_REQUIRE(c, !q.IsAxisAligned(), "quad-axis-aligned", "sheared");
  // Quad and rect under a transform are the images of their corners.
  for (int k = 0; k < 2; ++k) {
    Poly src = k ? PolyOf(rc) : PolyOf(q), img;
    for (P x : src) img.push_back(td(x));
    Quad res = k ? t.Apply(rc) : t.Apply(q);
    Poly got = PolyOf(res);
    double tol = 1e-4 * (nt * 60 + off), gap = SupportGap(img, got);
    if (q.Width() == 0 || q.Height() == 0) c.Count("degenerate quads transformed");
    // A parallelogram that is collapsed up to rounding has no accurate shear.
    P u = img[1] - img[0], v = img[3] - img[0];
    double slim = std::fabs(Det(u, v)) / std::max(1e-30, Len(u) * std::max(Len(u), Len(v)));
    if (Len(u) > 0 && slim > 0 && slim < 1e-3) { c.Count("nearly collapsed images skipped"); continue; }
    if (Len(u) > 0 && Len(u) < 1e-3 * Len(v)) { c.Count("nearly collapsed images skipped"); continue; }
    VH_REQUIRE(c, gap <= tol, "transform-apply-quad", t, " on ", Show(src), " gave ", Show(got), ", want ", Show(img), " gap ", gap);
    // Corner by corner, so that the image of a quad that is mirrored is mirrored.
    if (slim > 1e-2) {
      auto cs = res.Corners();
      // Corners() starts at the same corner whatever the signs of the axes are.
      for (int i = 0; i < 4; ++i) VH_REQUIRE(c, Len(D(cs[i]) - img[i]) <= 2 * tol, "transform-apply-quad-corners", t, " on ", Show(src), " gave ", Show(got), ", want ", Show(img));
      double want = Det(u, v), got_area = res.SignedArea();
      VH_REQUIRE(c, std::fabs(got_area - want) <= 8 * tol * (Len(u) + Len(v)) + 1e-4 * std::fabs(want), "transform-apply-quad-area", t, " on ", Show(src), " gave ", got_area, ", want ", want);
    }
    c.Count("quads transformed");
  }
  // Find.
  {
    Segment to{pt(), pt()};
    if (r.Chance(.1)) sg.end = sg.start;
    if (r.Chance(.1)) to.end = to.start;
    auto f = AffineTransform::Find(sg, to);
    bool impossible = sg.Length() == 0 && to.Length() > 0;
    VH_REQUIRE(c, f.has_value() == !impossible, "find-segment-exists", sg, " ", to);
    if (f) {
      Segment g = f->Apply(sg);
      double k = sg.Length() > 0 ? to.Length() / sg.Length() : 1;
      double tol = 1e-3 * to.Length() + 1e-5 * (30 * k + 30);
      VH_REQUIRE(c, Len(D(g.start) - D(to.start)) <= tol && Len(D(g.end) - D(to.end)) <= tol, "find-segment", sg, " to ", to, " gave ", g);
      if (sg.Length() > .1) VH_REQUIRE(c, std::fabs(f->A() - f->E()) <= 1e-5 * k && std::fabs(f->B() + f->D()) <= 1e-5 * k, "find-segment-isotropic", *f);
    }
    // Triangles away from the origin, as shapes on a canvas are.
    float sz = r.Chance(.6) ? 10 : (float)r.LogReal(1e-5, 10), far = sz == 10 ? 1000 : sz * r.Of({0.f, 1.f, 30.f});
    Point base{r.F(-far, far), r.F(-far, far)};
    auto near = [&] { return base + Vec{r.F(-sz, sz), r.F(-sz, sz)}; };
    Triangle ft{near(), near(), near()}, tt{pt(), pt(), pt()};
    if (r.Chance(.1)) ft.p2 = ft.p0;
    auto h = AffineTransform::Find(ft, tt);
    if (ft.p2 == ft.p0 || ft.SignedArea() == 0) VH_REQUIRE(c, !h.has_value(), "find-triangle-degenerate", ft);
    else {
      double area = .5 * std::fabs(Det(D(ft.p1) - D(ft.p0), D(ft.p2) - D(ft.p0)));
      double edge = std::max({Len(D(ft.p1) - D(ft.p0)), Len(D(ft.p2) - D(ft.p0))});
      if (area > .1 * edge * edge) {
        VH_REQUIRE(c, h.has_value(), "find-triangle-exists", ft);
        Triangle g = h->Apply(ft);
        double gain = 60 / edge * 10, tol = 2e-6 * gain * 1.5 * (far + sz) + 1e-4;
        for (auto [x, y] : {std::pair{g.p0, tt.p0}, {g.p1, tt.p1}, {g.p2, tt.p2}}) VH_REQUIRE(c, Len(D(x) - D(y)) <= tol, "find-triangle", ft, " to ", tt, " gave ", g, " tolerance ", tol);
        c.Count("triangle transforms found");
      }
    }
    Rect r2 = Rect::FromTwoPoints(pt(), pt()), r1 = Rect::FromTwoPoints(near(), near());
    auto fr = AffineTransform::Find(r1, r2);
    if (r1.Area() == 0) VH_REQUIRE(c, !fr.has_value(), "find-rect-degenerate", r1);
    else if (std::min(r1.Width(), r1.Height()) > .2 * std::max(r1.Width(), r1.Height())) {
      VH_REQUIRE(c, fr.has_value(), "find-rect-exists", r1);
      auto ca = r1.Corners(), cb = r2.Corners();
      for (int i = 0; i < 4; ++i) VH_REQUIRE(c, Len(D(fr->Apply(ca[i])) - D(cb[i])) <= 2e-6 * 400 / std::max(r1.Width(), r1.Height()) * 1.5 * (far + sz) * 2 + 1e-4, "find-rect", r1, " to ", r2, " gave ", fr->Apply(ca[i]), " for ", cb[i]);
    }
    Quad q1 = qg(), q2 = qg();
    auto fq = AffineTransform::Find(q1, q2);
    if (q1.SignedArea() == 0) VH_REQUIRE(c, !fq.has_value(), "find-quad-degenerate", "");
    else if (q1.Width() > 3 && std::fabs(q1.Height()) > 3) {
      VH_REQUIRE(c, fq.has_value(), "find-quad-exists", "");
      auto ca = q1.Corners(), cb = q2.Corners();
      for (int i = 0; i < 4; ++i) VH_REQUIRE(c, Len(D(fq->Apply(ca[i])) - D(cb[i])) <= 2e-2, "find-quad", i);
    }
  }
  c.Sig(td.a); c.Sig(td.c); c.Sig(w0); c.Sig(h0);
  c.Sample("transforms ", t, " and ", s, ", quad ", w0, "x", h0, " rotation ", r0.ValueInRadians(), " shear ", s0);
  c.NonTrivial();
}

// ---------------------------------------------------------------- G04, G05
namespace {
struct Shape { int kind; Point p; Segment s; Triangle t; Rect r; Quad q; };
Poly ShapePoly(const Shape& s) { switch (s.kind) { case 0: return PolyOf(s.p); case 1: return PolyOf(s.s); case 2: return PolyOf(s.t); case 3: return PolyOf(s.r); default: return PolyOf(s.q); } }
template <typename F> auto With(const Shape& s, F&& f) { switch (s.kind) { case 0: return f(s.p); case 1: return f(s.s); case 2: return f(s.t); case 3: return f(s.r); default: return f(s.q); } }
Shape Grid(Rng& r, int kinds, int span, float k, float ox, float oy) {
  auto pt = [&] { return Point{(r.Int(-span, span) + ox) * k, (r.Int(-span, span) + oy) * k}; };
  Shape s; s.kind = (int)r.Below(kinds);
  s.p = pt(); s.s = {pt(), pt()}; s.t = {pt(), pt(), pt()}; s.r = Rect::FromTwoPoints(pt(), pt());
  s.q = Quad::FromCenterDimensionsRotationAndShear(pt(), r.Int(0, span) * k, r.Int(-span, span) * k, r.Chance(.5) ? Angle::Degrees((float)r.Int(0, 7) * 45) : Angle::Radians(r.F(0, 6.28)), r.Chance(.5) ? 0 : r.F(-2, 2));
  if (r.Chance(.08)) s.s.end = s.s.start;
  if (r.Chance(.08)) s.t.p2 = s.t.p1;
  if (r.Chance(.05)) s.t.p1 = s.t.p2 = s.t.p0;
  if (r.Chance(.08)) s.t.p2 = s.t.p0 + (s.t.p1 - s.t.p0) * 2.f;  // collinear
  if (r.Chance(.1)) s.r = Rect::FromTwoPoints(s.p, s.s.start);
  return s;
}
}  // namespace
VH_PROPERTY(G04) {
  Rng& r = c.rng;
  int hits = 0, misses = 0, touch = 0;
  // Grid coordinates times a power of two: every product below is exact, so the answer must be too.
  for (int i = 0; i < 40; ++i) {
    int span = r.Of({2, 3, 5, 9, 60});
    float k = std::ldexp(1.f, r.Chance(.6) ? r.Int(-8, 8) : r.Int(-50, 30)), ox = r.Chance(.7) ? 0 : (float)r.Int(-500, 500), oy = r.Chance(.7) ? 0 : (float)r.Int(-500, 500);
    Shape a = Grid(r, 4, span, k, ox, oy), b = Grid(r, 4, span, k, ox, oy);
    Poly pa = ShapePoly(a), pb = ShapePoly(b);
    bool want = PolyPoly(pa, pb);
    bool ab = With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return Intersects(x, y); }); });
    bool ba = With(b, [&](const auto& x) { return With(a, [&](const auto& y) { return Intersects(x, y); }); });
    VH_REQUIRE(c, ab == ba, "intersects-asymmetric", Show(pa), " ", Show(pb), " ", ab, " ", ba);
    VH_REQUIRE(c, ab == want, want ? "intersects-missed" : "intersects-false", "kinds ", a.kind, " ", b.kind, " ", Show(pa), " ", Show(pb));
    if (a.kind == 0) {
      bool in = b.kind == 2 ? b.t.Contains(a.p) : b.kind == 3 ? b.r.Contains(a.p) : want;
      VH_REQUIRE(c, in == want, "contains-point", Show(pa), " ", Show(pb));
    }
    (want ? hits : misses)++;
    if (want && PolyDepth(pa, pb) == 0) ++touch;
    c.Sig(a.kind); c.Sig(b.kind); c.Sig(pa[0].x / k); c.Sig(pb[0].y / k);
    if (i == 0) c.Sample(Show(pa), " against ", Show(pb), " intersects=", want, " (first of 40 exact and 12 rotated pairs)");
  }
  // Quads and arbitrary floats: exact up to rounding.
  for (int i = 0; i < 12; ++i) {
    int span = r.Of({3, 9, 30});
    float k = r.Of({1.f, .125f, 1.7f, 33.f});
    Shape a = Grid(r, 5, span, k, 0, 0), b = Grid(r, 5, span, k, 0, 0);
    if (a.kind != 4 && r.Chance(.7)) a.kind = 4;
    Poly pa = ShapePoly(a), pb = ShapePoly(b);
    double tol = 1e-4 * span * k;
    bool ab = With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return Intersects(x, y); }); });
    bool ba = With(b, [&](const auto& x) { return With(a, [&](const auto& y) { return Intersects(x, y); }); });
    double d = PolyDist(pa, pb);
    if (d > tol) { VH_REQUIRE(c, !ab && !ba, "intersects-false", "apart by ", d, " ", Show(pa), " ", Show(pb)); ++misses; }
    else if (PolyCross(pa, pb, tol)) { VH_REQUIRE(c, ab && ba, "intersects-missed", "kinds ", a.kind, " ", b.kind, Show(pa), " ", Show(pb)); ++hits; }
  }
  // Segments one after the other along (about) one line, most of them steep or flat: not exact, but their bounds are apart.
  for (int i = 0; i < 8; ++i) {
    float w = r.Of({0.f, 1e-6f, 1e-3f, .03f, 1.f, 20.f}), h = r.F(-20, 20), x0 = r.F(-300, 300), y0 = r.F(-300, 300);
    float t[4] = {r.F(0, 1), r.F(0, 1), r.F(0, 1), r.F(0, 1)};
    std::sort(t, t + 4);
    if (r.Chance(.3)) t[2] = t[1] + (float)r.LogReal(1e-7, 1e-2);
    Point p[4];
    bool flip = r.Chance(.5);
    for (int k = 0; k < 4; ++k) { p[k] = {x0 + w * t[k], y0 + h * t[k]}; if (flip) p[k] = {p[k].y, p[k].x}; }
    Segment a{p[0], p[1]}, b{p[2], p[3]};
    if (r.Chance(.5)) std::swap(a.start, a.end);
    if (r.Chance(.5)) std::swap(b.start, b.end);
    if (r.Chance(.5)) std::swap(a, b);
    auto apart = [](float a0, float a1, float b0, float b1) { return std::max(a0, a1) < std::min(b0, b1) || std::max(b0, b1) < std::min(a0, a1); };
    if (apart(a.start.x, a.end.x, b.start.x, b.end.x) || apart(a.start.y, a.end.y, b.start.y, b.end.y))
      VH_REQUIRE(c, !Intersects(a, b), "intersects-false", "segments with bounds apart ", Show(PolyOf(a)), " ", Show(PolyOf(b)));
  }
  c.Count("pairs that intersect", hits); c.Count("pairs that do not", misses); c.Count("pairs that only touch", touch);
  if (hits && misses) c.NonTrivial();
}
VH_PROPERTY(G05) {
  Rng& r = c.rng;
  int zero = 0, apart = 0;
  for (int i = 0; i < 40; ++i) {
    int span = r.Of({2, 4, 9, 60});
    float k = r.Chance(.5) ? std::ldexp(1.f, r.Int(-8, 8)) : (float)r.LogReal(.01, 100);
    float ox = r.Chance(.7) ? 0 : (float)r.Int(-300, 300), oy = r.Chance(.7) ? 0 : (float)r.Int(-300, 300);
    Shape a = Grid(r, 5, span, k, ox, oy), b = Grid(r, 5, span, k, ox, oy);
    if (r.Chance(.5)) { Vec v{(float)r.Int(-4 * span, 4 * span) * k, (float)r.Int(-4 * span, 4 * span) * k}; b.p += v; b.s.start += v; b.s.end += v; b.t.p0 += v; b.t.p1 += v; b.t.p2 += v; b.r.Translate(v); b.q.SetCenter(b.q.Center() + v); }
    Poly pa = ShapePoly(a), pb = ShapePoly(b);
    float ab = With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return Distance(x, y); }); });
    float ba = With(b, [&](const auto& x) { return With(a, [&](const auto& y) { return Distance(x, y); }); });
    VH_REQUIRE(c, ab >= 0, "distance-negative", ab, " ", Show(pa), " ", Show(pb));
    VH_REQUIRE(c, ab == ba || std::fabs(ab - ba) <= 2e-6 * (std::fabs(ab) + 10. * k * (span + 600)), "distance-asymmetric", ab, " ", ba, " ", Show(pa), " ", Show(pb));
    double want = PolyDist(pa, pb), tol = 3e-6 * k * (5 * span + std::fabs(ox) + std::fabs(oy)) + (a.kind == 4 || b.kind == 4 ? 2e-5 * k * span : 0);
    VH_REQUIRE(c, std::fabs(ab - want) <= tol + 1e-6 * want, "distance-value", "kinds ", a.kind, " ", b.kind, " got ", ab, " want ", want, " ", Show(pa), " ", Show(pb));
    bool hit = With(a, [&](const auto& x) { return With(b, [&](const auto& y) { return Intersects(x, y); }); });
    if (hit) VH_REQUIRE(c, ab <= tol, "distance-of-intersecting", ab, " ", Show(pa), " ", Show(pb));
    (want > 0 ? apart : zero)++;
    c.Sig(a.kind); c.Sig(b.kind); c.Sig(ab / k);
    if (i == 0) c.Sample(Show(pa), " to ", Show(pb), " = ", ab, " (first of 40 pairs)");
  }
  c.Count("pairs apart", apart); c.Count("pairs at distance zero", zero);
  if (zero && apart) c.NonTrivial();
}
