// Extrusion: S08 the mesh covers what the tip sweeps.
#include <algorithm>
#include <optional>
#include "geo.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "strokegen.h"
#include "vh_main.h"
namespace vh {
namespace {
using ink::InProgressStroke;
using ink::MutableMesh;
using ink::Point;
using ink::Vec;
using ink::strokes_internal::BrushTipModeler;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::StrokeInputModeler;

// Counterclockwise convex hull.
Poly Hull(Poly p) {
  std::sort(p.begin(), p.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
  p.erase(std::unique(p.begin(), p.end(), [](P a, P b) { return a.x == b.x && a.y == b.y; }), p.end());
  if (p.size() < 3) return p;
  Poly h(2 * p.size());
  size_t k = 0;
  for (size_t i = 0; i < p.size(); ++i) { while (k >= 2 && Det(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; }
  for (size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && Det(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; }
  h.resize(k - 1);
  return h;
}
// The corners of a tip shape as documented, each an arc.
Poly TipPoints(const BrushTipState& s, int n) {
  double w = s.width / 2., h = s.height / 2., rad = s.percent_radius * std::min(w, h);
  double x = w - rad, y = h - rad, sl = s.slant.ValueInRadians(), ro = s.rotation.ValueInRadians();
  Poly out;
  double px = (1 - s.pinch) * x;
  for (P c : {P{x, y}, P{-x, y}, P{-px, -y}, P{px, -y}}) {
    P q{c.x - c.y * std::sin(sl), c.y * std::cos(sl)};
    P v{q.x * std::cos(ro) - q.y * std::sin(ro) + s.position.x, q.x * std::sin(ro) + q.y * std::cos(ro) + s.position.y};
    if (rad == 0) { out.push_back(v); continue; }
    for (int i = 0; i < n; ++i) out.push_back(v + rad * P{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n)});
  }
  return out;
}
// Signed depth of q in a counterclockwise convex polygon: positive inside.
double Depth(P q, const Poly& p) {
  double d = 1e300;
  if (p.size() >= 3) {
    for (size_t i = 0; i < p.size(); ++i) { P a = p[i], b = p[(i + 1) % p.size()]; d = std::min(d, Det(b - a, q - a) / Len(b - a)); }
    if (d >= 0) return d;
  }
  d = 1e300;
  for (size_t i = 0; i < p.size(); ++i) d = std::min(d, PtSeg(q, p[i], p[(i + 1) % p.size()]));
  return -d;
}
std::vector<BrushTipState> States(const Brush& b, const std::vector<StrokeInput>& in) {
  StrokeInputModeler m;
  m.StartStroke(b.GetFamily().GetInputModel(), b.GetEpsilon());
  m.ExtendStroke(Batch(in), {}, in.back().elapsed_time);
  BrushTipModeler t;
  t.StartStroke(&b.GetCoats()[0].tips[0], b.GetSize());
  t.UpdateStroke(m.GetState(), m.GetModeledInputs());
  std::vector<BrushTipState> v;
  for (auto& x : t.NewFixedTipStates()) v.push_back(x);
  for (auto& x : t.VolatileTipStates()) v.push_back(x);
  return v;
}
enum class Mode { kPlain, kSizes, kWild };
VH_PROPERTY(S08) {
  Rng& r = c.rng;
  Mode mode = r.Chance(.6) ? Mode::kPlain : r.Chance(.6) ? Mode::kSizes : Mode::kWild;
  BrushOpts bo;
  bo.behaviors = false, bo.textures = false, bo.particles = r.Chance(.3), bo.max_coats = 1;
  Brush b = RandBrush(r, bo);
  if (b.CoatCount() != 1) throw Skip();
  double eps = b.GetEpsilon(), size = b.GetSize();
  if (mode == Mode::kSizes) {  // the size changes slowly along the stroke
    BrushTip t = b.GetCoats()[0].tips[0];
    int n = r.Int(1, 3);
    for (int i = 0; i < n; ++i) {
      Tgt g = r.Of({Tgt::kWidthMultiplier, Tgt::kHeightMultiplier, Tgt::kSizeMultiplier});
      std::array<float, 2> range = {r.F(.5, 1), r.F(1.01, 1.5)};
      if (r.Chance(.5)) std::swap(range[0], range[1]);
      Src src = r.Of({Src::kDistanceTraveledInMultiplesOfBrushSize, Src::kDistanceRemainingInMultiplesOfBrushSize});
      t.behaviors.push_back({{BrushBehavior::SourceNode{src, BrushBehavior::OutOfRange::kClamp, {0, r.F(5, 20)}}, BrushBehavior::TargetNode{g, range}}});
    }
    b.SetFamily(*BrushFamily::Create({BrushCoat{{t}, {}}}, "", b.GetFamily().GetInputModel()));
  }
  // Some strokes are exactly straight along an axis or a diagonal, with a tip that is aligned with them.
  int straight = mode != Mode::kWild && r.Chance(.25) ? r.Of({90, 90, 45}) : 0, heading = straight ? straight * r.Int(0, 360 / straight - 1) : 0;
  if (straight && r.Chance(.8)) {
    BrushTip t = b.GetCoats()[0].tips[0];
    t.rotation = Angle::Degrees(heading + 90 * r.Int(-1, 1));
    if (r.Chance(.6)) t.corner_rounding = 1;
    if (r.Chance(.6)) t.slant = Angle();
    if (r.Chance(.6)) t.pinch = 0;
    b.SetFamily(*BrushFamily::Create({BrushCoat{{t}, {}}}, "", b.GetFamily().GetInputModel()));
  }
  Pen pen(r, b);
  pen.x = r.Real(-100, 100), pen.y = r.Real(-100, 100);
  if (straight) pen.dir = heading * M_PI / 180;
  int n = r.Int(1, 30);
  std::vector<StrokeInput> in;
  if (mode == Mode::kWild) {
    in = Take(pen, r, n);
  } else {
    double t = 0, step = size * r.LogReal(.05, 3), bend = straight ? 0 : r.Real(-.5, .5);
    double cx = std::cos(pen.dir), cy = std::sin(pen.dir);
    if (straight) cx = Sgn(std::round(cx * 4)), cy = Sgn(std::round(cy * 4));
    for (int i = 0; i < n; ++i) {
      in.push_back({.tool_type = pen.tool, .position = {(float)pen.x, (float)pen.y}, .elapsed_time = Duration32::Seconds((float)t), .stroke_unit_length = pen.unit});
      double d = step * r.Real(.2, 1);
      if (!straight && r.Chance(.1)) bend = r.Real(-.5, .5);
      pen.dir += bend * std::min(1., d / size);
      pen.x += d * (straight ? cx : std::cos(pen.dir)), pen.y += d * (straight ? cy : std::sin(pen.dir)), t += r.Real(.003, .03);
    }
  }
  std::vector<BrushTipState> st = States(b, in);
  InProgressStroke s;
  s.Start(b);
  VH_REQUIRE(c, s.EnqueueInputs(Batch(in), {}).ok() && s.UpdateShape(in.back().elapsed_time).ok(), "update");
  const MutableMesh& m = s.GetMesh(0);
  std::vector<Poly> hulls;
  auto visible = [&](const BrushTipState& x) { return x.width >= eps || x.height >= eps; };
  double far = 0;
  for (size_t i = 0; i < st.size(); ++i) {
    if (!visible(st[i])) continue;
    far = std::max<double>({far, std::fabs(st[i].position.x), std::fabs(st[i].position.y)});
    Poly p = TipPoints(st[i], 48);
    if (i + 1 < st.size() && visible(st[i + 1])) for (P q : TipPoints(st[i + 1], 48)) p.push_back(q);
    hulls.push_back(Hull(p));
  }
  std::vector<Poly> tris;
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) { Poly t = PolyOf(m.GetTriangle(i)); if (PolyArea2(t) < 0) std::swap(t[0], t[1]); tris.push_back(t); }
  double near = 3 * eps + 1e-6 * far, tol = mode == Mode::kPlain && eps > .02 * size ? near : near + .12 * size * std::max({1.f, b.GetCoats()[0].tips[0].scale.x, b.GetCoats()[0].tips[0].scale.y});
  double missing = 0, extra = 0;
  P wm{}, we{};
  int samples = 0, bad = 0;
  for (const Poly& h : hulls) for (int k = 0; k < 20; ++k) {
    if (h.size() < 3) continue;
    size_t a = 1 + r.Below(h.size() - 2);
    double u = r.U(), v = r.U();
    if (u + v > 1) u = 1 - u, v = 1 - v;
    P q = h[0] + u * (h[a] - h[0]) + v * (h[a + 1] - h[0]);
    double d = Depth(q, h);
    ++samples;
    if (d <= near) continue;
    bool covered = false;
    for (const Poly& t : tris) if (PolyArea2(t) != 0 && Depth(q, t) >= 0) { covered = true; break; }
    if (covered) continue;
    ++bad;
    if (d > missing) missing = d, wm = q;
  }
  for (const Poly& t : tris) for (int k = 0; k < 4; ++k) {
    double u = r.U(), v = r.U();
    if (u + v > 1) u = 1 - u, v = 1 - v;
    P q = t[0] + u * (t[1] - t[0]) + v * (t[2] - t[0]);
    double d = 1e300;
    for (const Poly& h : hulls) { d = std::min(d, -Depth(q, h)); if (d <= extra) break; }
    if (d > extra) extra = d, we = q;
  }
  auto info = [&] { return Cat("missing ", missing / eps, " eps at (", wm.x, ",", wm.y, "), extra ", extra / eps, " eps at (", we.x, ",", we.y, "); ", (int)in.size(), " inputs, ", (int)st.size(), " tip states, ", (int)tris.size(), " triangles; ", b); };
  if (mode == Mode::kWild) {
    VH_REQUIRE(c, samples < 200 || bad <= .25 * samples, "wild-missing", bad, " of ", samples, " samples; ", info());
    VH_REQUIRE(c, extra <= 3 * eps + 1.5 * size, "wild-extra", info());
  } else if (mode == Mode::kSizes) {
    VH_REQUIRE(c, samples < 200 || bad <= .3 * samples, "sizes-missing", bad, " of ", samples, " samples; ", info());
    VH_REQUIRE(c, extra <= tol, "sizes-extra", info());
  } else {
    VH_REQUIRE(c, missing <= tol, "missing", info());
    VH_REQUIRE(c, extra <= tol, "extra", info());
  }
  c.Count("samples", samples), c.Count("triangles", tris.size());
  c.Count(mode == Mode::kPlain ? "plain_strokes" : mode == Mode::kSizes ? "changing_sizes" : "wild_strokes");
  if (tris.size() > 2) c.NonTrivial();
  c.Sig((uint64_t)tris.size()), c.Sig((uint64_t)st.size()), c.Sig(m.VertexCount() ? m.VertexPosition(0).x : 0);
  c.Sample((int)in.size(), " inputs, ", (int)st.size(), " tip states, ", (int)tris.size(), " triangles");
}

// S07: what the vertices carry besides their position.
using ink::strokes_internal::StrokeVertex;
using Attr = StrokeVertex::NonPositionAttributes;
struct Shift { float v[4]; };
Shift ShiftOf(const BrushTipState& s) { return {{s.opacity_multiplier - 1.f, s.hue_offset_in_full_turns, s.saturation_multiplier - 1.f, s.luminosity_shift}}; }
Shift ShiftOf(const Attr& a) { return {{a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2]}}; }
std::string Show(const Shift& s) { return Cat("(", s.v[0], ",", s.v[1], ",", s.v[2], ",", s.v[3], ")"); }

// Vertices by themselves: margins, interpolation and their places in a mesh.
void VertexHelpers(Ctx& c) {
  Rng& r = c.rng;
  using Label = StrokeVertex::Label;
  auto sign = [](Label l) { return l.encoded_value > 0 ? 1 : l.encoded_value < 0 ? -1 : 0; };
  auto label = [&](bool whole) { Label l{(float)r.Of({-127, 0, 127})}; if (!whole && l.encoded_value && r.Chance(.6)) l.encoded_value = (l.encoded_value > 0 ? 1 : -1) * (float)r.Int(1, 127); return l; };
  for (int i = 0; i < 12; ++i) {
    Label l = label(false);
    float mg = r.Chance(.2) ? r.Of({0.f, 4.f, 5.f, -1.f, 1e9f}) : r.F(0, 4.2f);
    Label w = l.WithMargin(mg);
    double want = std::clamp<double>(mg, 0, 4);
    VH_REQUIRE(c, sign(w) == sign(l) && w.DerivativeOutsetSign() == sign(l), "label-category", "label ", l.encoded_value, " with margin ", mg, " is ", w.encoded_value);
    VH_REQUIRE(c, std::fabs(w.encoded_value) <= 127, "label-range", w.encoded_value);
    using S = StrokeVertex::SideCategory; using F = StrokeVertex::ForwardCategory;
    VH_REQUIRE(c, w.DecodeSideCategory() == (sign(l) < 0 ? S::kExteriorLeft : sign(l) ? S::kExteriorRight : S::kInterior) && w.DecodeForwardCategory() == (sign(l) < 0 ? F::kExteriorFront : sign(l) ? F::kExteriorBack : F::kInterior), "label-category");
    if (sign(l)) VH_REQUIRE(c, w.DecodeMargin() <= want + 1e-5 && w.DecodeMargin() >= want - 4. / 126 - 1e-5, "margin", "margin ", mg, " reads back as ", w.DecodeMargin());
    else VH_REQUIRE(c, w.encoded_value == 0 && w.DecodeMargin() == 0, "margin");
    c.Count("labels");
  }
  auto attr = [&] {
    Attr a; a.opacity_shift = r.F(-1, 1); for (float& x : a.hsl_shift) x = r.F(-1, 1);
    a.side_derivative = {r.F(-9, 9), r.F(-9, 9)}, a.forward_derivative = {r.F(-9, 9), r.F(-9, 9)}, a.side_label = label(false), a.forward_label = label(false), a.surface_uv = {r.F(0, 1), r.F(0, 1)};
    return a;
  };
  // Interpolated labels have the full margin.
  auto whole = [&](Label l) { return sign(l) * 127.f; };
  auto lab = [&](Label a, Label b, double t) { return t <= 0 || sign(a) == sign(b) ? whole(a) : t >= 1 ? whole(b) : 0.f; };
  auto flat = [](const Attr& a) { return std::array<float, 6>{a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2], a.surface_uv.x, a.surface_uv.y}; };
  for (int i = 0; i < 8; ++i) {
    Attr a = attr(), b = attr(), d = attr();
    float t = r.Chance(.3) ? r.Of({0.f, 1.f, -.5f, 1.5f}) : r.F(0, 1);
    Attr g = Lerp(a, b, t);
    auto fa = flat(a), fb = flat(b), fd = flat(d), fg = flat(g);
    for (int k = 0; k < 6; ++k) VH_REQUIRE(c, std::fabs(fg[k] - (fa[k] + (double)t * (fb[k] - fa[k]))) <= 2e-6, "lerp", "value ", k, " at ", t, " of ", fa[k], " and ", fb[k], " is ", fg[k]);
    VH_REQUIRE(c, g.side_derivative == (Vec{0, 0}) && g.forward_derivative == (Vec{0, 0}), "lerp-derivative");
    VH_REQUIRE(c, g.side_label.encoded_value == lab(a.side_label, b.side_label, t) && g.forward_label.encoded_value == lab(a.forward_label, b.forward_label, t), "lerp-label", "at ", t, ": ", g.side_label.encoded_value, " ", g.forward_label.encoded_value);
    std::array<float, 3> w = {r.F(0, 1), r.F(0, 1), 0}; w[2] = 1 - w[0] - w[1];
    if (r.Chance(.5)) { int z = r.Below(3); float x = r.Chance(.3) ? r.Of({0.f, 1.f}) : r.F(0, 1); w[z] = 0, w[(z + 1) % 3] = x, w[(z + 2) % 3] = 1 - x; }
    g = BarycentricLerp(a, b, d, w); fg = flat(g);
    for (int k = 0; k < 6; ++k) VH_REQUIRE(c, std::fabs(fg[k] - ((double)w[0] * fa[k] + (double)w[1] * fb[k] + (double)w[2] * fd[k])) <= 4e-6, "barycentric", "value ", k);
    auto blab = [&](Label x, Label y, Label z) { return w[0] == 0 ? lab(y, z, w[2]) : w[1] == 0 ? lab(x, z, w[2]) : w[2] == 0 ? lab(x, y, w[1]) : 0.f; };
    VH_REQUIRE(c, g.side_derivative == (Vec{0, 0}) && g.forward_derivative == (Vec{0, 0}), "barycentric-derivative");
    VH_REQUIRE(c, g.side_label.encoded_value == blab(a.side_label, b.side_label, d.side_label) && g.forward_label.encoded_value == blab(a.forward_label, b.forward_label, d.forward_label), "barycentric-label", "at ", w[0], " ", w[1], " ", w[2]);
    c.Count("interpolations");
  }
  MutableMesh m(StrokeVertex::FullMeshFormat());
  std::vector<StrokeVertex> want;
  auto bits = [&](const StrokeVertex& v) { return v.position.x + v.position.y; };
  for (int i = 0; i < 6; ++i) { StrokeVertex v{{r.F(-99, 99), r.F(-99, 99)}, attr()}; StrokeVertex::AppendToMesh(m, v); want.push_back(v); (void)bits; }
  for (int i = 0; i < 12; ++i) {
    uint32_t k = r.Below(want.size());
    StrokeVertex& v = want[k]; Attr x = attr(); auto& a = v.non_position_attributes;
    switch (r.Below(6)) {
      case 0: v = {{r.F(-99, 99), r.F(-99, 99)}, x}; StrokeVertex::SetInMesh(m, k, v); break;
      case 1: a.side_derivative = x.side_derivative; StrokeVertex::SetSideDerivativeInMesh(m, k, x.side_derivative); break;
      case 2: a.forward_derivative = x.forward_derivative; StrokeVertex::SetForwardDerivativeInMesh(m, k, x.forward_derivative); break;
      case 3: a.side_label = x.side_label; StrokeVertex::SetSideLabelInMesh(m, k, x.side_label); break;
      case 4: a.forward_label = x.forward_label; StrokeVertex::SetForwardLabelInMesh(m, k, x.forward_label); break;
      default: a.surface_uv = x.surface_uv; StrokeVertex::SetSurfaceUvInMesh(m, k, x.surface_uv);
    }
    for (uint32_t q = 0; q < want.size(); ++q) {
      StrokeVertex g = StrokeVertex::GetFromMesh(m, q); auto& w = want[q].non_position_attributes; auto& h = g.non_position_attributes;
      VH_REQUIRE(c, g.position == want[q].position && flat(h) == flat(w) && h.side_derivative == w.side_derivative && h.forward_derivative == w.forward_derivative && h.side_label == w.side_label && h.forward_label == w.forward_label, "mesh-vertex", "vertex ", (int)q, " after a change of vertex ", (int)k);
      VH_REQUIRE(c, StrokeVertex::GetSideDerivativeFromMesh(m, q) == w.side_derivative && StrokeVertex::GetForwardDerivativeFromMesh(m, q) == w.forward_derivative && StrokeVertex::GetSideLabelFromMesh(m, q) == w.side_label && StrokeVertex::GetForwardLabelFromMesh(m, q) == w.forward_label && StrokeVertex::GetSurfaceUvFromMesh(m, q) == w.surface_uv, "mesh-getter", "vertex ", (int)q);
    }
  }
}
VH_PROPERTY(S07) {
  Rng& r = c.rng;
  if (c.idx % 8 == 3) { VertexHelpers(c); return; }
  BrushOpts bo;
  bo.behaviors = false, bo.max_coats = 1, bo.particles = false, bo.textures = false;
  Brush b = RandBrush(r, bo);
  if (b.CoatCount() != 1) throw Skip();
  bool particles = r.Chance(.45);
  BrushTip t = b.GetCoats()[0].tips[0];
  BrushPaint paint;
  int layers = r.Chance(.3) ? 0 : r.Chance(.7) ? 1 : 2;
  auto mapping = r.Chance(.75) ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling;
  for (int i = 0; i < layers; ++i) { BrushPaint::TextureLayer l{.color_texture_uri = *ink::Uri::Parse("/texture:x"), .mapping = mapping}; paint.texture_layers.push_back(l); }
  if (particles) {
    int k = r.Int(0, 2);
    if (k != 1) t.particle_gap_distance_scale = r.F(.3, 3);
    if (k != 0) t.particle_gap_duration = Duration32::Seconds(r.F(.02, .2));
  }
  // Colors, sizes and rotation that change with the stroke.
  int n = r.Int(0, 5);
  for (int i = 0; i < n; ++i) {
    Tgt g = r.Of({Tgt::kHueOffsetInRadians, Tgt::kSaturationMultiplier, Tgt::kLuminosity, Tgt::kOpacityMultiplier, Tgt::kOpacityMultiplier});
    std::array<float, 2> range = {r.F(-.5, 2.2), r.F(-.5, 2.2)};
    if (particles && r.Chance(.3)) g = r.Of({Tgt::kRotationOffsetInRadians, Tgt::kSizeMultiplier, Tgt::kWidthMultiplier, Tgt::kPinchOffset, Tgt::kSlantOffsetInRadians, Tgt::kCornerRoundingOffset});
    if (range[0] == range[1]) continue;
    t.behaviors.push_back({{BrushBehavior::SourceNode{r.Of({Src::kDistanceTraveledInMultiplesOfBrushSize, Src::kDistanceRemainingInMultiplesOfBrushSize, Src::kDirectionAboutZeroInRadians}), r.Chance(.5) ? BrushBehavior::OutOfRange::kClamp : BrushBehavior::OutOfRange::kMirror, {0, r.F(.5, 20)}}, BrushBehavior::TargetNode{g, range}}});
  }
  auto fam = BrushFamily::Create({BrushCoat{{t}, paint}}, "", b.GetFamily().GetInputModel());
  VH_REQUIRE(c, fam.ok(), "family", fam.status().ToString());
  b.SetFamily(*fam);
  double size = b.GetSize(), eps = b.GetEpsilon();
  Pen pen(r, b);
  pen.x = r.Real(-100, 100), pen.y = r.Real(-100, 100);
  bool wild = r.Chance(.3);
  std::vector<StrokeInput> in;
  if (wild) in = Take(pen, r, r.Int(1, 30));
  else {
    double tm = 0, step = size * r.LogReal(.05, particles ? .6 : 3), bend = r.Real(-.5, .5);
    for (int i = r.Int(1, 30); i > 0; --i) {
      in.push_back({.tool_type = pen.tool, .position = {(float)pen.x, (float)pen.y}, .elapsed_time = Duration32::Seconds((float)tm), .stroke_unit_length = pen.unit});
      double d = step * r.Real(.2, 1);
      if (r.Chance(.1)) bend = r.Real(-.5, .5);
      pen.dir += bend * std::min(1., d / size);
      pen.x += d * std::cos(pen.dir), pen.y += d * std::sin(pen.dir), tm += r.Real(.003, .03);
    }
  }
  std::vector<BrushTipState> st = States(b, in);
  InProgressStroke s;
  s.Start(b);
  VH_REQUIRE(c, s.EnqueueInputs(Batch(in), {}).ok() && s.UpdateShape(in.back().elapsed_time).ok(), "update");
  const MutableMesh& m = s.GetMesh(0);
  auto info = [&] { return Cat((int)in.size(), " inputs, ", (int)st.size(), " tip states; ", b); };
  std::vector<StrokeVertex> vs;
  for (uint32_t i = 0; i < m.VertexCount(); ++i) vs.push_back(StrokeVertex::GetFromMesh(m, i));
  auto outlines = s.GetCoatOutlines(0);
  bool uv = particles && layers == 1 && mapping == BrushPaint::TextureMapping::kWinding;
  double far = 0;
  for (auto& x : st) far = std::max<double>({far, std::fabs(x.position.x), std::fabs(x.position.y)});
  auto check_uv = [&](const StrokeVertex& v, const BrushTipState& p) {
    Point want{0, 0};
    double tol = 0;
    if (uv) {
      double ro = p.rotation.ValueInRadians(), dx = (double)v.position.x - p.position.x, dy = (double)v.position.y - p.position.y;
      double x = dx * std::cos(ro) + dy * std::sin(ro), y = dy * std::cos(ro) - dx * std::sin(ro);
      auto part = [&](double q, double ext) { return ext > 1e-30 ? std::clamp(q / ext + .5, 0., 1.) : .5; };
      want = {(float)part(x, p.width), (float)part(y, p.height)};
      double ext = std::min(p.width > 1e-30 ? p.width : 1e30, p.height > 1e-30 ? p.height : 1e30);
      tol = 1e-4 + 4e-6 * (far + p.width + p.height) / ext;
    }
    Point got = v.non_position_attributes.surface_uv;
    VH_REQUIRE(c, std::fabs(got.x - want.x) <= tol && std::fabs(got.y - want.y) <= tol, "surface-uv", "vertex at ", v.position, " of ", p, " has ", got, " want ", want, "; ", info());
    if (uv) c.Count("texture coordinates");
  };
  auto visible = [&](const BrushTipState& x) { return x.width >= b.GetEpsilon() || x.height >= b.GetEpsilon(); };
  std::vector<int> used(vs.size());
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) for (uint32_t k : m.TriangleIndices(i)) used[k] = 1;
  std::vector<char> on(vs.size());
  for (auto o : outlines) for (uint32_t k : o) on[k] = 1;
  if (particles) {
    // Each visible tip state is a piece of its own, in order.
    std::vector<int> piece(vs.size(), -1);
    std::vector<const BrushTipState*> p;
    for (auto& x : st) if (visible(x)) p.push_back(&x);
    VH_REQUIRE(c, outlines.size() <= p.size(), "pieces", (int)outlines.size(), " outlines for ", (int)p.size(), " visible particles; ", info());
    size_t q = 0;
    for (size_t o = 0; o < outlines.size(); ++o, ++q) {
      // Particles too thin to give an outline are left out.
      P mid{0, 0};
      for (uint32_t k : outlines[o]) mid = mid + (1. / outlines[o].size()) * P{vs[k].position.x, vs[k].position.y};
      auto fits = [&](size_t z) {
        Poly h = Hull(TipPoints(*p[z], 24));
        for (uint32_t k : outlines[o]) if (Depth({vs[k].position.x, vs[k].position.y}, h) < -(eps + .01 * std::max(p[z]->width, p[z]->height) + 1e-6 * far)) return false;
        Shift w = ShiftOf(*p[z]), g = ShiftOf(vs[outlines[o][0]].non_position_attributes);
        for (int k = 0; k < 4; ++k) if (std::fabs(w.v[k] - g.v[k]) > 2e-6) return false;
        return true;
      };
      while (q < p.size() && !fits(q)) ++q;
      VH_REQUIRE(c, q < p.size(), "piece", "no particle for outline ", (int)o, " near (", mid.x, ",", mid.y, ") with shifts ", Show(ShiftOf(vs[outlines[o][0]].non_position_attributes)), "; ", info());
      for (uint32_t k : outlines[o]) piece[k] = q;
    }
    VH_REQUIRE(c, q <= p.size(), "pieces");
    for (bool more = true; more;) {
      more = false;
      for (uint32_t i = 0; i < m.TriangleCount(); ++i) { auto ix = m.TriangleIndices(i); int w = std::max({piece[ix[0]], piece[ix[1]], piece[ix[2]]}); for (uint32_t k : ix) if (piece[k] != w) { VH_REQUIRE(c, piece[k] < 0, "piece", "a triangle joins particles; ", info()); piece[k] = w, more = true; } }
    }
    for (size_t i = 0; i < vs.size(); ++i) if (used[i]) {
      VH_REQUIRE(c, piece[i] >= 0, "piece", "a triangle of no particle; ", info());
      Shift w = ShiftOf(*p[piece[i]]), g = ShiftOf(vs[i].non_position_attributes);
      for (int k = 0; k < 4; ++k) VH_REQUIRE(c, std::fabs(w.v[k] - g.v[k]) <= 2e-6, "particle-color", "vertex ", (int)i, " has shifts ", Show(g), " want ", Show(w), "; ", info());
      check_uv(vs[i], *p[piece[i]]);
      c.Count("particle vertices");
    }
  } else {
    std::vector<Poly> hulls(st.size());
    auto tips = [&](size_t z) -> const Poly& { if (hulls[z].empty()) hulls[z] = Hull(TipPoints(st[z], 32)); return hulls[z]; };
    int own = 0, other = 0, far_color = 0;
    for (size_t i = 0; i < vs.size(); ++i) if (used[i]) {
      // Some tip shape not far from it.
      float lo[4], hi[4]; for (int k = 0; k < 4; ++k) lo[k] = 1e9, hi[k] = -1e9;
      P q{vs[i].position.x, vs[i].position.y};
      for (size_t z = 0; z < st.size(); ++z) {
        double reach = 2 * std::max({st[z].width, st[z].height, (float)size}) + 3 * eps;
        auto pos = [&](size_t a) { return P{st[a].position.x, st[a].position.y}; };
        double d = Len(pos(z) - q);
        if (z) d = std::min(d, PtSeg(q, pos(z - 1), pos(z)));
        if (z + 1 < st.size()) d = std::min(d, PtSeg(q, pos(z), pos(z + 1)));
        if (!wild && d > reach) continue;
        Shift w = ShiftOf(st[z]); for (int k = 0; k < 4; ++k) lo[k] = std::min(lo[k], w.v[k]), hi[k] = std::max(hi[k], w.v[k]);
      }
      Shift g = ShiftOf(vs[i].non_position_attributes);
      bool off = false;
      if (lo[0] <= hi[0]) for (int k = 0; k < 4; ++k) {
        float a = 1e9, b2 = -1e9; for (auto& x : st) a = std::min(a, ShiftOf(x).v[k]), b2 = std::max(b2, ShiftOf(x).v[k]);
if (!(g.v[k] >= a - 1e-3 && g.v[k] <= b2 + 1e-3)) off = true;  // Colors are extrapolated at some intersections.
        if (!(g.v[k] >= lo[k] - .05 && g.v[k] <= hi[k] + .05)) off = true;
      }
      else c.Count("far vertices");
      far_color += off;
      int whose = -1;
      for (size_t z = 0; z < st.size() && whose > -2; ++z) {
        if (Len(P{st[z].position.x, st[z].position.y} - q) > 2 * std::max(st[z].width, st[z].height) + 2 * eps) continue;
        if (std::fabs(Depth(q, tips(z))) <= 2 * eps + .01 * size) whose = whose == -1 ? (int)z : -2;
      }
      if (whose >= 0) { Shift w = ShiftOf(st[whose]); bool same = true; for (int k = 0; k < 4; ++k) same &= std::fabs(w.v[k] - g.v[k]) <= 1e-3; ++(same ? own : other); }
      check_uv(vs[i], st[0]);
      c.Count("stroke vertices");
    }
    VH_REQUIRE(c, far_color <= 1 + .2 * vs.size(), "color", far_color, " of ", (int)vs.size(), " vertices have a color unlike those of all tip shapes around them; ", info());
    c.Count("colors of their tip", own), c.Count("other colors", other);
    if (!wild && own + other >= 12) VH_REQUIRE(c, other <= .5 * (own + other), "color-of-another-tip", other, " of ", own + other, " vertices on the border of a single tip shape have the color of another; ", info());
  }
  // Antialiasing: what is on the outline can be moved out, and what is inside cannot.
  int inside_ext = 0, inside = 0, out_int = 0, out = 0, good = 0, away = 0;
  for (size_t i = 0; i < vs.size(); ++i) if (used[i] && !on[i]) { ++inside; auto& a = vs[i].non_position_attributes; inside_ext += a.side_label.DerivativeOutsetSign() != 0 || a.forward_label.DerivativeOutsetSign() != 0; }
  for (auto o : outlines) for (size_t k = 0; k < o.size(); ++k) if (used[o[k]]) {
    auto& a = vs[o[k]].non_position_attributes; ++out;
    float ss = a.side_label.DerivativeOutsetSign(), fs = a.forward_label.DerivativeOutsetSign();
    if (ss == 0 && fs == 0) { ++out_int; continue; }
    P v0{vs[o[(k + o.size() - 1) % o.size()]].position.x, vs[o[(k + o.size() - 1) % o.size()]].position.y}, v1{vs[o[k]].position.x, vs[o[k]].position.y}, v2{vs[o[(k + 1) % o.size()]].position.x, vs[o[(k + 1) % o.size()]].position.y};
    // Clockwise: the outside is on the left of each edge.
    P e0 = v1 - v0, e1 = v2 - v1;
    if (Len(e0) == 0 || Len(e1) == 0) continue;
    P nrm = (1 / Len(e0)) * P{-e0.y, e0.x} + (1 / Len(e1)) * P{-e1.y, e1.x};
    P mv{ss * a.side_derivative.x + fs * a.forward_derivative.x, ss * a.side_derivative.y + fs * a.forward_derivative.y};
    double dot = nrm.x * mv.x + nrm.y * mv.y;
    if (dot > 0) ++good; else ++away;
  }
  if (out >= 12 && !wild) {
    VH_REQUIRE(c, out_int <= .15 * out + 1, "outline-label", out_int, " of ", out, " vertices on an outline are labeled as inside; ", info());
    VH_REQUIRE(c, away <= .12 * (good + away) + 1, "moved-in", away, " of ", good + away, " vertices on an outline would move into the stroke; ", info());
    VH_REQUIRE(c, inside_ext <= .3 * out, "inside-label", inside_ext, " vertices inside are labeled as outside; ", info());
  }
  c.Count("inside", inside), c.Count("inside exterior label", inside_ext), c.Count("outline", out), c.Count("outline interior label", out_int), c.Count("moved out", good), c.Count("moved in", away);
  if (m.TriangleCount() > 2) c.NonTrivial();
  c.Sig((uint64_t)m.TriangleCount()), c.Sig((uint64_t)st.size()), c.Sig(m.VertexCount() ? m.VertexPosition(0).x : 0);
  c.Sample((int)in.size(), " inputs, ", (int)st.size(), " tip states, ", (int)vs.size(), " vertices, ", layers, " texture layers");
}
}  // namespace
}  // namespace vh
