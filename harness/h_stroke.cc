// Strokes: input batches, incremental shape building, input and tip modeling,
// tip shapes and extrusion, strokes as values.
#include "strokegen.h"
#include <optional>
#include <set>
#include "geo.h"
#include "vh_main.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
#include "ink/strokes/internal/stroke_shape_builder.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"
namespace vh {
namespace {
using ink::Envelope;
using ink::InProgressStroke;
using ink::MutableMesh;
using ink::PartitionedMesh;
using ink::Point;
using ink::Rect;
using ink::Stroke;
using ink::strokes_internal::StrokeVertex;
using AttrId = ink::MeshFormat::AttributeId;
using Inputs = std::vector<StrokeInput>;
bool SameInput(const StrokeInput& a, const StrokeInput& b) {
  return a.tool_type == b.tool_type && SameF(a.position.x, b.position.x) && SameF(a.position.y, b.position.y) && a.elapsed_time == b.elapsed_time &&
         a.stroke_unit_length == b.stroke_unit_length && SameF(a.pressure, b.pressure) && a.tilt == b.tilt && a.orientation == b.orientation;
}
Inputs Read(const StrokeInputBatch& b) { Inputs v; for (size_t i = 0; i < b.Size(); ++i) v.push_back(b.Get(i)); return v; }
void SameInputs(Ctx& c, const StrokeInputBatch& b, const Inputs& m, const char* key) {
  VH_REQUIRE(c, b.Size() == m.size(), key, b.Size(), " inputs, want ", m.size());
  VH_REQUIRE(c, b.IsEmpty() == m.empty(), key);
  for (size_t i = 0; i < m.size(); ++i) VH_REQUIRE(c, SameInput(b.Get(i), m[i]), key, "input ", i, ": ", b.Get(i), " want ", m[i]);
}
// ---------------------------------------------------------------- S01
enum Verdict { kBad, kGood, kEither };
Verdict Single(const StrokeInput& i) {
  int t = (int)i.tool_type;
  if (t < 0 || t > 3) return kBad;
  if (!std::isfinite(i.position.x) || !std::isfinite(i.position.y)) return kBad;
  float s = i.elapsed_time.ToSeconds();
  if (!(std::isfinite(s) && s >= 0)) return kBad;
  float u = i.stroke_unit_length.ToCentimeters();
  if (!(u == 0 || (std::isfinite(u) && u > 0))) return kBad;
  if (!(i.pressure == -1 || (i.pressure >= 0 && i.pressure <= 1))) return kBad;
  float q = 1.57079632679489661923f, ti = i.tilt.ValueInRadians(), o = i.orientation.ValueInRadians();
  if (!(ti == -1 || (ti >= 0 && ti <= q))) return kBad;
  if (!(o == -1 || (o >= 0 && o <= 4 * q))) return kBad;
  return o == 4 * q ? kEither : kGood;
}
bool Consecutive(const StrokeInput& a, const StrokeInput& b) {
  if (a.tool_type != b.tool_type || a.stroke_unit_length != b.stroke_unit_length) return false;
  if ((a.pressure == -1) != (b.pressure == -1) || (a.tilt.ValueInRadians() == -1) != (b.tilt.ValueInRadians() == -1) || (a.orientation.ValueInRadians() == -1) != (b.orientation.ValueInRadians() == -1)) return false;
  float s = a.elapsed_time.ToSeconds(), t = b.elapsed_time.ToSeconds();
  if (s > t) return false;
  return !(s == t && a.position.x == b.position.x && a.position.y == b.position.y);
}
Verdict Sequence(const Inputs& v) {
  Verdict r = kGood;
  for (size_t i = 0; i < v.size(); ++i) {
    Verdict s = Single(v[i]);
    if (s == kBad || (i && !Consecutive(v[i - 1], v[i]))) return kBad;
    if (s == kEither) r = kEither;
  }
  return r;
}
StrokeInput Mutate(Rng& r, StrokeInput i, const StrokeInput& prev) {
  switch (r.Below(14)) {
    case 0: i.position.x = r.Of({kInf, -kInf, kNan, kMax, -0.f}); break;
    case 1: i.position.y = r.Of({kInf, -kInf, kNan, kMax}); break;
    case 2: i.elapsed_time = Duration32::Seconds(r.Of({kInf, -1.f, -kInf, -1e-30f, kNan, kMax, -0.f})); break;
    case 3: i.elapsed_time = prev.elapsed_time; break;
    case 4: i.elapsed_time = prev.elapsed_time; i.position = prev.position; break;
    case 5: i.pressure = r.Of({-1.f, 0.f, 1.f, 1.0000001f, -1e-9f, -0.f, kInf, kNan, -2.f, 0.5f}); break;
    case 6: i.tilt = Angle::Radians(r.Of({-1.f, 0.f, 1.5707964f, 1.5707965f, -1e-9f, kInf, kNan, 0.5f})); break;
    case 7: i.orientation = Angle::Radians(r.Of({-1.f, 0.f, 6.283185f, 6.2831855f, 6.283186f, 7.f, -1e-9f, kNan, kInf, 2.f})); break;
    case 8: i.tool_type = (StrokeInput::ToolType)r.Of({0, 1, 2, 3, 4, -1, 17}); break;
    case 9: i.stroke_unit_length = ink::PhysicalDistance::Centimeters(r.Of({0.f, 1.f, -1.f, kInf, kNan, 0.1f, 1e-45f})); break;
    case 10: i.elapsed_time = prev.elapsed_time - Duration32::Seconds(.001f); break;
    case 11: i.position = prev.position; break;
    default: break;
  }
  return i;
}
VH_PROPERTY(S01) {
  Rng& r = c.rng;
  Pen pen(r, 5);
  std::vector<StrokeInputBatch> bs(3);
  std::vector<Inputs> ms(3);
  int n = r.Int(6, 30);
  const bool huge = c.idx % 80 == 5;
  size_t refused = 0;
  for (int k = 0; k < n; ++k) {
    size_t a = r.Below(3), b = r.Below(3);
    StrokeInputBatch& x = bs[a];
    Inputs& m = ms[a];
    auto prev = m.empty() ? StrokeInput() : m.back();
    auto Ok = [&](bool got, Verdict want, const char* what) {
      VH_REQUIRE(c, (want == kEither || got == (want == kGood)), "batch-validation", what, " accepted=", got, " batch ", x);
      if (!got) { ++refused; c.Count("operations_refused"); } else c.Count("operations_accepted");
      c.Sig(got);
    };
    // A few inputs, each maybe wrong, or many of which at most one is wrong, often at an end.
    auto take = [&](int few, double wrong) {
      bool many = r.Chance(.3);
      Inputs add = Take(pen, r, many ? huge ? r.Int(40, 900) : r.Int(7, 40) : r.Int(0, few));
      size_t one = r.Chance(.3) ? add.size() : r.Chance(.4) ? add.size() - 1 : r.Below(add.size() + 1);
      for (size_t i = 0; i < add.size(); ++i) if (many ? i == one : r.Chance(wrong)) add[i] = Mutate(r, add[i], i ? add[i - 1] : prev);
      return add;
    };
    int op = (int)r.Below(13);
    c.Sig(op);
    switch (op) {
      case 0: case 1: {
        StrokeInput i = pen.Next(r);
        if (r.Chance(.4)) i = Mutate(r, i, prev);
        Inputs w = m; w.push_back(i);
        // Only the new input and its place after the last one are judged.
        Verdict v = Single(i);
        if (!m.empty() && !Consecutive(m.back(), i)) v = kBad;
        bool ok = x.Append(i).ok();
        Ok(ok, v, "append one");
        if (ok) m = w;
        break;
      }
      case 2: case 3: {
        Inputs add = take(4, .2);
        Verdict v = Sequence(add);
        if (!m.empty() && !add.empty() && !Consecutive(m.back(), add[0])) v = kBad;
        bool ok = x.Append(absl::MakeConstSpan(add)).ok();
        Ok(ok, v, "append span");
        if (ok) m.insert(m.end(), add.begin(), add.end());
        break;
      }
      case 4: {
        Inputs add = take(6, .1);
        auto y = StrokeInputBatch::Create(add);
        Ok(y.ok(), Sequence(add), "create");
        if (y.ok()) x = *y, m = add;
        break;
      }
      case 5: {  // append a batch, maybe itself or one sharing storage
        Inputs add = ms[b];
        bool want = m.empty() || add.empty() || Consecutive(m.back(), add[0]);
        bool ok = x.Append(bs[b]).ok();
        Ok(ok, want ? kGood : kBad, "append batch");
        if (ok) m.insert(m.end(), add.begin(), add.end());
        if (m.size() > 200) x.Clear(), m.clear();
        break;
      }
      case 6: {
        if (m.empty()) { VH_REQUIRE(c, CheckFails([&] { (void)x.Set(0, pen.Next(r)); }), "set-out-of-range"); break; }
        size_t i = r.Below(m.size());
        StrokeInput s = m[i];
        s.position.x += r.Of({0.f, 1.f, -2.f});
        if (r.Chance(.5)) s = Mutate(r, s, i ? m[i - 1] : s);
        if (r.Chance(.1)) s = pen.Next(r);
        Verdict v = Single(s);
        if (m.size() > 1) { if (i > 0 && !Consecutive(m[i - 1], s)) v = kBad; if (i + 1 < m.size() && !Consecutive(s, m[i + 1])) v = kBad; }
        bool ok = x.Set(i, s).ok();
        Ok(ok, v, "set");
        if (ok) m[i] = s;
        break;
      }
      case 7: {
        size_t i = r.Below(m.size() + 1), cnt = r.Below(m.size() + 2);
        if (r.Chance(.3)) { x.Erase(i); m.resize(i); }
        else { x.Erase(i, cnt); m.erase(m.begin() + i, m.begin() + std::min(m.size(), i + cnt)); }
        VH_REQUIRE(c, CheckFails([&] { x.Erase(m.size() + 1 + r.Below(3)); }), "erase-out-of-range");
        break;
      }
      case 8: x = bs[b]; m = ms[b]; c.Count("copies"); break;
      case 9: { StrokeInputBatch y = std::move(x); x = y; if (r.Chance(.3)) { x.Clear(); m.clear(); } break; }
      case 10: x = bs[b].MakeDeepCopy(); m = ms[b]; break;
      case 11: {
        ink::AffineTransform t{r.F(-2, 2), r.F(-2, 2), r.F(-9, 9), r.F(-2, 2), r.F(-2, 2), r.F(-9, 9)};
        x.Transform(t);
        for (auto& i : m) {
          Point w = t.Apply(i.position);
          i.position = w;
        }
        break;
      }
      case 12: x.Clear(); m.clear(); break;
    }
    for (int j = 0; j < 3; ++j) SameInputs(c, bs[j], ms[j], "batch-contents");
    // Iterators see what indexing sees.
    Inputs it;
    for (const StrokeInput& i : x) it.push_back(i);
    VH_REQUIRE(c, it.size() == m.size(), "iterator-count");
    for (size_t i = 0; i < m.size(); ++i) VH_REQUIRE(c, SameInput(it[i], m[i]), "iterator-value", it[i], " want ", m[i]);
    if (!m.empty()) { auto q = x.begin(); auto p = q++; VH_REQUIRE(c, SameInput(*p, m[0]), "iterator-post-increment"); VH_REQUIRE(c, (m.size() == 1) == (q == x.end()), "iterator-end"); VH_REQUIRE(c, SameInput(*p.operator->(), m[0]), "iterator-arrow"); }
    VH_REQUIRE(c, CheckFails([&] { (void)x.Get(m.size()); }), "get-out-of-range");
    VH_REQUIRE(c, x.GetToolType() == (m.empty() ? StrokeInput::ToolType::kUnknown : m[0].tool_type), "batch-tool");
    VH_REQUIRE(c, x.HasPressure() == (!m.empty() && m[0].HasPressure()), "batch-pressure");
    VH_REQUIRE(c, x.HasTilt() == (!m.empty() && m[0].HasTilt()), "batch-tilt");
    VH_REQUIRE(c, x.HasOrientation() == (!m.empty() && m[0].HasOrientation()), "batch-orientation");
    VH_REQUIRE(c, x.HasStrokeUnitLength() == (!m.empty() && m[0].HasStrokeUnitLength()), "batch-unit");
    VH_REQUIRE(c, x.GetStrokeUnitLength().has_value() == x.HasStrokeUnitLength() && (!x.HasStrokeUnitLength() || *x.GetStrokeUnitLength() == m[0].stroke_unit_length), "batch-unit-value");
    float dur = m.empty() ? 0 : m.back().elapsed_time.ToSeconds() - m[0].elapsed_time.ToSeconds();
    VH_REQUIRE(c, x.GetDuration().ToSeconds() == dur, "batch-duration", x.GetDuration().ToSeconds(), " want ", dur);
    c.Sig(m.size());
  }
  if (refused) c.NonTrivial();
  c.Sample(n, " operations, sizes ", ms[0].size(), " ", ms[1].size(), " ", ms[2].size(), ", refused ", refused);
}
// ---------------------------------------------------------------- S02, S03, S04
struct Geo {
  struct Coat { std::string v, i; std::vector<std::vector<uint32_t>> outlines; Envelope bounds; };
  std::vector<Coat> coats;
};
std::string Bytes(absl::Span<const std::byte> s) { return std::string((const char*)s.data(), s.size()); }
Geo Snap(const InProgressStroke& s) {
  Geo g;
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) {
    Geo::Coat k1{Bytes(s.GetMesh(k).RawVertexData()), Bytes(s.GetMesh(k).RawIndexData()), {}, s.GetMeshBounds(k)};
    for (auto o : s.GetCoatOutlines(k)) k1.outlines.emplace_back(o.begin(), o.end());
    g.coats.push_back(std::move(k1));
  }
  return g;
}
void SameGeo(Ctx& c, const Geo& a, const Geo& b, const char* key, const std::string& what) {
  VH_REQUIRE(c, a.coats.size() == b.coats.size(), key, what);
  for (size_t k = 0; k < a.coats.size(); ++k) {
    VH_REQUIRE(c, a.coats[k].v.size() == b.coats[k].v.size(), key, what, ": coat ", k, " vertex bytes ", a.coats[k].v.size(), " want ", b.coats[k].v.size());
    VH_REQUIRE(c, a.coats[k].i == b.coats[k].i, key, what, ": triangles of coat ", k);
    if (a.coats[k].v != b.coats[k].v) {
      // Layout of the full stroke format: x y opacity h s l, side derivative (2), side label, forward derivative (2), forward label, u v.
      static const char* kField[14] = {"position", "position", "opacity", "color", "color", "color", "side-derivative", "side-derivative", "side-label", "forward-derivative", "forward-derivative", "forward-label", "uv", "uv"};
      const float *p = (const float*)a.coats[k].v.data(), *q = (const float*)b.coats[k].v.data();
      size_t n = a.coats[k].v.size() / 4;
      // The derivatives are estimates that depend on the order of triangulation for
      // vertices inside of folds; they are not compared.
      for (int f : {0, 1, 2, 3, 4, 5, 12, 13, 8, 11})
        for (size_t i = f; i < n; i += 14)
          // Labels also hold a margin, an estimate like the derivatives.
          if (f == 8 || f == 11 ? (p[i] > 0) - (p[i] < 0) != (q[i] > 0) - (q[i] < 0) : !(SameF(p[i], q[i]) || p[i] == q[i])) {
            size_t z = i - f;
            std::string w = std::string(key) + "-" + kField[f] + (q[z + 8] == 0 ? "-side-interior" : "") + (q[z + 11] == 0 ? "-forward-interior" : "");
            throw Violation(w, Cat(what, ": coat ", k, " vertex ", i / 14, " of ", n / 14, " ", kField[f], " is ", p[i], " want ", q[i]));
          }
    }
    VH_REQUIRE(c, a.coats[k].outlines == b.coats[k].outlines, key, what, ": outlines of coat ", k);
    auto x = a.coats[k].bounds.AsRect(), y = b.coats[k].bounds.AsRect();
    VH_REQUIRE(c, x.has_value() == y.has_value() && (!x || (x->XMin() == y->XMin() && x->XMax() == y->XMax() && x->YMin() == y->YMin() && x->YMax() == y->YMax())), key, what, ": bounds of coat ", k, " are ", x.value_or(Rect()), " want ", y.value_or(Rect()));
  }
}
// Builds the stroke at once.
Geo Fresh(Ctx& c, const Brush& brush, const Inputs& real, const Inputs& pred, Duration32 t) {
  InProgressStroke s;
  s.Start(brush);
  auto st = s.EnqueueInputs(Batch(real), Batch(pred));
  VH_REQUIRE(c, st.ok(), "enqueue-refused", st);
  st = s.UpdateShape(t);
  VH_REQUIRE(c, st.ok(), "update-refused", st);
  return Snap(s);
}
VH_PROPERTY(S02) {
  Rng& r = c.rng;
  BrushOpts bo;
  InProgressStroke s;  // reused over several strokes
  const bool longer = c.idx % 60 == 7;  // hundreds of inputs
  int strokes = longer ? 1 : r.Int(1, 3);
  size_t updates = 0, verts = 0;
  for (int k = 0; k < strokes; ++k) {
    Brush brush = RandBrush(r, bo);
    if (k && r.Chance(.2)) s.Clear();
    s.Start(brush);
    Pen pen(r, brush);
    Inputs real, pred;
    Duration32 now = Duration32::Zero();
    int steps = longer ? r.Int(8, 24) : r.Int(1, 8);
    for (int i = 0; i < steps; ++i) {
      Inputs add = Take(pen, r, r.Chance(.2) ? 0 : longer ? r.Int(1, r.Chance(.2) ? 150 : 40) : r.Int(1, r.Chance(.2) ? 12 : 4));
      Pen ahead = pen;
      if (r.Chance(.3)) ahead.dir += r.Real(-3, 3);
      Inputs p = Take(ahead, r, r.Chance(.5) ? 0 : r.Int(1, 5));
      // Sometimes in two calls; the last prediction counts.
      if (r.Chance(.2) && add.size() > 1) {
        size_t h = 1 + r.Below(add.size() - 1);
        VH_REQUIRE(c, s.EnqueueInputs(Batch(Inputs(add.begin(), add.begin() + h)), Batch(r.Chance(.5) ? Inputs(add.begin() + h, add.end()) : Inputs())).ok(), "enqueue-refused");
        VH_REQUIRE(c, s.EnqueueInputs(Batch(Inputs(add.begin() + h, add.end())), Batch(p)).ok(), "enqueue-refused");
      } else {
        auto st = s.EnqueueInputs(Batch(add), Batch(p));
        VH_REQUIRE(c, st.ok(), "enqueue-refused", st);
      }
      bool fin = i + 1 == steps && r.Chance(.5);
      if (fin) { s.FinishInputs(); p.clear(); }
      real.insert(real.end(), add.begin(), add.end());
      pred = p;
      if (r.Chance(.7)) now = std::max(now, Duration32::Seconds((float)(pen.t + r.Real(-.05, .05))));
      auto st = s.UpdateShape(now);
      VH_REQUIRE(c, st.ok(), "update-refused", st);
      ++updates;
      c.Count("updates");
      if (!p.empty()) c.Count("updates_with_prediction");
      if (add.empty() && p.empty()) c.Count("updates_without_inputs");
      Inputs all = real;
      all.insert(all.end(), pred.begin(), pred.end());
      SameInputs(c, s.GetInputs(), all, "processed-inputs");
      VH_REQUIRE(c, s.RealInputCount() == real.size() && s.PredictedInputCount() == pred.size() && s.InputCount() == all.size(), "input-counts");
      if (i + 1 == steps || r.Chance(longer ? .1 : .4)) {
        Geo got = Snap(s), want = Fresh(c, brush, real, pred, now);
        c.Count("shapes_compared");
        try { SameGeo(c, got, want, "incremental-shape", Cat("step ", i, " of ", steps, ", stroke ", k, ", real ", real.size(), ", predicted ", pred.size(), ", now ", now.ToSeconds()));
        } catch (const Violation& v) { throw Violation(v.key, Cat(v.what(), "; ", brush)); }
        for (auto& x : got.coats) { verts += x.v.size() / 64; c.Sig(x.v.size()); c.Sig(x.i.size()); }
      }
    }
  }
  if (updates > 1 && verts) c.NonTrivial();
  c.Sample(updates, " updates in ", strokes, " strokes, about ", verts, " vertices");
}
// ---------------------------------------------------------------- S03
using Vtx = std::array<float, 14>;  // a vertex of the full stroke format
struct Tri { std::array<Vtx, 3> v; bool operator<(const Tri& o) const { return v < o.v; } };
Vtx VertexAt(const MutableMesh& m, uint32_t i) {
  Vtx v;
  auto raw = m.RawVertexData();
  VH_REQUIRE(Ctx(), m.VertexStride() == sizeof v && raw.size() == m.VertexCount() * sizeof v, "vertex-stride");
  std::memcpy(v.data(), raw.data() + (size_t)i * sizeof v, sizeof v);
  return v;
}
// Position and color only: what a renderer draws, anti-aliasing aside.
Vtx Drawn(Vtx v) { for (int k : {6, 7, 8, 9, 10, 11}) v[k] = 0; for (float& f : v) if (f == 0) f = 0; return v; }
void Triangles(const InProgressStroke& s, std::multiset<Tri>& out) {
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) {
    const MutableMesh& m = s.GetMesh(k);
    std::vector<Vtx> v(m.VertexCount());
    for (uint32_t i = 0; i < v.size(); ++i) v[i] = Drawn(VertexAt(m, i));
    for (uint32_t t = 0; t < m.TriangleCount(); ++t) { auto x = m.TriangleIndices(t); out.insert({{v.at(x[0]), v.at(x[1]), v.at(x[2])}}); }
  }
}
// An upper bound of the time for which time-dependent behaviors of the brush stay active.
std::optional<double> ActiveSeconds(const Brush& b) {
  std::optional<double> r;
  for (const BrushCoat& c : b.GetCoats())
    for (const BrushTip& t : c.tips)
      for (const BrushBehavior& x : t.behaviors)
        for (const auto& n : x.nodes)
          if (auto* s = std::get_if<BrushBehavior::SourceNode>(&n)) {
            double scale = s->source == Src::kTimeSinceInputInSeconds ? 1 : s->source == Src::kTimeSinceInputInMillis ? 1e-3 : 0;
            if (scale) r = std::max(r.value_or(0), scale * std::max(s->source_value_range[0], s->source_value_range[1]));
          }
  return r;
}
// The same object before and after a refused or idle operation.
struct Whole {
  Geo g;
  Inputs in;
  size_t real;
  bool fin, needs;
  std::optional<Rect> region;
  explicit Whole(const InProgressStroke& s) : g(Snap(s)), in(Read(s.GetInputs())), real(s.RealInputCount()), fin(s.InputsAreFinished()), needs(s.NeedsUpdate()), region(s.GetUpdatedRegion().AsRect()) {}
  void Same(Ctx& c, const InProgressStroke& s, const char* key, bool with_region = true, bool with_needs = true) const {
    Whole o(s);
    SameGeo(c, o.g, g, key, "the shape changed");
    SameInputs(c, s.GetInputs(), in, key);
    VH_REQUIRE(c, real == o.real && fin == o.fin, key, "counts or flags changed");
    if (with_needs) VH_REQUIRE(c, needs == o.needs, key, "needs update changed");
    if (with_region) VH_REQUIRE(c, region.has_value() == o.region.has_value() && (!region || (region->XMin() == o.region->XMin() && region->XMax() == o.region->XMax() && region->YMin() == o.region->YMin() && region->YMax() == o.region->YMax())), key, "the updated region changed");
  }
};
VH_PROPERTY(S03) {
  Rng& r = c.rng;
  BrushOpts bo;
  InProgressStroke s;
  size_t refused = 0, updates = 0, changed_total = 0;
  auto NotStarted = [&] {
    VH_REQUIRE(c, s.GetBrush() == nullptr && s.BrushCoatCount() == 0 && s.InputsAreFinished() && !s.NeedsUpdate() && s.InputCount() == 0 && s.RealInputCount() == 0 && s.GetInputs().IsEmpty() && s.GetUpdatedRegion().IsEmpty(), "not-started-state");
    Pen p(r, 5.);
    VH_REQUIRE(c, !s.EnqueueInputs(Batch(Take(p, r, 2)), {}).ok() && !s.UpdateShape(Duration32::Zero()).ok(), "use-before-start");
    s.FinishInputs();
    VH_REQUIRE(c, CheckFails([&] { (void)s.GetMesh(0); }) && CheckFails([&] { (void)s.GetMeshBounds(0); }) && CheckFails([&] { (void)s.GetCoatOutlines(0); }), "coat-out-of-range");
    refused += 2;
  };
  if (r.Chance(.3)) NotStarted();
  int strokes = r.Int(1, 2);
  for (int k = 0; k < strokes; ++k) {
    Brush brush = RandBrush(r, bo);
    if (k && r.Chance(.3)) { s.Clear(); NotStarted(); }
    s.Start(brush);
    VH_REQUIRE(c, s.GetBrush() && s.BrushCoatCount() == brush.CoatCount() && !s.InputsAreFinished() && s.InputCount() == 0 && s.GetUpdatedRegion().IsEmpty(), "started-state");
    for (uint32_t i = 0; i < s.BrushCoatCount(); ++i) VH_REQUIRE(c, s.GetMesh(i).VertexCount() == 0 && s.GetMesh(i).TriangleCount() == 0 && s.GetMeshBounds(i).IsEmpty() && s.GetCoatOutlines(i).empty(), "started-empty");
    VH_REQUIRE(c, CheckFails([&] { (void)s.GetMesh(s.BrushCoatCount()); }), "coat-out-of-range");
    std::optional<double> active = ActiveSeconds(brush);
    Pen pen(r, brush);
    Inputs real, shown_pred;
    Duration32 now = Duration32::Zero();
    int steps = r.Int(2, 9);
    bool fin = false;
    std::multiset<Tri> at_reset;  // what was drawn when the region was last reset
    for (int i = 0; i < steps; ++i) {
      // Refused operations.
      if (r.Chance(.5)) {
        Whole before(s);
        switch (r.Below(5)) {
          case 0: VH_REQUIRE(c, !s.UpdateShape(Duration32::Seconds(-r.F(1e-6, 3))).ok(), "negative-time-accepted"); break;
          case 1: if (now > Duration32::Zero()) VH_REQUIRE(c, !s.UpdateShape(Duration32::Seconds(std::nextafter(now.ToSeconds(), 0.f))).ok(), "decreasing-time-accepted"); break;
          case 2: if (!real.empty() && !fin) {  // another tool, from the past, or a repetition
            StrokeInput x = real.back();
            Pen ahead = pen;
            StrokeInput nxt = ahead.Next(r);
            switch (r.Below(4)) {
              case 0: break;
              case 1: x = nxt; x.tool_type = x.tool_type == StrokeInput::ToolType::kMouse ? StrokeInput::ToolType::kTouch : StrokeInput::ToolType::kMouse; break;
              case 2: x = nxt; x.pressure = x.HasPressure() ? StrokeInput::kNoPressure : .5f; break;
              default: x = real.back(); x.position.x += 1; x.elapsed_time = Duration32::Seconds(std::nextafter(x.elapsed_time.ToSeconds(), -1.f)); if (x.elapsed_time < Duration32::Zero()) x = real.back();
            }
            bool as_pred = r.Chance(.5);
            VH_REQUIRE(c, !s.EnqueueInputs(as_pred ? StrokeInputBatch() : Batch({x}), as_pred ? Batch({x}) : StrokeInputBatch()).ok(), "invalid-inputs-accepted", x, " after ", real.back());
          } break;
          case 3: if (!fin) {  // a prediction that does not continue the new inputs
            Pen ahead = pen;
            Inputs a = Take(ahead, r, 2);
            StrokeInput x = a.back();
            if (r.Chance(.5)) x.tilt = x.HasTilt() ? StrokeInput::kNoTilt : Angle::Radians(.5f);
            VH_REQUIRE(c, !s.EnqueueInputs(Batch(a), Batch({x})).ok(), "invalid-prediction-accepted");
          } break;
          case 4: if (fin) { Pen ahead = pen; VH_REQUIRE(c, !s.EnqueueInputs(Batch(Take(ahead, r, 2)), {}).ok(), "inputs-after-finish-accepted"); VH_REQUIRE(c, !s.EnqueueInputs({}, {}).ok(), "inputs-after-finish-accepted"); } break;
        }
        before.Same(c, s, "refused-operation-has-effect");
        ++refused;
        c.Count("refused_operations");
      }
      if (r.Chance(.25)) { s.ResetUpdatedRegion(); VH_REQUIRE(c, s.GetUpdatedRegion().IsEmpty(), "reset-region"); at_reset.clear(); Triangles(s, at_reset); }
      // New inputs.
      bool queued = false;
      Inputs pred;
      if (!fin) {
        Inputs add = Take(pen, r, r.Chance(.3) ? 0 : r.Int(1, 5));
        Pen ahead = pen;
        pred = Take(ahead, r, r.Chance(.6) ? 0 : r.Int(1, 4));
        Whole before(s);
        auto st = s.EnqueueInputs(Batch(add), Batch(pred));
        VH_REQUIRE(c, st.ok(), "enqueue-refused", st);
        before.Same(c, s, "enqueue-changes-shape", true, false);
        queued = !add.empty() || !pred.empty();
        if (queued) VH_REQUIRE(c, s.NeedsUpdate(), "pending-inputs-need-update");
        real.insert(real.end(), add.begin(), add.end());
        // More while those wait: refused ones change nothing, accepted ones
        // add to the inputs and replace the predictions.
        if (r.Chance(.35) && !real.empty()) {
          Whole waiting(s);
          StrokeInput x = real.back();
          switch (r.Below(4)) {
            case 0: break;  // a repetition
            case 1: if (x.elapsed_time > Duration32::Zero()) x.position.x += 1, x.elapsed_time = Duration32::Seconds(x.elapsed_time.ToSeconds() / 2); break;
            case 2: { Pen next = pen; x = next.Next(r); x.tool_type = x.tool_type == StrokeInput::ToolType::kMouse ? StrokeInput::ToolType::kTouch : StrokeInput::ToolType::kMouse; break; }
            default: { Pen next = pen; x = next.Next(r); x.pressure = x.HasPressure() ? StrokeInput::kNoPressure : .5f; }
          }
          bool as_pred = r.Chance(.5);
          auto no = s.EnqueueInputs(as_pred ? StrokeInputBatch() : Batch({x}), as_pred ? Batch({x}) : StrokeInputBatch());
          VH_REQUIRE(c, !no.ok(), "invalid-inputs-accepted-while-others-wait", x, " after ", real.back());
          waiting.Same(c, s, "refused-operation-has-effect");
          ++refused;
          c.Count("refused_while_waiting");
        }
        for (int more = r.Chance(.4) ? r.Int(1, 2) : 0; more > 0; --more) {
          Inputs add2 = Take(pen, r, r.Chance(.4) ? 0 : r.Int(1, 3));
          Pen beyond = pen;
          pred = Take(beyond, r, r.Chance(.5) ? 0 : r.Int(1, 3));
          auto st2 = s.EnqueueInputs(Batch(add2), Batch(pred));
          VH_REQUIRE(c, st2.ok(), "second-enqueue-refused", st2);
          before.Same(c, s, "enqueue-changes-shape", true, false);
          real.insert(real.end(), add2.begin(), add2.end());
          add.insert(add.end(), add2.begin(), add2.end());
          queued = queued || !add2.empty() || !pred.empty();
          c.Count("enqueued_while_waiting");
        }
        if (i + 2 >= steps || r.Chance(.1)) {
          fin = true;
          s.FinishInputs();
          if (r.Chance(.3)) s.FinishInputs();
          VH_REQUIRE(c, s.InputsAreFinished(), "finished-flag");
          if (!add.empty()) VH_REQUIRE(c, s.NeedsUpdate(), "pending-inputs-need-update");
          pred.clear();
        }
      }
      if (r.Chance(.7)) now = std::max(now, Duration32::Seconds((float)(pen.t + r.Real(-.05, .05))));
      if (active && r.Chance(.2)) now = Duration32::Seconds((float)(std::max<double>(now.ToSeconds(), pen.t) + r.Real(0, 1.2) * std::max(*active, 0.)));
      auto st = s.UpdateShape(now);
      VH_REQUIRE(c, st.ok(), "update-refused", st);
      shown_pred = pred;
      ++updates;
      c.Count("updates");
      // The updated region.
      std::multiset<Tri> drawn;
      Triangles(s, drawn);
      auto reg = s.GetUpdatedRegion().AsRect();
      auto Check = [&](const Tri& t, const char* what) {
        ++changed_total;
        for (const Vtx& v : t.v) VH_REQUIRE(c, reg && reg->Contains(Point{v[0], v[1]}), "updated-region", what, " triangle with corner (", v[0], ", ", v[1], ") is outside of the updated region ", reg.value_or(Rect()), "; ", brush);
      };
      for (auto it = drawn.begin(); it != drawn.end(); it = drawn.upper_bound(*it)) if (drawn.count(*it) != at_reset.count(*it)) Check(*it, "a new");
      for (auto it = at_reset.begin(); it != at_reset.end(); it = at_reset.upper_bound(*it)) if (!drawn.count(*it)) Check(*it, "a removed");
      // Whether more updates are needed.
      bool needs = s.NeedsUpdate();
      if (!active) VH_REQUIRE(c, !needs, "idle-stroke-needs-update");
      // An input that is still in the future, or a prediction, keeps behaviors active.
      double last = 0;
      for (const auto& x : real) last = std::max<double>(last, x.elapsed_time.ToSeconds());
      if (active && !real.empty() && now.ToSeconds() > last + std::max(*active, 0.) + .2) VH_REQUIRE(c, !needs, "animation-never-ends", "now ", now.ToSeconds(), " last input ", last, " active for ", *active);
      if (!needs && shown_pred.empty() && r.Chance(.5)) {
        Whole before(s);
        Duration32 later = now + Duration32::Seconds(r.Chance(.2) ? 0 : (float)r.LogReal(1e-3, 30));
        VH_REQUIRE(c, s.UpdateShape(later).ok(), "update-refused");
        now = later;
        before.Same(c, s, "update-not-needed-has-effect", false, true);
        c.Count("idle_updates");
        c.Sig("idle");
      }
      c.Sig(drawn.size());
    }
    Geo got = Snap(s), want = Fresh(c, brush, real, shown_pred, now);
    SameGeo(c, got, want, "shape-after-refusals", "");
  }
  if (refused && changed_total) c.NonTrivial();
  c.Sample(updates, " updates, ", refused, " refused operations, ", changed_total, " changed triangles");
}
// ---------------------------------------------------------------- S04
// The contents of a shape, for comparing two of them.
std::string Content(const PartitionedMesh& m) {
  std::ostringstream o;
  o << m.RenderGroupCount() << ";";
  for (uint32_t g = 0; g < m.RenderGroupCount(); ++g) {
    o << "G" << Cat(m.RenderGroupFormat(g)) << ";";
    for (const ink::Mesh& x : m.RenderGroupMeshes(g)) {
      o << "M" << x.VertexCount() << "," << x.TriangleCount() << ",";
      o.write((const char*)x.RawVertexData().data(), x.RawVertexData().size());
      o.write((const char*)x.RawIndexData().data(), x.RawIndexData().size());
      for (size_t a = 0; a < x.Format().Attributes().size(); ++a) { auto params = x.VertexAttributeUnpackingParams(a); for (const auto& k : params.components.Values()) o << k.offset << "/" << k.scale << ","; }
    }
    for (uint32_t i = 0; i < m.OutlineCount(g); ++i) { o << "O"; for (auto v : m.Outline(g, i)) o << v.mesh_index << "." << v.vertex_index << ","; }
  }
  return o.str();
}
// Content, with the estimates (derivatives and margins) of the meshes left out.
void SameShape(Ctx& c, const PartitionedMesh& a, const PartitionedMesh& b, const char* key) {
  VH_REQUIRE(c, a.RenderGroupCount() == b.RenderGroupCount(), key);
  for (uint32_t g = 0; g < a.RenderGroupCount(); ++g) {
    VH_REQUIRE(c, a.RenderGroupFormat(g) == b.RenderGroupFormat(g), key, "format of group ", g, " ", a.RenderGroupFormat(g), " want ", b.RenderGroupFormat(g));
    VH_REQUIRE(c, a.RenderGroupMeshes(g).size() == b.RenderGroupMeshes(g).size() && a.OutlineCount(g) == b.OutlineCount(g), key, "group ", g);
    for (size_t i = 0; i < a.RenderGroupMeshes(g).size(); ++i) {
      const ink::Mesh &x = a.RenderGroupMeshes(g)[i], &y = b.RenderGroupMeshes(g)[i];
      VH_REQUIRE(c, x.VertexCount() == y.VertexCount() && Bytes(x.RawIndexData()) == Bytes(y.RawIndexData()), key, "mesh ", i, " of group ", g);
      int pos = x.VertexPositionAttributeIndex();
      for (uint32_t v = 0; v < x.VertexCount(); ++v)
        for (size_t at = 0; at < x.Format().Attributes().size(); ++at) {
          auto id = x.Format().Attributes()[at].id;
          if (id == AttrId::kSideDerivative || id == AttrId::kForwardDerivative || id == AttrId::kSideLabel || id == AttrId::kForwardLabel) continue;
          auto p = x.FloatVertexAttribute(v, at), q = y.FloatVertexAttribute(v, at);
          for (int k = 0; k < p.Size(); ++k) VH_REQUIRE(c, SameF(p[k], q[k]) || p[k] == q[k], key, "attribute ", at, " (position is ", pos, ") of vertex ", v, " of mesh ", i, " of group ", g, " is ", p[k], " want ", q[k]);
        }
    }
    for (uint32_t i = 0; i < a.OutlineCount(g); ++i) {
      auto x = a.Outline(g, i), y = b.Outline(g, i);
      VH_REQUIRE(c, x.size() == y.size(), key, "outline ", i);
      for (size_t k = 0; k < x.size(); ++k) VH_REQUIRE(c, x[k].mesh_index == y[k].mesh_index && x[k].vertex_index == y[k].vertex_index, key, "outline ", i);
    }
  }
}
bool SameBrush(const Brush& a, const Brush& b) {
  if (a.CoatCount() != b.CoatCount() || a.GetSize() != b.GetSize() || a.GetEpsilon() != b.GetEpsilon() || !(a.GetColor() == b.GetColor()) || a.GetFamily().GetInputModel().index() != b.GetFamily().GetInputModel().index()) return false;
  for (size_t i = 0; i < a.CoatCount(); ++i) if (!(a.GetCoats()[i].tips == b.GetCoats()[i].tips) || !(a.GetCoats()[i].paint == b.GetCoats()[i].paint)) return false;
  return Cat(a) == Cat(b);
}
struct WellFormed { size_t verts = 0, tris = 0, outlines = 0; };
void CheckWellFormed(Ctx& c, const InProgressStroke& s, WellFormed& w) {
  const Brush& brush = *s.GetBrush();
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) {
    const MutableMesh& m = s.GetMesh(k);
    uint32_t n = m.VertexCount();
    std::vector<char> used(n);
    std::vector<Vtx> v(n);
    for (uint32_t i = 0; i < n; ++i) v[i] = VertexAt(m, i);
    for (uint32_t t = 0; t < m.TriangleCount(); ++t)
      for (uint32_t x : m.TriangleIndices(t)) { VH_REQUIRE(c, x < n, "triangle-index", "index ", x, " of ", n, " vertices"); used[x] = 1; }
    auto outs = s.GetCoatOutlines(k);
    VH_REQUIRE(c, m.TriangleCount() == 0 || !outs.empty(), "no-outline");
    for (auto o : outs) {
      VH_REQUIRE(c, !o.empty(), "empty-outline");
      for (uint32_t x : o) { VH_REQUIRE(c, x < n, "outline-index", "index ", x, " of ", n, " vertices"); used[x] = 1; }
    }
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (uint32_t i = 0; i < n; ++i) {
      for (int f = 0; f < 14; ++f) VH_REQUIRE(c, std::isfinite(v[i][f]), "non-finite-vertex", "vertex ", i, " field ", f, " is ", v[i][f], "; ", brush);
      for (int f = 2; f < 6; ++f) VH_REQUIRE(c, v[i][f] >= -1 && v[i][f] <= 1, "shift-range", "vertex ", i, " field ", f, " is ", v[i][f]);
      for (int f : {8, 11}) VH_REQUIRE(c, v[i][f] == std::round(v[i][f]) && std::fabs(v[i][f]) <= 127, "label-range", "vertex ", i, " field ", f, " is ", v[i][f]);
      for (int f : {12, 13}) VH_REQUIRE(c, v[i][f] >= 0 && v[i][f] <= 1, "uv-range", "vertex ", i, " field ", f, " is ", v[i][f]);
      x0 = std::min<double>(x0, v[i][0]), x1 = std::max<double>(x1, v[i][0]), y0 = std::min<double>(y0, v[i][1]), y1 = std::max<double>(y1, v[i][1]);
    }
    auto b = s.GetMeshBounds(k).AsRect();
    VH_REQUIRE(c, b.has_value() == (n > 0), "mesh-bounds-empty", "vertices ", n);
    if (b) VH_REQUIRE(c, b->XMin() == x0 && b->XMax() == x1 && b->YMin() == y0 && b->YMax() == y1, "mesh-bounds", *b, " but positions are in [", x0, ", ", x1, "] x [", y0, ", ", y1, "]");
    for (auto o : outs) {
      double a2 = 0, per = 0;
      for (size_t i = 0; i < o.size(); ++i) {
        const Vtx &p = v[o[i]], &q = v[o[(i + 1) % o.size()]];
        per += std::hypot(p[0] - q[0], p[1] - q[1]);
        a2 += (p[0] - x0) * (double)(q[1] - y0) - (q[0] - x0) * (double)(p[1] - y0);
      }
      VH_REQUIRE(c, a2 <= 1e-5 * ((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0)) + .2 * per * brush.GetEpsilon(), "outline-counterclockwise", "area ", a2 / 2, " perimeter ", per, " of an outline with ", o.size(), " vertices, bounds ", *b, "; ", brush);
    }
    w.verts += n, w.tris += m.TriangleCount(), w.outlines += outs.size();
  }
}
// A stroke copied out of s.
void CheckCopy(Ctx& c, const InProgressStroke& s, const Stroke& st, bool all) {
  const Brush& brush = *s.GetBrush();
  VH_REQUIRE(c, SameBrush(st.GetBrush(), brush), "copied-brush");
  SameInputs(c, st.GetInputs(), Read(s.GetInputs()), "copied-inputs");
  const PartitionedMesh& p = st.GetShape();
  VH_REQUIRE(c, p.RenderGroupCount() == brush.CoatCount(), "copied-groups");
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) {
    const MutableMesh& m = s.GetMesh(k);
    auto outs = s.GetCoatOutlines(k);
    size_t tris = 0;
    for (const ink::Mesh& x : p.RenderGroupMeshes(k)) tris += x.TriangleCount();
    VH_REQUIRE(c, tris == m.TriangleCount(), "copied-triangles", "coat ", k, ": ", tris, " want ", m.TriangleCount(), " ", m.AsMeshes().status(), m.ValidateTriangles(), "; ", brush);
    if (!m.TriangleCount()) continue;
    auto ids = ink::brush_internal::GetRequiredAttributeIds(brush.GetCoats()[k]);
    std::set<AttrId> want(ids.begin(), ids.end()), got;
    const ink::MeshFormat full = StrokeVertex::FullMeshFormat();
    if (all) for (const auto& a : full.Attributes()) want.insert(a.id);
    for (const auto& a : p.RenderGroupFormat(k).Attributes()) got.insert(a.id);
    VH_REQUIRE(c, want == got, "copied-attributes", "coat ", k, ": ", got.size(), " attributes, want ", want.size());
    // Every attribute other than the estimates, triangle by triangle.
    size_t t = 0;
    for (const ink::Mesh& x : p.RenderGroupMeshes(k)) {
      auto bb = x.Bounds().AsRect();
      double quant = std::max({bb->Width(), bb->Height()}) / 4095. * 1.01 + 4e-7 * std::max({std::fabs(bb->XMin()), std::fabs(bb->XMax()), std::fabs(bb->YMin()), std::fabs(bb->YMax())});
      for (uint32_t j = 0; j < x.TriangleCount(); ++j, ++t) {
        auto a = m.TriangleIndices(t), b = x.TriangleIndices(j);
        for (int q = 0; q < 3; ++q) {
          Vtx v = VertexAt(m, a[q]);
          for (size_t at = 0; at < x.Format().Attributes().size(); ++at) {
            auto id = x.Format().Attributes()[at].id;
            int f = id == AttrId::kPosition ? 0 : id == AttrId::kOpacityShift ? 2 : id == AttrId::kColorShiftHsl ? 3 : id == AttrId::kSideLabel ? 8 : id == AttrId::kForwardLabel ? 11 : id == AttrId::kSurfaceUv ? 12 : -1;
            if (f < 0) continue;
            double tol = id == AttrId::kPosition ? quant : id == AttrId::kOpacityShift ? 1.01 / 254 : id == AttrId::kColorShiftHsl ? 1.01 / 1022 : id == AttrId::kSurfaceUv ? 1.01 / 8190 : 1e-4;
            auto w = x.FloatVertexAttribute(b[q], at);
            for (int e = 0; e < w.Size(); ++e) VH_REQUIRE(c, std::fabs(w[e] - v[f + e]) <= tol, "copied-attribute", "coat ", k, " triangle ", t, " attribute ", id, " is ", w[e], " want ", v[f + e]);
          }
        }
      }
    }
    std::vector<char> used(m.VertexCount());
    for (uint32_t q = 0; q < m.TriangleCount(); ++q) for (uint32_t z : m.TriangleIndices(q)) used[z] = 1;
    // Outlines consist of the vertices used by triangles, if any.
    std::vector<std::vector<Point>> want_outs;
    for (auto o : outs) {
      std::vector<Point> ps;
      for (uint32_t z : o) if (used[z]) ps.push_back(m.VertexPosition(z));
      if (!ps.empty()) want_outs.push_back(ps);
    }
    VH_REQUIRE(c, p.OutlineCount(k) == want_outs.size(), "copied-outlines", p.OutlineCount(k), " want ", want_outs.size());
    for (size_t i = 0; i < want_outs.size(); ++i) {
      const std::vector<Point>& want_o = want_outs[i];
      VH_REQUIRE(c, p.OutlineVertexCount(k, i) == want_o.size(), "copied-outline-size", p.OutlineVertexCount(k, i), " want ", want_o.size());
      auto bb = p.Bounds().AsRect();
      double quant = std::max(bb->Width(), bb->Height()) / 4095. * 1.01 + 4e-7 * std::max({std::fabs(bb->XMin()), std::fabs(bb->XMax()), std::fabs(bb->YMin()), std::fabs(bb->YMax())});
      for (size_t z = 0; z < want_o.size(); ++z) { Point q = p.OutlinePosition(k, i, z); VH_REQUIRE(c, std::fabs(q.x - want_o[z].x) <= quant && std::fabs(q.y - want_o[z].y) <= quant, "copied-outline-position", q, " want ", want_o[z]); }
    }
  }
}
VH_PROPERTY(S04) {
  Rng& r = c.rng;
  BrushOpts bo;
  bo.hostile = r.Chance(.3);
  bo.max_coats = 3;
  InProgressStroke s;
  WellFormed w;
  int strokes = r.Int(1, 2);
  std::vector<std::pair<Stroke, std::string>> kept;
  for (int k = 0; k < strokes; ++k) {
    Brush brush = RandBrush(r, bo);
    s.Start(brush);
    Pen pen(r, brush);
    Duration32 now = Duration32::Zero();
    int steps = r.Int(1, 5);
    Inputs real;
    bool pred_shown = false;
    for (int i = 0; i < steps; ++i) {
      Inputs add = Take(pen, r, r.Int(0, 10));
      Pen ahead = pen;
      Inputs p = Take(ahead, r, r.Chance(.5) ? 0 : r.Int(1, 5));
      VH_REQUIRE(c, s.EnqueueInputs(Batch(add), Batch(p)).ok(), "enqueue-refused");
      real.insert(real.end(), add.begin(), add.end());
      now = std::max(now, Duration32::Seconds((float)(pen.t + r.Real(-.05, .05))));
      auto st = s.UpdateShape(now);
      VH_REQUIRE(c, st.ok(), "update-refused", st);
      pred_shown = !p.empty();
      c.Count("updates");
      CheckWellFormed(c, s, w);
      if (i + 1 == steps || r.Chance(.2)) {
        bool all = r.Chance(.5);
        Stroke copy = s.CopyToStroke(all ? InProgressStroke::RetainAttributes::kAll : InProgressStroke::RetainAttributes::kUsedByThisBrush);
        CheckCopy(c, s, copy, all);
        kept.emplace_back(copy, Content(copy.GetShape()));
        c.Count("copies_compared");
      }
    }
    (void)pred_shown;
    // Coats do not influence each other, and a finished batch gives the same shape.
    if (!real.empty()) {
      Stroke once(brush, Batch(real));
      InProgressStroke f;
      f.Start(brush);
      VH_REQUIRE(c, f.EnqueueInputs(Batch(real), {}).ok() && f.UpdateShape(once.GetInputDuration()).ok(), "update-refused");
      SameShape(c, once.GetShape(), f.CopyToStroke().GetShape(), "stroke-from-batch");
      if (brush.CoatCount() > 1) {
        uint32_t q = r.Below(brush.CoatCount());
        auto fam = BrushFamily::Create({brush.GetCoats()[q]}, "", brush.GetFamily().GetInputModel());
        VH_REQUIRE(c, fam.ok(), "single-coat-family", fam.status());
        Brush one = *Brush::Create(*fam, brush.GetColor(), brush.GetSize(), brush.GetEpsilon());
        Geo a = Fresh(c, brush, real, {}, now), b = Fresh(c, one, real, {}, now);
        a.coats = {a.coats[q]};
        SameGeo(c, a, b, "coat-independence", "");
        c.Count("coats_compared");
      }
    }
  }
  for (auto& [st, text] : kept) VH_REQUIRE(c, Content(st.GetShape()) == text, "copy-changed-later");
  if (w.tris) c.NonTrivial();
  c.Sig(w.verts); c.Sig(w.tris);
  c.Sample(w.verts, " vertices, ", w.tris, " triangles, ", w.outlines, " outlines over all updates");
}
// ---------------------------------------------------------------- S09
// What a stroke must read as.
struct StrokeModel { Brush brush; Inputs inputs; std::string shape; bool alive = true; };
void SameStroke(Ctx& c, const Stroke& s, const StrokeModel& m, const char* key, const std::string& what) {
  VH_REQUIRE(c, SameBrush(s.GetBrush(), m.brush) && SameBrush(Brush(s.GetBrush()), m.brush), key, what, ": brush ", s.GetBrush(), " want ", m.brush);
  VH_REQUIRE(c, Cat(s.GetBrushFamily()) == Cat(m.brush.GetFamily()), key, what);
  VH_REQUIRE(c, s.GetInputs().Size() == m.inputs.size(), key, what, ": ", s.GetInputs().Size(), " inputs, want ", m.inputs.size());
  SameInputs(c, s.GetInputs(), m.inputs, key);
  Duration32 d = m.inputs.empty() ? Duration32::Zero() : m.inputs.back().elapsed_time - m.inputs[0].elapsed_time;
  VH_REQUIRE(c, s.GetInputDuration() == d, key, what, ": duration ", s.GetInputDuration(), " want ", d);
  VH_REQUIRE(c, s.GetShape().RenderGroupCount() == m.brush.CoatCount(), key, what, ": ", s.GetShape().RenderGroupCount(), " groups");
  VH_REQUIRE(c, Content(s.GetShape()) == m.shape, key, what, ": shape of ", s.GetShape().Meshes().size(), " meshes is not the one expected; ", m.inputs.size(), " inputs; ", m.brush);
  if (m.inputs.empty()) c.Count("empty_strokes");
}
bool SameTips(const Brush& a, const Brush& b) {
  if (a.CoatCount() != b.CoatCount()) return false;
  for (size_t i = 0; i < a.CoatCount(); ++i) if (!(a.GetCoats()[i].tips == b.GetCoats()[i].tips)) return false;
  return true;
}
// The same family with one thing changed that may or may not matter to the shape.
BrushFamily VaryFamily(Rng& r, const BrushFamily& f, const BrushOpts& bo) {
  std::vector<BrushCoat> coats(f.GetCoats().begin(), f.GetCoats().end());
  auto model = f.GetInputModel();
  std::string uri;
  switch (r.Below(6)) {
    case 0: if (!coats.empty()) coats[r.Below(coats.size())].paint = RandPaint(r); break;
    case 1: if (!coats.empty()) { BrushTip& t = coats[r.Below(coats.size())].tips[0]; switch (r.Below(5)) { case 0: t.pinch = r.F(0, 1); break; case 1: t.opacity_multiplier = r.F(0, 2); break; case 2: t.scale.y = r.F(.1, 2); break; case 3: t.behaviors.push_back(RandBehavior(r, false)); break; default: t.rotation = Angle::Radians(r.F(-3, 3)); } } break;
    case 2: uri = "//a/brush-family:x"; break;
    case 3: if (coats.size() > 1) std::swap(coats[0], coats[1]); else if (!coats.empty()) coats.push_back(coats[0]); break;
    case 4: if (!coats.empty()) coats.pop_back(); break;
    default: return RandFamily(r, bo);
  }
  auto n = BrushFamily::Create(coats, uri, model);
  if (!n.ok()) FailArgs("generator", {Arg("brush family refused: "), Arg(n.status())});
  return *n;
}
VH_PROPERTY(S09) {
  Rng& r = c.rng;
  BrushOpts bo;
  bo.max_coats = 3;
  constexpr size_t kN = 3;
  std::vector<std::optional<Stroke>> s(kN);
  std::vector<std::optional<StrokeModel>> m(kN);
  std::vector<std::string> log;
  auto shape_of = [](const Brush& b, const Inputs& in) { return Content(Stroke(b, Batch(in)).GetShape()); };
  auto inputs = [&](const Brush& b) { Pen p(r, b); return Take(p, r, r.Chance(.15) ? 0 : r.Int(1, 12)); };
  auto create = [&](size_t i) {
    Brush b = RandBrush(r, bo);
    Inputs in = inputs(b);
    switch (r.Below(3)) {
      case 0: in.clear(); s[i].emplace(b); break;
      case 1: {
        StrokeInputBatch batch = Batch(in);
        s[i].emplace(b, batch);
        if (r.Chance(.3)) { batch.Clear(); c.Count("caller_batch_changed"); }
        break;
      }
      default: {  // with a shape that is not its own
        Brush other = r.Chance(.5) ? b : RandBrush(r, bo);
        Inputs oi = inputs(other);
        Stroke from(other, Batch(oi));
        bool fits = from.GetShape().RenderGroupCount() == b.CoatCount();
        if (!fits) { VH_REQUIRE(c, CheckFails([&] { Stroke bad(b, Batch(in), from.GetShape()); }), "groups-not-checked"); c.Count("wrong_shapes_refused"); s[i].emplace(b, Batch(in)); break; }
        s[i].emplace(b, Batch(in), from.GetShape());
        m[i].emplace(StrokeModel{b, in, Content(from.GetShape())});
        c.Count("given_shapes");
        return;
      }
    }
    m[i].emplace(StrokeModel{b, in, shape_of(b, in)});
  };
  create(0);
  int ops = r.Int(3, 12), regenerated = 0, refused = 0;
  for (int op = 0; op < ops; ++op) {
    std::vector<size_t> live;
    for (size_t i = 0; i < kN; ++i) if (m[i] && m[i]->alive) live.push_back(i);
    size_t i = live.empty() ? 0 : r.Pick(live), j = r.Below(kN);
    std::string what;
    if (live.empty() || r.Chance(.08)) { create(j); what = Cat("create ", (int)j); }
    else {
      Stroke& x = *s[i];
      StrokeModel& mx = *m[i];
      auto regenerate = [&] { mx.shape = shape_of(mx.brush, mx.inputs); ++regenerated; };
      // Whether the input model alone has the shape made anew is not specified.
      auto maybe = [&](const BrushFamily::InputModel& before) {
        if (before.index() == mx.brush.GetFamily().GetInputModel().index()) return;
        std::string fresh = shape_of(mx.brush, mx.inputs);
        if (Content(x.GetShape()) == fresh) mx.shape = fresh;
      };
      switch (r.Below(12)) {
        case 0:  // copy
          what = Cat("copy ", (int)i, " to ", (int)j);
          if (s[j]) *s[j] = x; else s[j].emplace(x);
          if (i != j) m[j] = mx;
          break;
        case 1:  // move
          if (i == j) continue;
          what = Cat("move ", (int)i, " to ", (int)j);
          if (s[j]) *s[j] = std::move(x); else s[j].emplace(std::move(x));
          m[j] = mx;
          if (r.Chance(.5)) { s[i].reset(); m[i].reset(); } else m[i]->alive = false;
          break;
        case 2: {
          what = Cat("color of ", (int)i);
          ink::Color col = ink::Color::FromFloat(r.F(0, 1), r.F(0, 1), r.F(0, 1), r.F(0, 1));
          x.SetBrushColor(col);
          mx.brush.SetColor(col);
          break;
        }
        case 3: case 4: {  // size and epsilon
          bool size = r.Chance(.5);
          float v = r.Chance(.3) ? AnyFloat(r) : r.Chance(.2) ? (size ? mx.brush.GetSize() : mx.brush.GetEpsilon()) : (float)((size ? mx.brush.GetSize() : mx.brush.GetEpsilon()) * r.Of({.5, .9, 1.1, 2., 30., .02}));
          bool valid = size ? std::isfinite(v) && v > 0 && v >= mx.brush.GetEpsilon() : std::isfinite(v) && v > 0 && v <= mx.brush.GetSize();
          float step = HasParticles(mx.brush) ? mx.brush.GetSize() / 4 : 0;
          if (valid && ((size && (v < step || v < mx.brush.GetSize() / 4 || v > 1e4)) || (!size && v < mx.brush.GetSize() / 1000))) continue;  // would take long
          what = Cat(size ? "size of " : "epsilon of ", (int)i, " to ", v);
          absl::Status st = size ? x.SetBrushSize(v) : x.SetBrushEpsilon(v);
          VH_REQUIRE(c, st.ok() == valid, "size-or-epsilon-status", what, ": ", st, "; ", mx.brush);
          if (!valid) { ++refused; break; }
          bool same = v == (size ? mx.brush.GetSize() : mx.brush.GetEpsilon());
          (void)(size ? mx.brush.SetSize(v) : mx.brush.SetEpsilon(v));
          if (!same) regenerate();
          break;
        }
        case 5: {
          what = Cat("family of ", (int)i);
          Brush before = mx.brush;
          BrushFamily f = VaryFamily(r, mx.brush.GetFamily(), bo);
          if (r.Chance(.1)) { f = mx.brush.GetFamily(); x.SetBrushFamily(x.GetBrushFamily()); } else x.SetBrushFamily(f);
          mx.brush.SetFamily(f);
          if (!SameTips(before, mx.brush)) regenerate(); else { c.Count("kept_shapes"); maybe(before.GetFamily().GetInputModel()); }
          break;
        }
        case 6: case 7: {
          what = Cat("brush of ", (int)i);
          Brush before = mx.brush, b = mx.brush;
          switch (r.Below(4)) {
            case 0: b.SetFamily(VaryFamily(r, b.GetFamily(), bo)); break;
            case 1: { float z = b.GetSize() * (HasParticles(b) || r.Chance(.5) ? r.F(1, 2) : r.F(.3, 1)); if (z >= b.GetEpsilon()) (void)b.SetSize(z); break; }
            case 2: { float e = b.GetEpsilon() * r.F(.5, r.Of({1., 3.})); if (e <= b.GetSize()) (void)b.SetEpsilon(e); break; }
            default: b.SetColor(ink::Color::FromFloat(r.F(0, 1), 0, 0, 1));
          }
          if (r.Chance(.1)) { b = before; x.SetBrush(x.GetBrush()); } else x.SetBrush(b);
          mx.brush = b;
          if (!SameTips(before, b) || before.GetSize() != b.GetSize() || before.GetEpsilon() != b.GetEpsilon()) regenerate(); else { c.Count("kept_shapes"); maybe(before.GetFamily().GetInputModel()); }
          break;
        }
        case 8: case 9: {
          Inputs in = inputs(mx.brush);
          int k = r.Below(4);
          what = Cat("inputs of ", (int)i, k == 0 ? " from itself" : k == 1 ? " from another" : "");
          if (k == 0) in = mx.inputs, x.SetInputs(x.GetInputs());
          else if (k == 1 && m[j] && m[j]->alive && (!HasParticles(mx.brush) || i == j)) in = m[j]->inputs, x.SetInputs(s[j]->GetInputs());
          else { StrokeInputBatch b = Batch(in); x.SetInputs(b); if (r.Chance(.3)) b.Transform(ink::AffineTransform::Translate({5, 5})); }
          mx.inputs = in;
          regenerate();
          break;
        }
        default: {
          what = Cat("brush and inputs of ", (int)i);
          Brush b = r.Chance(.5) ? RandBrush(r, bo) : mx.brush;
          Inputs in = inputs(b);
          int k = r.Below(4);
          if (k == 0 && b.GetSize() == mx.brush.GetSize()) in = mx.inputs, b = mx.brush, x.SetBrushAndInputs(x.GetBrush(), x.GetInputs());
          else if (k == 1 && SameBrush(b, mx.brush)) x.SetBrushAndInputs(x.GetBrush(), Batch(in));
          else x.SetBrushAndInputs(b, Batch(in));
          mx.brush = b, mx.inputs = in;
          regenerate();
        }
      }
    }
    log.push_back(what);
    c.Count("operations");
    std::string all;
    for (auto& l : log) all += l + "; ";
    for (size_t q = 0; q < kN; ++q) if (m[q] && m[q]->alive) { SameStroke(c, *s[q], *m[q], "stroke-state", Cat("stroke ", (int)q, " after ", all)); c.Sig(m[q]->shape); }
  }
  c.Count("regenerated", regenerated), c.Count("refused", refused);
  if (regenerated) c.NonTrivial();
  c.Sample(ops, " operations, ", regenerated, " regenerated, ", refused, " refused");
}
}  // namespace
}  // namespace vh
