// K01: values shared between threads. Built with ThreadSanitizer.
#include <sched.h>
#include <atomic>
#include <optional>
#include <thread>
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/quad.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/stroke.h"
#include "strokegen.h"
#include "vh_main.h"
namespace vh {
namespace {
using ink::AffineTransform;
using ink::InProgressStroke;
using ink::Mesh;
using ink::MutableMesh;
using ink::PartitionedMesh;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Stroke;
using ink::Triangle;
struct Digest {
  uint64_t h = 0x77;
  void operator()(uint64_t v) { h = Mix(h ^ v); }
  void F(float v) { (*this)(std::isnan(v) ? 1 : std::bit_cast<uint32_t>(v)); }
  void B(const void* p, size_t n) { (*this)(std::hash<std::string_view>()(std::string_view((const char*)p, n))); }
  void Pt(Point p) { F(p.x), F(p.y); }
  void M(const Mesh& m) { (*this)(m.VertexCount()), (*this)(m.TriangleCount()), B(m.RawVertexData().data(), m.RawVertexData().size()), B(m.RawIndexData().data(), m.RawIndexData().size()); }
  void S(const PartitionedMesh& p) {
    (*this)(p.RenderGroupCount());
    for (const Mesh& m : p.Meshes()) M(m);
    for (uint32_t g = 0; g < p.RenderGroupCount(); ++g)
      for (uint32_t i = 0; i < p.OutlineCount(g); ++i) for (auto v : p.Outline(g, i)) (*this)(v.mesh_index * 65537ull + v.vertex_index);
  }
  void I(const StrokeInputBatch& b) {
    (*this)(b.Size()), (*this)((uint64_t)b.GetToolType());
    for (size_t i = 0; i < b.Size(); ++i) { StrokeInput x = b.Get(i); Pt(x.position), F(x.elapsed_time.ToSeconds()), F(x.pressure), F(x.tilt.ValueInRadians()), F(x.orientation.ValueInRadians()); }
  }
};
constexpr int kThreads = 4;
PartitionedMesh Strip(Rng& r) {
  std::vector<Mesh> ms;
  for (int k = r.Int(1, 3); k > 0; --k) {
    MutableMesh m;
    int n = r.Int(3, 12);
    for (int i = 0; i < n; ++i) m.AppendVertex({(float)(i * 2 + r.F(-1, 1)), (float)((i % 2) * 4 + k + r.F(-1, 1))});
    for (int i = 0; i + 2 < n; ++i) m.AppendTriangleIndices({(uint32_t)i, (uint32_t)i + 1 + (i & 1), (uint32_t)i + 2 - (i & 1)});
    auto made = m.AsMeshes();
    for (const Mesh& x : *made) ms.push_back(x);
  }
  return *PartitionedMesh::FromMeshes(ms);
}
BrushOpts Opts(Rng& r) { BrushOpts o; o.particles = false, o.behaviors = r.Chance(.5), o.max_coats = 2; return o; }
// Everything the threads share; only read through const references.
struct World {
  Brush brush, brush2;
  Stroke stroke;
  StrokeInputBatch batch, batch2;
  PartitionedMesh shape, shape2;
  MutableMesh mesh;
  Quad quad;
  AffineTransform tr;
};
World MakeWorld(Rng r) {
  BrushOpts o = Opts(r);
  Brush brush = RandBrush(r, o), brush2 = RandBrush(r, o);
  auto inputs = [&](const Brush& b) { Pen pen(r, b); return Batch(Take(pen, r, r.Int(1, 12))); };
  StrokeInputBatch batch = inputs(brush), batch2 = inputs(brush2);
  Stroke stroke(brush, batch);
  PartitionedMesh shape = Strip(r), shape2 = Strip(r);
  MutableMesh mesh;
  int n = r.Int(3, 8);
  for (int i = 0; i < n; ++i) mesh.AppendVertex({r.F(-9, 9), r.F(-9, 9)});
  for (int i = 0; i + 2 < n; ++i) mesh.AppendTriangleIndices({(uint32_t)i, (uint32_t)i + 1, (uint32_t)i + 2});
  Quad quad = Quad::FromCenterDimensionsRotationAndShear({r.F(0, 9), r.F(0, 4)}, r.F(.1, 9), r.F(-4, 9), Angle::Radians(r.F(0, 6.2)), r.F(-1, 1));
  AffineTransform tr = AffineTransform::Translate({r.F(-2, 2), r.F(-2, 2)}) * AffineTransform::Rotate(Angle::Radians(r.F(-.4, .4)));
  return World{brush, brush2, stroke, batch, batch2, shape, shape2, std::move(mesh), quad, tr};
}
constexpr int kOps = 20;
// What belongs to one thread: copies of the shared values.
struct Own { std::optional<Stroke> stroke; StrokeInputBatch batch; PartitionedMesh shape; Quad quad; std::optional<Mesh> mesh; };
template <typename Q> void Visit(Digest& d, const PartitionedMesh& m, const Q& q, const AffineTransform& t) {
  uint64_t sum = 0, n = 0;
  m.VisitIntersectedTriangles(q, [&](PartitionedMesh::TriangleIndexPair p) { sum += Mix(p.mesh_index * 65537ull + p.triangle_index), ++n; return PartitionedMesh::FlowControl::kContinue; }, t);
  d(sum), d(n);
}
uint64_t Step(const World& w, Own& own, int op, Rng r) {
  Digest d;
  Point p{r.F(-2, 24), r.F(-2, 8)}, q{r.F(-2, 24), r.F(-2, 8)};
  switch (op) {
    case 0: d.S(w.stroke.GetShape()); break;
    case 1: { auto b = w.stroke.GetShape().Bounds().AsRect(); d(b.has_value()); if (b) d.F(b->XMin()), d.F(b->YMax()); d.F(w.stroke.GetInputDuration().ToSeconds()); break; }
    case 2: d.F(w.shape.Coverage(Rect::FromTwoPoints(p, q), w.tr)), d(w.shape.CoverageIsGreaterThan(w.quad, r.F(0, 1), w.tr)); break;
    case 3: d.F(w.shape.Coverage(w.shape2, w.tr)), d(w.shape2.CoverageIsGreaterThan(w.shape, r.F(0, 1), w.tr)); break;
    case 4: switch (r.Below(6)) {
      case 0: Visit(d, w.shape, p, w.tr); break;
      case 1: Visit(d, w.shape, Segment{p, q}, w.tr); break;
      case 2: Visit(d, w.shape, Rect::FromTwoPoints(p, q), w.tr); break;
      case 3: Visit(d, w.shape, w.quad, w.tr); break;
      case 4: Visit(d, w.shape, Triangle{p, q, {0, 0}}, w.tr); break;
      default: Visit(d, w.shape, w.shape2, w.tr);
    } break;
    case 5: { PartitionedMesh s = w.shape2; s.InitializeSpatialIndex(); d(w.shape2.IsSpatialIndexInitialized()); break; }
    case 6: for (auto& m : w.shape.Meshes()) { d.M(m); for (uint32_t i = 0; i < m.TriangleCount(); ++i) d.F(m.GetTriangle(i).SignedArea()); } break;
    case 7: d.I(w.batch), d.I(w.stroke.GetInputs()); break;
    case 8: { // copy on write
      if (r.Chance(.5)) own.batch = r.Chance(.5) ? w.batch : w.stroke.GetInputs();
      switch (r.Below(5)) {
        case 0: own.batch.Transform(w.tr); break;
        case 1: if (own.batch.Size()) own.batch.Erase(r.Below(own.batch.Size()), r.Int(0, 2)); break;
        case 2: if (own.batch.Size()) { size_t i = r.Below(own.batch.Size()); StrokeInput x = own.batch.Get(i); x.position = p; d(own.batch.Set(i, x).ok()); } break;
        case 3: d(own.batch.Append(w.batch2).ok()); break;
        default: own.batch.Clear();
      }
      d.I(own.batch), d.I(w.batch); break;
    }
    case 9: { // regeneration of a copy
      if (!own.stroke || r.Chance(.5)) own.stroke = w.stroke;
      switch (r.Below(4)) {
        case 0: d(own.stroke->SetBrushSize(w.brush2.GetSize()).ok()); break;
        case 1: own.stroke->SetInputs(own.batch); break;
        case 2: own.stroke->SetBrush(r.Chance(.5) ? w.brush2 : w.brush); break;
        default: own.stroke->SetBrushColor(ink::Color::Black());
      }
      d.S(own.stroke->GetShape()); break;
    }
    case 10: { Stroke s(r.Chance(.5) ? w.brush : w.brush2, w.batch); d.S(s.GetShape()); if (r.Chance(.5)) own.stroke = s; break; }
    case 11: {
      InProgressStroke s;
      s.Start(w.brush2);
      d(s.EnqueueInputs(w.batch2, {}).ok()), d(s.UpdateShape(Duration32::Seconds(1)).ok());
      s.FinishInputs();
      Stroke out = s.CopyToStroke();
      d.S(out.GetShape()), d.I(out.GetInputs()); break;
    }
    case 12: { auto a = w.quad.SemiAxes(); d.F(a.first.x), d.F(a.second.y); for (Point c : w.quad.Corners()) d.Pt(c); break; }
    case 13: d(w.quad.Contains(p)), d(ink::Intersects(w.quad, Segment{p, q})), d.F(ink::Distance(p, w.quad)); break;
    case 14: own.quad = w.quad; own.quad.SetWidth(r.F(.1, 4)); for (Point c : own.quad.Corners()) d.Pt(c); { auto b = *ink::Envelope(w.quad).AsRect(); d.F(b.XMin()); } d.Pt(w.tr.Apply(w.quad).Center()); break;
    case 15: { own.shape = r.Chance(.5) ? w.shape : w.shape2; d.F(own.shape.Coverage(w.quad)); if (r.Chance(.5)) own.shape = PartitionedMesh(); break; }
    case 16: for (uint32_t i = 0; i < w.mesh.VertexCount(); ++i) d.Pt(w.mesh.VertexPosition(i)); { auto ms = w.mesh.AsMeshes(); d(ms.ok()); if (ms.ok()) for (auto& m : *ms) d.M(m), own.mesh = m; } break;
    case 17: { MutableMesh m = w.mesh.Clone(); m.SetVertexPosition(0, p); d.Pt(m.VertexPosition(0)); auto s = PartitionedMesh::FromMutableMesh(m); d(s.ok()); break; }
    case 18: { Brush b = w.brush; d(b.SetSize(b.GetSize() * 2).ok()); d.F(w.brush.GetSize()), d(w.brush.GetFamily().GetCoats().size()); break; }
    default: {
      Stroke s = w.stroke; Stroke t = std::move(s); own.shape = t.GetShape();
      Visit(d, own.shape, Rect::FromCenterAndDimensions(t.GetInputs().Get(0).position, 20, 20), AffineTransform());
      d.F(own.shape.Meshes().empty() ? 0 : own.shape.Coverage(w.shape)); break;
    }
  }
  return d.h;
}
struct Event { uint32_t begin, end; int op; };
struct Trace { std::vector<uint64_t> results; std::vector<Event> events; };
void RunThread(const World& w, int t, uint64_t seed, int n, std::atomic<uint32_t>* clock, const std::vector<int>& kinds, Trace& out) {
  Rng r; r.s = Mix(seed ^ (t + 1) * 0x9e37u);
  Own own;
  for (int i = 0; i < n; ++i) {
    Rng step; step.s = r();
    int op = kinds.empty() ? (int)r.Below(kOps) : kinds[r.Below(kinds.size())], pause = r.Below(8);
    Event e{0, 0, op};
    if (clock) {
      if (pause == 0) sched_yield();
      if (pause == 1) std::this_thread::sleep_for(std::chrono::microseconds(20));
      e.begin = clock->fetch_add(1, std::memory_order_relaxed);
    }
    out.results.push_back(Step(w, own, op, step));
    if (clock) e.end = clock->fetch_add(1, std::memory_order_relaxed), out.events.push_back(e);
  }
}
VH_PROPERTY(K01) {
  Rng base = c.rng;
  uint64_t seed = c.rng();
  int n = c.rng.Int(2, 8);
  std::vector<int> kinds;  // concentrate on a few operations in some cases
  if (c.rng.Chance(.4)) for (int i = 0; i < 2; ++i) kinds.push_back(c.rng.Below(kOps));
  World w = MakeWorld(base);
  Trace got[kThreads];
  std::atomic<uint32_t> clock{0}, ready{0};
  std::atomic<bool> go{false};
  std::string failed[kThreads];
  {
    std::vector<std::thread> threads;
    for (int t = 0; t < kThreads; ++t) threads.emplace_back([&, t] {
      ready.fetch_add(1);
      while (!go.load()) sched_yield();
      try { RunThread(w, t, seed, n, &clock, kinds, got[t]); } catch (const std::exception& e) { failed[t] = e.what(); }
    });
    while (ready.load() < kThreads) sched_yield();
    go.store(true);
    for (auto& t : threads) t.join();
  }
  for (int t = 0; t < kThreads; ++t) VH_REQUIRE(c, failed[t].empty(), "thread-failed", failed[t]);
  // The same calls on one thread, on values made anew.
  World w2 = MakeWorld(base);
  uint64_t overlaps = 0, order = 0;
  std::vector<std::pair<uint32_t, int>> starts;
  for (int t = 0; t < kThreads; ++t) {
    Trace want;
    RunThread(w2, t, seed, n, nullptr, kinds, want);
    for (int i = 0; i < n; ++i) VH_REQUIRE(c, got[t].results[i] == want.results[i], "result-differs", "operation ", got[t].events[i].op, " number ", i, " of thread ", t);
    for (const Event& e : got[t].events) {
      starts.push_back({e.begin, t * 100 + e.op});
      for (int u = 0; u < t; ++u) for (const Event& o : got[u].events) overlaps += e.begin < o.end && o.begin < e.end;
    }
  }
  std::sort(starts.begin(), starts.end());
  for (auto& s : starts) order = Mix(order ^ s.second);
  c.Count("operations", kThreads * n), c.Count("overlapping_pairs", overlaps), c.Count("threads", kThreads);
  c.Sig(order);  // distinct signatures are distinct schedules
  c.Sample(kThreads * n, " operations, ", overlaps, " pairs overlapped");
  if (overlaps) c.NonTrivial();
}
}  // namespace
}  // namespace vh
