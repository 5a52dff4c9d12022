// Rendering: R01 mesh specifications and their shaders, R02 what the renderer
// draws, R03 textures and bitmaps. The graphics library is a recording stand-in
// (shim/include/include) and the shaders run in an interpreter (sksl.h).
#include "strokegen.h"
#include <map>
#include <optional>
#include <set>
#include "geo.h"
#include "meshfmt.h"
#include "vh_main.h"
#include "include/vsk.h"
#include "ink/color/color.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/native/internal/create_mesh_specification.h"
#include "ink/rendering/skia/native/internal/mesh_uniform_data.h"
#include "ink/rendering/skia/native/internal/shader_cache.h"
#include "ink/rendering/skia/native/skia_renderer.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"
namespace vh {
namespace {
using ink::AffineTransform;
using ink::Bitmap;
using ink::Color;
using ink::ColorSpace;
using ink::InProgressStroke;
using ink::Mesh;
using ink::MeshAttributeCodingParams;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::PartitionedMesh;
using ink::SkiaRenderer;
using ink::Stroke;
using ink::Uri;
using ink::skia_common_internal::MeshSpecificationData;
using ink::skia_native_internal::MeshUniformData;
using ink::strokes_internal::StrokeVertex;
using Spec = SkMeshSpecification;

// ------------------------------------------------------------ running shaders
struct Var4 { float v[4]; int n; };
using Varyings = std::map<std::string, Var4>;
class Shader {
 public:
  Shader(const Spec& spec, const SkData* uniforms) : spec_(spec), vs_(spec.vertex()), main_(*vs_.Find("main")), run_(vs_.Start()), fmain_(*spec.fragment().Find("main")), frun_(spec.fragment().Start()) {
    Load(vs_, run_, uniforms);
    Load(spec.fragment(), frun_, uniforms);
  }
  Varyings Vertex(const uint8_t* vertex) {
    std::vector<sksl::Val> frame(spec_.attributes().size());
    size_t i = 0;
    for (const Spec::Attribute& a : spec_.attributes()) {
      sksl::Val& v = frame[i++];
      if (a.type == Spec::Attribute::Type::kUByte4_unorm) {
        for (int k = 0; k < 4; ++k) v.f[k] = vertex[a.offset + k] / 255.f;
      } else {
        std::memcpy(v.f, vertex + a.offset, 4 * ((int)a.type + 1));
      }
    }
    run_.steps = 0;
    auto out = vs_.Call(main_, frame, run_);
    const sksl::StructDef& d = vs_.structs()[main_.ret.sid];
    Varyings r;
    for (size_t k = 0; k < d.fields.size(); ++k) {
      Var4& w = r[d.fields[k].name];
      w.n = d.fields[k].type.n;
      std::memcpy(w.v, out[k].f, sizeof w.v);
    }
    return r;
  }
  // -> texture coordinates and color
  std::pair<std::array<float, 2>, std::array<float, 4>> Fragment(const Varyings& in) {
    const sksl::StructDef& d = spec_.fragment().structs()[fmain_.params[0].type.sid];
    std::vector<sksl::Val> frame(d.fields.size());
    for (size_t k = 0; k < d.fields.size(); ++k) std::memcpy(frame[k].f, in.at(d.fields[k].name).v, 16);
    frun_.steps = 0;
    auto out = spec_.fragment().Call(fmain_, frame, frun_);
    std::array<float, 4> col{};
    if (fmain_.params.size() > 1) std::memcpy(col.data(), frame[fmain_.params[1].slot].f, 16);
    return {{out[0].f[0], out[0].f[1]}, col};
  }

 private:
  void Load(const sksl::Program& p, sksl::Program::Run& r, const SkData* data) {
    for (const sksl::Uniform& u : p.uniforms()) {
      const Spec::Uniform* s = spec_.findUniform(u.name);
      const uint8_t* at = data->bytes() + s->offset;
      if (u.type.b == sksl::kInt) {
        int32_t i;
        std::memcpy(&i, at, 4);
        r.globals[u.slot].f[0] = (float)i;
      } else {
        std::memcpy(r.globals[u.slot].f, at, s->sizeInBytes());
      }
    }
  }
  const Spec& spec_;
  const sksl::Program& vs_;
  const sksl::Func& main_;
  sksl::Program::Run run_;
  const sksl::Func& fmain_;
  sksl::Program::Run frun_;
};

// --------------------------------------------------------- what is documented
struct Ref {  // a vertex, with the largest error of what a shader can decode
  P pos{0, 0}, side{0, 0}, fwd{0, 0};
  double pos_err = 0, side_err = 0, fwd_err = 0;
  double opacity = 0, hsl[3] = {0, 0, 0}, side_label = 0, fwd_label = 0, color_err = 0;
  bool has_uv = false;
  P uv{0, 0};
};
double Sat(double x) { return x != x ? x : std::clamp(x, 0., 1.); }
double TargetOutset(double px) { double t = Sat(2 * (px - .5)); return .5 * (1 - t) + 0.707107 * t; }
struct AA { double ppd[2]; double edge[4], outset[4]; P move; };
// Antialiasing, by the comments of the vertex shader: D = |det T| |v|^2 / |T R v|.
AA RefAA(P s, P f, double ls, double lf, const AffineTransform& t) {
  AA r;
  double det = std::fabs((double)t.A() * t.E() - (double)t.B() * t.D());
  P v[2] = {s, f};
  double l[2] = {ls, lf};
  for (int i = 0; i < 2; ++i) {
    P o{-v[i].y, v[i].x}, m{t.A() * o.x + t.B() * o.y, t.D() * o.x + t.E() * o.y};
    r.ppd[i] = det * Dot(v[i], v[i]) / std::max(1e-6, Len(m));
    r.edge[2 * i] = l[i] < 0 ? 0 : 1;
    r.edge[2 * i + 1] = l[i] > 0 ? 0 : 1;
  }
  double target = TargetOutset(r.ppd[0]);
  double out[2], want[2];
  for (int i = 0; i < 2; ++i) {
    double margin = 4. / 126 * std::max(std::fabs(l[i]) - 1, 0.);
    // As a multiple of the derivative; a vertex without extent has nowhere to go.
    want[i] = r.ppd[i] > 0 ? target / r.ppd[i] : HUGE_VAL;
    out[i] = std::min(want[i], margin);
  }
  double k = Sat(4 * r.ppd[0] - 1);
  out[0] = k == 1 ? out[0] : want[0] * (1 - k) + out[0] * k;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) r.outset[2 * i + j] = r.edge[2 * i + j] == 1 ? 0 : target * (std::isinf(want[i]) ? i == 0 : out[i] / want[i]);
  P so = (double)((ls > 0) - (ls < 0)) * out[0] * s, fo = (double)((lf > 0) - (lf < 0)) * out[1] * f;
  double common = Sat(Dot(so, fo) / std::max(1e-6, Dot(fo, fo)));
  r.move = so + (1 - common) * fo;
  return r;
}
struct Rgba { double c[4]; };
Rgba RefColor(const Ref& v, bool has_hsl, const Color::RgbaFloat& b) {
  double rgb[3] = {b.r, b.g, b.b};
  if (has_hsl) {
    double y = .299 * rgb[0] + .587 * rgb[1] + .114 * rgb[2], i = .596 * rgb[0] - .275 * rgb[1] - .321 * rgb[2], q = .212 * rgb[0] - .523 * rgb[1] + .311 * rgb[2];
    double h = std::atan2(q, i) - v.hsl[0] * 2 * M_PI, ch = std::hypot(i, q) * (v.hsl[1] + 1);
    y += v.hsl[2];
    i = ch * std::cos(h), q = ch * std::sin(h);
    rgb[0] = y + .956 * i + .621 * q, rgb[1] = y - .272 * i - .647 * q, rgb[2] = y - 1.107 * i + 1.704 * q;
  }
  double a = Sat((v.opacity + 1) * b.a);
  return {{rgb[0] * a, rgb[1] * a, rgb[2] * a, a}};
}
// Coverage of a fragment, by the comments of the fragment shader.
double RefCoverage(const double ppd[2], const double edge[4], const double outset[4], bool& undecided) {
  double target = TargetOutset(ppd[0]), cov = 1;
  for (int d = 0; d < 2; ++d) {
    double o[2], px[2];
    for (int k = 0; k < 2; ++k) {
      double from = 1 - edge[2 * d + k];
      if (std::fabs(from - 1e-6) < 1e-4 && outset[2 * d + k] > 1e-7) undecided = true;
      o[k] = std::min(outset[2 * d + k] / std::max(from, 1e-6), target);
    }
    double total = ppd[d] + o[0] + o[1];
    for (int k = 0; k < 2; ++k) px[k] = Sat(total * edge[2 * d + k] / (2 * target));
    double sum = edge[2 * d] + edge[2 * d + 1];
    if (std::fabs(sum - 1.9999) < 6e-5) undecided = true;
    cov *= sum >= 1.9999 ? 1 : std::max(px[0] + px[1] - 1, 0.);
  }
  return cov;
}
bool Near(double got, double want, double tol) { return std::fabs(got - want) <= tol; }  // false for NaN

// Judges the vertices of one mesh that was handed to the graphics library.
struct DrawCheck {
  const char* what;
  AffineTransform t;
  Color color;
  BrushPaint::TextureMapping mapping;
  bool has_hsl;
};
void CheckVertices(Ctx& c, const DrawCheck& d, const Spec& spec, const SkData* uniforms, const uint8_t* vertices, const std::vector<Ref>& refs, const std::vector<std::array<uint32_t, 3>>& tris, size_t max_tris) {
  std::optional<Shader> sh;
  Color::RgbaFloat brush = d.color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear);
  double big = std::max({1.f, std::fabs(brush.r), std::fabs(brush.g), std::fabs(brush.b)});
  std::map<uint32_t, Varyings> done;
  auto vertex = [&](uint32_t i) -> const Varyings& {
    auto it = done.find(i);
    if (it != done.end()) return it->second;
    Varyings v = sh->Vertex(vertices + (size_t)i * spec.stride());
    const Ref& r = refs[i];
    c.Count("vertices");
    for (const auto& [n, w] : v)
      for (int k = 0; k < w.n; ++k) VH_REQUIRE(c, std::isfinite(w.v[k]), "not-finite", d.what, ": ", n, " of vertex ", i, " is ", w.v[k], "; position ", r.pos.x, ",", r.pos.y, " side ", r.side.x, ",", r.side.y, " forward ", r.fwd.x, ",", r.fwd.y, " labels ", r.side_label, ",", r.fwd_label, " transform ", d.t);
    // Position and antialiasing, up to what the decoding error can do to them.
    AA want = RefAA(r.side, r.fwd, r.side_label, r.fwd_label, d.t), slack{};
    double es = r.side_err + 1e-6 * Len(r.side), ef = r.fwd_err + 1e-6 * Len(r.fwd), move_slack = 0;
    for (int k = 0; k < 8; ++k) {
      P ds{k == 0 ? es : k == 1 ? -es : 0, k == 2 ? es : k == 3 ? -es : 0}, df{k == 4 ? ef : k == 5 ? -ef : 0, k == 6 ? ef : k == 7 ? -ef : 0};
      AA p = RefAA(r.side + ds, r.fwd + df, r.side_label, r.fwd_label, d.t);
      for (int q = 0; q < 2; ++q) slack.ppd[q] = std::max(slack.ppd[q], std::fabs(p.ppd[q] - want.ppd[q]));
      for (int q = 0; q < 4; ++q) slack.outset[q] = std::max(slack.outset[q], std::fabs(p.outset[q] - want.outset[q]));
      move_slack = std::max(move_slack, Len(p.move - want.move));
    }
    double ae = std::fabs((double)d.t.A() * d.t.E()), bd = std::fabs((double)d.t.B() * d.t.D()), det = std::fabs((double)d.t.A() * d.t.E() - (double)d.t.B() * d.t.D());
    double cond = det == 0 ? HUGE_VAL : (ae + bd) / det;  // of the determinant
    const float *pos = v.at("position").v, *ppd = v.at("pixelsPerDimension").v, *edge = v.at("normalizedToEdgeLRFB").v, *out = v.at("outsetPixelsLRFB").v;
    // However small the derivatives are, a vertex moves by about a pixel only.
    {
      double dx = (double)pos[0] - r.pos.x, dy = (double)pos[1] - r.pos.y, a = d.t.A(), b = d.t.B(), e = d.t.D(), f = d.t.E();
      double norm2 = a * a + b * b + e * e + f * f, smax2 = (norm2 + std::sqrt(std::max(0., norm2 * norm2 - 4 * det * det))) / 2;
      double px = std::hypot(a * dx + b * dy, e * dx + f * dy), err = std::sqrt(smax2) * (2 * r.pos_err + 1e-6 * (std::fabs(r.pos.x) + std::fabs(r.pos.y)));
      if (cond < 300) VH_REQUIRE(c, px <= 2 * .7072 * 1.05 * smax2 / det + err + 1e-3, "spike", d.what, ": vertex ", i, " at ", r.pos.x, ",", r.pos.y, " moves by ", px, " pixels; side ", r.side.x, ",", r.side.y, " forward ", r.fwd.x, ",", r.fwd.y, " labels ", r.side_label, ",", r.fwd_label, " transform ", d.t);
    }
    double len[2];
    for (int q = 0; q < 2; ++q) { P o = q ? r.fwd : r.side; len[q] = std::hypot(d.t.A() * -o.y + d.t.B() * o.x, d.t.D() * -o.y + d.t.E() * o.x); }
    bool tiny = len[0] < 1e-5 || want.ppd[0] < 1e-5 || ((len[1] < 1e-5 || want.ppd[1] < 1e-5) && r.fwd_label != 0);
    if (cond < 300 && !tiny && Len(r.side) > 30 * es && (Len(r.fwd) > 30 * ef || ef == 0)) {
      c.Count("antialiased");
      double tol = 2 * r.pos_err + 1e-6 * (std::fabs(r.pos.x) + std::fabs(r.pos.y)) + 3 * move_slack + 1e-4 * Len(want.move);
      VH_REQUIRE(c, Near(pos[0], r.pos.x + want.move.x, tol) && Near(pos[1], r.pos.y + want.move.y, tol), "position", d.what, ": vertex ", i, " at ", r.pos.x, ",", r.pos.y, " is drawn at ", pos[0], ",", pos[1], " want ", r.pos.x + want.move.x, ",", r.pos.y + want.move.y, " +- ", tol);
      for (int q = 0; q < 2; ++q) VH_REQUIRE(c, Near(ppd[q], want.ppd[q], 3 * slack.ppd[q] + 2e-4 * want.ppd[q]), "pixels-per-dimension", d.what, ": ", ppd[q], " want ", want.ppd[q], " for dimension ", q, " of vertex ", i);
      for (int q = 0; q < 4; ++q) VH_REQUIRE(c, Near(out[q], want.outset[q], 3 * slack.outset[q] + 1e-3), "outset", d.what, ": ", out[q], " want ", want.outset[q], " for edge ", q, " of vertex ", i);
    } else {
      c.Count("ill_conditioned");
    }
    for (int q = 0; q < 4; ++q) {
      VH_REQUIRE(c, edge[q] == want.edge[q], "edge", d.what, ": labels ", r.side_label, ",", r.fwd_label, " give ", edge[q], " for edge ", q);
      VH_REQUIRE(c, out[q] >= 0 && out[q] <= 0.708, "outset-range", d.what, ": ", out[q]);
    }
    // Color.
    Rgba col = RefColor(r, d.has_hsl, brush);
    const float* got = v.at("color").v;
    for (int q = 0; q < 4; ++q) VH_REQUIRE(c, Near(got[q], col.c[q], (2e-5 + 8 * r.color_err) * big), "color", d.what, ": channel ", q, " of vertex ", i, " is ", got[q], " want ", col.c[q], "; brush ", d.color, " hsl ", r.hsl[0], ",", r.hsl[1], ",", r.hsl[2], " opacity ", r.opacity);
    // Texture coordinates.
    const float* uv = v.at("textureCoords").v;
    if (d.mapping == BrushPaint::TextureMapping::kWinding && r.has_uv)
      VH_REQUIRE(c, Near(uv[0], r.uv.x, 1e-5) && Near(uv[1], r.uv.y, 1e-5), "winding-texture", d.what, ": vertex ", i, " has ", uv[0], ",", uv[1], " want ", r.uv.x, ",", r.uv.y);
    else
      VH_REQUIRE(c, uv[0] == pos[0] && uv[1] == pos[1], "tiling-texture", d.what, ": vertex ", i, " has ", uv[0], ",", uv[1], " at ", pos[0], ",", pos[1]);
    return done.emplace(i, std::move(v)).first->second;
  };
  try {
    sh.emplace(spec, uniforms);
    size_t step = std::max<size_t>(1, tris.size() / std::max<size_t>(1, max_tris));
    for (size_t k = c.rng.Below(step); k < tris.size(); k += step) {
      const Varyings* v[3];
      for (int j = 0; j < 3; ++j) {
        VH_REQUIRE(c, tris[k][j] < refs.size(), "index-range", d.what, ": ", tris[k][j], " of ", (int)refs.size());
        v[j] = &vertex(tris[k][j]);
      }
      for (int f = 0; f < 3; ++f) {
        double w[3] = {c.rng.U(), c.rng.U(), c.rng.U()};
        if (f == 0) w[c.rng.Below(3)] = 0;
        if (f == 1) { w[0] = w[1] = w[2] = 0; w[c.rng.Below(3)] = 1; }
        double s = w[0] + w[1] + w[2];
        if (s == 0) continue;
        Varyings in;
        for (const auto& [n, x] : *v[0]) {
          Var4 o{{}, x.n};
          for (int q = 0; q < x.n; ++q) {
            double z = (w[0] * v[0]->at(n).v[q] + w[1] * v[1]->at(n).v[q] + w[2] * v[2]->at(n).v[q]) / s;
            o.v[q] = (float)z;
          }
          in[n] = o;
        }
        double ppd[2], edge[4], out[4];
        for (int q = 0; q < 2; ++q) ppd[q] = in["pixelsPerDimension"].v[q];
        for (int q = 0; q < 4; ++q) edge[q] = in["normalizedToEdgeLRFB"].v[q], out[q] = in["outsetPixelsLRFB"].v[q];
        auto [uv, col] = sh->Fragment(in);
        bool undecided = false;
        double cov = RefCoverage(ppd, edge, out, undecided);
        const Var4& base = in["color"];
        if (undecided) { c.Count("fragments_undecided"); continue; }
        c.Count("fragments");
        if (cov > .001 && cov < .999) c.Count("fragments_partly_covered");
        double amp = 1 + (ppd[0] + ppd[1] + 2) * 1e-2;  // rounding of large distances
        for (int q = 0; q < 4; ++q) VH_REQUIRE(c, Near(col[q], cov * base.v[q], 2e-4 * amp * (std::fabs(base.v[q]) + 1e-3)), "coverage", d.what, ": channel ", q, " of a fragment is ", col[q], " want ", cov, " of ", base.v[q], "; pixels ", ppd[0], ",", ppd[1], " edges ", edge[0], ",", edge[1], ",", edge[2], ",", edge[3], " outsets ", out[0], ",", out[1], ",", out[2], ",", out[3]);
        VH_REQUIRE(c, Near(uv[0], in["textureCoords"].v[0], 0) && Near(uv[1], in["textureCoords"].v[1], 0), "fragment-texture", d.what);
      }
    }
  } catch (const sksl::Unsupported& e) {
    c.Count("shader_not_understood");
  } catch (const sksl::Bad& e) {
    c.Fail("shader", d.what, ": ", e.what());
  }
}
int Components(AType t) { return MeshFormat::ComponentCount(t); }
std::array<int, 10> IndexOf(const MeshFormat& f) {  // attribute index by id, -1 when absent
  std::array<int, 10> r;
  r.fill(-1);
  int i = 0;
  for (const auto& a : f.Attributes()) { if ((int)a.id < 10) r[(int)a.id] = i; ++i; }
  return r;
}
template <typename M> Ref RefOf(const M& m, uint32_t v, const std::array<int, 10>& ix, bool packed) {
  Ref r;
  auto get = [&](AId id) { return m.FloatVertexAttribute(v, ix[(int)id]); };
  auto err = [&](AId id) {
    if constexpr (std::is_same_v<M, Mesh>) {
      if (!packed) return 0.;
      double e = 0;
      if (MeshFormat::UnpackedAttributeSize(m.Format().Attributes()[ix[(int)id]].type) == MeshFormat::PackedAttributeSize(m.Format().Attributes()[ix[(int)id]].type)) return 0.;
      for (const auto& k : m.VertexAttributeUnpackingParams(ix[(int)id]).components.Values()) e = std::max(e, 2e-3 * std::fabs((double)k.scale) + 4e-7 * (std::fabs((double)k.offset) + 4096 * std::fabs((double)k.scale)));
      return e;
    }
    return 0.;
  };
  auto p = get(AId::kPosition); r.pos = {p[0], p[1]}; r.pos_err = err(AId::kPosition);
  p = get(AId::kSideDerivative); r.side = {p[0], p[1]}; r.side_err = err(AId::kSideDerivative);
  p = get(AId::kForwardDerivative); r.fwd = {p[0], p[1]}; r.fwd_err = err(AId::kForwardDerivative);
  r.side_label = get(AId::kSideLabel)[0], r.fwd_label = get(AId::kForwardLabel)[0];
  r.opacity = get(AId::kOpacityShift)[0];
  if (ix[(int)AId::kColorShiftHsl] >= 0) { auto h = get(AId::kColorShiftHsl); for (int k = 0; k < 3; ++k) r.hsl[k] = h[k]; }
  if (ix[(int)AId::kSurfaceUv] >= 0) { auto u = get(AId::kSurfaceUv); r.has_uv = true; r.uv = {u[0], u[1]}; }
  r.color_err = packed ? 2e-5 : 0;
  return r;
}
template <typename M> void Collect(const M& m, std::vector<Ref>& refs, std::vector<std::array<uint32_t, 3>>& tris) {
  auto ix = IndexOf(m.Format());
  for (uint32_t v = 0; v < m.VertexCount(); ++v) refs.push_back(RefOf(m, v, ix, std::is_same_v<M, Mesh>));
  for (uint32_t t = 0; t < m.TriangleCount(); ++t) tris.push_back(m.TriangleIndices(t));
}
AffineTransform RandObjectToCanvas(Rng& r) {
  double k = r.LogReal(.05, 50);
  switch (r.Below(5)) {
    case 0: return AffineTransform::Identity();
    case 1: return AffineTransform((float)k, 0, r.F(-100, 100), 0, (float)k, r.F(-100, 100));
    case 2: return AffineTransform::Rotate(Angle::Radians(r.F(-4, 4))) * AffineTransform::Scale((float)k);
    case 3: return AffineTransform(r.F(-3, 3), r.F(-3, 3), r.F(-50, 50), r.F(-3, 3), r.F(-3, 3), r.F(-50, 50));
    default: return AffineTransform::Scale(r.Chance(.5) ? (float)k : (float)-k, (float)r.LogReal(.05, 50)) * AffineTransform::Rotate(Angle::Radians(r.F(-4, 4)));
  }
}
Color RandColor(Rng& r) {
  auto ch = [&] { return r.Chance(.25) ? r.Of({0.f, 1.f}) : r.F(0, 1); };
  return Color::FromFloat(ch(), ch(), ch(), r.Chance(.4) ? 1 : ch(), r.Of({Color::Format::kGammaEncoded, Color::Format::kLinear}), r.Of({ColorSpace::kSrgb, ColorSpace::kDisplayP3}));
}

// ---------------------------------------------------------------- R01
// nullopt: nothing is documented.
std::optional<bool> Supported(const MeshFormat& f) {
  using T = AType;
  auto ix = IndexOf(f);
  auto at = [&](AId id) { return ix[(int)id]; };
  auto type = [&](AId id) { return f.Attributes()[at(id)].type; };
  for (AId id : {AId::kPosition, AId::kOpacityShift, AId::kSideDerivative, AId::kSideLabel, AId::kForwardDerivative, AId::kForwardLabel}) if (at(id) < 0) return false;
  for (auto [a, b] : {std::pair{AId::kPosition, AId::kOpacityShift}, {AId::kSideDerivative, AId::kSideLabel}, {AId::kForwardDerivative, AId::kForwardLabel}}) {
    if (at(a) + 1 != at(b)) return false;
    bool narrow = type(a) == T::kFloat2PackedIn3UnsignedBytes_XY12 && type(b) == T::kFloat1PackedIn1UnsignedByte;
    bool wide = type(a) == (a == AId::kPosition ? T::kFloat2PackedIn1Float : T::kFloat2Unpacked) && type(b) == T::kFloat1Unpacked;
    if (!narrow && !wide) return false;
  }
  if (at(AId::kColorShiftHsl) >= 0 && type(AId::kColorShiftHsl) != T::kFloat3Unpacked && type(AId::kColorShiftHsl) != T::kFloat3PackedIn4UnsignedBytes_XYZ10) return false;
  if (at(AId::kSurfaceUv) >= 0 && type(AId::kSurfaceUv) != T::kFloat2Unpacked && type(AId::kSurfaceUv) != T::kFloat2PackedIn4UnsignedBytes_X12_Y20) return false;
  // The graphics library takes attributes and vertices aligned to 4 bytes only.
  if (f.PackedVertexStride() % 4 != 0) return false;
  for (AId id : {AId::kPosition, AId::kSideDerivative, AId::kForwardDerivative, AId::kColorShiftHsl, AId::kSurfaceUv}) if (at(id) >= 0 && f.Attributes()[at(id)].packed_offset % 4 != 0) return false;
  if (at(AId::kSurfaceUv) < 0) return std::nullopt;
  return true;
}
std::optional<MeshAttributeCodingParams> Coding(const MeshFormat::Attribute& a) {
  using K = MeshAttributeCodingParams::ComponentCodingParams;
  if (a.id == AId::kOpacityShift && a.type == AType::kFloat1PackedIn1UnsignedByte) return MeshAttributeCodingParams{.components = {K{-1, 2.f / 254}}};
  if (a.id == AId::kColorShiftHsl && a.type == AType::kFloat3PackedIn4UnsignedBytes_XYZ10) return MeshAttributeCodingParams{.components = {K{-1, 2.f / 1022}, K{-1, 2.f / 1022}, K{-1, 2.f / 1022}}};
  if ((a.id == AId::kSideLabel || a.id == AId::kForwardLabel) && a.type == AType::kFloat1PackedIn1UnsignedByte) return MeshAttributeCodingParams{.components = {K{-128, 1}}};
  if (a.id == AId::kSurfaceUv && a.type == AType::kFloat2PackedIn4UnsignedBytes_X12_Y20) return MeshAttributeCodingParams{.components = {K{0, 1.f / 4095}, K{0, 1.f / 1048575}}};
  return std::nullopt;
}
bool SameCoding(const std::optional<MeshAttributeCodingParams>& a, const std::optional<MeshAttributeCodingParams>& b) {
  if (a.has_value() != b.has_value()) return false;
  if (!a) return true;
  if (a->components.Size() != b->components.Size()) return false;
  for (int i = 0; i < (int)a->components.Size(); ++i) {
    auto x = a->components.Values()[i], y = b->components.Values()[i];
    if (std::abs(x.offset - y.offset) > 1e-6 || std::abs(x.scale - y.scale) > 1e-6 * y.scale) return false;
  }
  return true;
}
std::optional<Mesh> RandMesh(Ctx& c, const MeshFormat& f, double far, double step) {
  Rng& r = c.rng;
  int n = r.Int(3, 10), nt = r.Int(1, 8);
  std::vector<std::vector<float>> data;
  std::vector<std::optional<MeshAttributeCodingParams>> packing;
  double dscale = step * r.LogReal(.3, 3);
  int flat = r.Chance(.2) ? (int)r.Below(n) : -1;
  for (const auto& a : f.Attributes()) {
    bool omit = false;
    packing.push_back(Coding(a));
    std::vector<std::vector<float>> comp(Components(a.type));
    for (int v = 0; v < n && !omit; ++v)
      for (size_t k = 0; k < comp.size(); ++k) {
        float x = r.F(-2, 2);
        switch (a.id) {
          case AId::kPosition: x = (float)(far + step * r.Real(-3, 3)); break;
          case AId::kOpacityShift: case AId::kColorShiftHsl: x = r.Chance(.3) ? r.Of({-1.f, 0.f, 1.f}) : r.F(-1, 1); break;
          case AId::kSideDerivative: case AId::kForwardDerivative: x = (v == flat) ? 0 : (float)(dscale * r.Real(-1, 1)); break;
          case AId::kSideLabel: case AId::kForwardLabel: x = r.Chance(.3) ? 0.f : (float)r.Int(-127, 127); break;
          case AId::kSurfaceUv: x = r.Chance(.2) ? r.Of({0.f, 1.f}) : r.F(0, 1); break;
          default: break;
        }
        comp[k].push_back(x);
      }
    for (auto& q : comp) data.push_back(std::move(q));
  }
  std::vector<absl::Span<const float>> spans(data.begin(), data.end());
  std::vector<uint32_t> tri;
  for (int i = 0; i < nt; ++i) {
    uint32_t a = r.Below(n), b = r.Below(n), d = r.Below(n);
    if (a == b || b == d || a == d) a = 0, b = 1, d = 2;
    for (uint32_t q : {a, b, d}) tri.push_back(q);
  }
  auto m = Mesh::Create(f, spans, tri, packing);
  if (!m.ok()) { c.Count("meshes_refused"); return std::nullopt; }
  return *m;
}
void CheckLayout(Ctx& c, const MeshSpecificationData& d, const MeshFormat& f, bool packed) {
  VH_REQUIRE(c, d.vertex_stride == (int)(packed ? f.PackedVertexStride() : f.UnpackedVertexStride()), "stride", d.vertex_stride);
  std::set<int> ids;
  auto ix = IndexOf(f);
  for (const auto& u : d.uniforms.Values()) {
    VH_REQUIRE(c, ids.insert((int)u.id).second, "uniforms", "uniform ", (int)u.id, " is listed twice");
    std::optional<AId> want;
    if (u.id == MeshSpecificationData::UniformId::kPositionUnpackingTransform) want = AId::kPosition;
    if (u.id == MeshSpecificationData::UniformId::kSideDerivativeUnpackingTransform) want = AId::kSideDerivative;
    if (u.id == MeshSpecificationData::UniformId::kForwardDerivativeUnpackingTransform) want = AId::kForwardDerivative;
    VH_REQUIRE(c, u.unpacking_attribute_index.has_value() == want.has_value(), "unpacking-index");
    if (want) VH_REQUIRE(c, *u.unpacking_attribute_index == ix[(int)*want], "unpacking-index", *u.unpacking_attribute_index, " want ", ix[(int)*want]);
  }
  for (auto id : {MeshSpecificationData::UniformId::kObjectToCanvasLinearComponent, MeshSpecificationData::UniformId::kBrushColor, MeshSpecificationData::UniformId::kTextureMapping}) VH_REQUIRE(c, ids.count((int)id), "uniforms", "no uniform ", (int)id);
  VH_REQUIRE(c, MeshSpecificationData::GetUniformName((MeshSpecificationData::UniformId)(6 + c.rng.Below(100))).empty(), "uniform-name");
}
VH_PROPERTY(R01) {
  Rng& r = c.rng;
  auto index = r.Chance(.8) ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked;
  std::vector<std::pair<AType, AId>> list;
  if (r.Chance(.15)) { MeshFormat ff = StrokeVertex::FullMeshFormat(); for (const auto& a : ff.Attributes()) list.push_back({a.type, a.id}); if (r.Chance(.3)) list.erase(list.begin() + r.Below(list.size())); }
  else for (const Attr& a : RandFormat(r)) list.push_back({a.type, a.id});
  auto f = MeshFormat::Create(list, index);
  if (!f.ok()) { c.Count("formats_refused"); return; }
  c.Sig(list.size());
  for (auto& [t, id] : list) c.Sig(t), c.Sig(id);
  // In progress strokes have one format.
  bool full = *f == StrokeVertex::FullMeshFormat();
  auto ip = MeshSpecificationData::CreateForInProgressStroke(*f);
  VH_REQUIRE(c, ip.ok() == full, "in-progress-format", *f, ": ", ip.status());
  if (!ip.ok()) VH_REQUIRE(c, absl::IsInvalidArgument(ip.status()), "error-code");
  auto d = MeshSpecificationData::CreateForStroke(*f);
  std::optional<bool> want = Supported(*f);
  c.Count(d.ok() ? "supported" : "unsupported");
  if (want) VH_REQUIRE(c, d.ok() == *want, *want ? "format-refused" : "format-accepted", *f, ": ", d.status());
  if (!d.ok()) { VH_REQUIRE(c, absl::IsInvalidArgument(d.status()), "error-code"); return; }
  c.NonTrivial();
  CheckLayout(c, *d, *f, true);
  auto spec = ink::skia_native_internal::CreateMeshSpecification(*d);
  VH_REQUIRE(c, spec.ok(), "specification", *f, ": ", spec.status());
  double far = r.Chance(.2) ? r.Real(-1e5, 1e5) : r.Real(-100, 100);
  std::optional<Mesh> m = RandMesh(c, *f, far, r.LogReal(.1, 100));
  if (!m) return;
  if (list.size() <= 8) {  // the same coding as strokes use
    auto pa = StrokeVertex::MakeCustomPackingArray(*f);
    for (size_t i = 0; i < list.size(); ++i) VH_REQUIRE(c, SameCoding(pa[i], Coding(f->Attributes()[i])), "custom-packing", *f, " attribute ", (int)i);
  }
  DrawCheck k{"mesh", RandObjectToCanvas(r), RandColor(r), (BrushPaint::TextureMapping)r.Below(2), IndexOf(*f)[(int)AId::kColorShiftHsl] >= 0};
  MeshUniformData u(**spec, m->Format().Attributes(), [&](int i) -> const MeshAttributeCodingParams& { return m->VertexAttributeUnpackingParams(i); });
  VH_REQUIRE(c, u.HasBrushColor() && u.HasTextureMapping() && u.HasObjectToCanvasLinearComponent(), "uniforms");
  // Values that were handed out do not change later on.
  u.SetBrushColor(RandColor(r));
  u.SetTextureMapping((BrushPaint::TextureMapping)r.Below(2));
  u.SetObjectToCanvasLinearComponent(RandObjectToCanvas(r));
  sk_sp<const SkData> before = u.Get();
  std::vector<uint8_t> bytes(before->bytes(), before->bytes() + before->size());
  int order = r.Below(3);
  for (int i = 0; i < 3; ++i) {
    switch ((order + i) % 3) {
      case 0: u.SetBrushColor(k.color); break;
      case 1: u.SetTextureMapping(k.mapping); break;
      case 2: u.SetObjectToCanvasLinearComponent(k.t); break;
    }
  }
  VH_REQUIRE(c, std::memcmp(before->bytes(), bytes.data(), bytes.size()) == 0, "handed-out-uniforms");
  VH_REQUIRE(c, SkData::shared_writes == 0, "shared-write");
  std::vector<Ref> refs;
  std::vector<std::array<uint32_t, 3>> tris;
  Collect(*m, refs, tris);
  CheckVertices(c, k, **spec, u.Get().get(), reinterpret_cast<const uint8_t*>(m->RawVertexData().data()), refs, tris, 8);
  c.Sample(*f, " vertices ", m->VertexCount());
}

// ---------------------------------------------------------------- R02
using ink::BrushPaint;
using ink::MeshFormat;
using ink::VectorBitmap;
BrushPaint::BlendMode kModes[] = {BrushPaint::BlendMode::kModulate, BrushPaint::BlendMode::kDstIn, BrushPaint::BlendMode::kDstOut, BrushPaint::BlendMode::kSrcAtop, BrushPaint::BlendMode::kSrcIn, BrushPaint::BlendMode::kSrcOver, BrushPaint::BlendMode::kDstOver, BrushPaint::BlendMode::kSrc, BrushPaint::BlendMode::kDst, BrushPaint::BlendMode::kSrcOut, BrushPaint::BlendMode::kDstAtop, BrushPaint::BlendMode::kXor};
SkBlendMode ModeOf(BrushPaint::BlendMode m) {
  using B = BrushPaint::BlendMode;
  switch (m) {
    case B::kModulate: return SkBlendMode::kModulate;
    case B::kDstIn: return SkBlendMode::kDstIn;
    case B::kDstOut: return SkBlendMode::kDstOut;
    case B::kSrcAtop: return SkBlendMode::kSrcATop;
    case B::kSrcIn: return SkBlendMode::kSrcIn;
    case B::kSrcOver: return SkBlendMode::kSrcOver;
    case B::kDstOver: return SkBlendMode::kDstOver;
    case B::kSrc: return SkBlendMode::kSrc;
    case B::kDst: return SkBlendMode::kDst;
    case B::kSrcOut: return SkBlendMode::kSrcOut;
    case B::kDstAtop: return SkBlendMode::kDstATop;
    case B::kXor: return SkBlendMode::kXor;
  }
  return SkBlendMode::kClear;
}
class Store : public ink::TextureBitmapStore {
 public:
  std::map<std::string, std::shared_ptr<Bitmap>> have;
  std::shared_ptr<Bitmap> fallback;
  mutable int asked = 0;
  absl::StatusOr<std::shared_ptr<Bitmap>> GetTextureBitmap(const Uri& u) const override {
    ++asked;
    auto it = have.find(absl::StrCat(u));
    if (it != have.end()) return it->second;
    if (fallback) return fallback;
    return absl::NotFoundError("no such texture");
  }
};
struct WantDraw {
  bool mesh = true;
  int coat = 0;
  std::vector<Ref> refs;
  std::vector<std::array<uint32_t, 3>> tris;
  ink::Rect bounds;
  bool has_hsl = true;
  std::vector<ink::Point> outline;
};
template <typename F> std::vector<ink::Point> PointsOf(size_t n, F at) {
  std::vector<ink::Point> v;
  for (size_t i = 0; i < n; ++i) v.push_back(at(i));
  return v;
}
std::vector<WantDraw> WantOf(const Stroke& s, bool gpu) {
  std::vector<WantDraw> v;
  const PartitionedMesh& sh = s.GetShape();
  for (uint32_t g = 0; g < sh.RenderGroupCount(); ++g) {
    auto ms = sh.RenderGroupMeshes(g);
    if (gpu)
      for (const Mesh& m : ms) {
        WantDraw w{.mesh = true, .coat = (int)g, .bounds = *m.Bounds().AsRect()};
        Collect(m, w.refs, w.tris);
        w.has_hsl = IndexOf(m.Format())[(int)AId::kColorShiftHsl] >= 0;
        v.push_back(std::move(w));
      }
    else
      for (uint32_t o = 0; o < sh.OutlineCount(g); ++o) {
        auto ol = sh.Outline(g, o);
        if (ol.empty()) continue;
        v.push_back({.mesh = false, .coat = (int)g, .outline = PointsOf(ol.size(), [&](size_t i) { return ms[ol[i].mesh_index].VertexPosition(ol[i].vertex_index); })});
      }
  }
  return v;
}
std::vector<WantDraw> WantOf(const InProgressStroke& s, bool gpu) {
  std::vector<WantDraw> v;
  if (s.GetBrush() == nullptr) return v;
  for (uint32_t g = 0; g < s.BrushCoatCount(); ++g) {
    if (s.GetMeshBounds(g).IsEmpty()) continue;
    const MutableMesh& m = s.GetMesh(g);
    if (gpu && m.TriangleCount() == 0) continue;
    if (gpu) {
      WantDraw w{.mesh = true, .coat = (int)g, .bounds = *s.GetMeshBounds(g).AsRect()};
      Collect(m, w.refs, w.tris);
      v.push_back(std::move(w));
    } else {
      for (auto ol : s.GetCoatOutlines(g)) {
        if (ol.empty()) continue;
        v.push_back({.mesh = false, .coat = (int)g, .outline = PointsOf(ol.size(), [&](size_t i) { return m.VertexPosition(ol[i]); })});
      }
    }
  }
  return v;
}
// Judges draws[from..] of a canvas.
void CheckDraws(Ctx& c, const char* what, const SkCanvas& canvas, size_t from, const std::vector<WantDraw>& want, const ink::Brush& brush, const Color& color, const AffineTransform& t, size_t max_tris) {
  VH_REQUIRE(c, canvas.draws.size() - from == want.size(), "number-of-draws", what, ": ", (int)(canvas.draws.size() - from), " want ", (int)want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    const SkCanvas::Draw& d = canvas.draws[from + i];
    const WantDraw& w = want[i];
    const auto& coat = brush.GetCoats()[w.coat];
    const float m[16] = {t.A(), t.B(), 0, t.C(), t.D(), t.E(), 0, t.F(), 0, 0, 1, 0, 0, 0, 0, 1};
    for (int k = 0; k < 16; ++k) VH_REQUIRE(c, d.matrix.m[k] == m[k], "matrix", what, ": entry ", k, " is ", d.matrix.m[k], " for ", t);
    VH_REQUIRE(c, d.is_mesh == w.mesh, "mesh-or-path", what);
    const auto& layers = coat.paint.texture_layers;
    if (!w.mesh) {
      c.Count("paths");
      VH_REQUIRE(c, d.path.fill == SkPathFillType::kWinding, "fill", what);
      VH_REQUIRE(c, d.paint.aa && d.paint.style == SkPaint::kFill_Style && !d.paint.shader, "path-paint", what);
      VH_REQUIRE(c, !d.paint.blender || d.paint.blender->mode == SkBlendMode::kSrcOver, "path-paint", what);
      const auto& st = d.path.steps;
      size_t n = w.outline.size();
      VH_REQUIRE(c, st.size() >= n + 1 && st[st.size() - 1].v == SkPath::kClose, "path-steps", what, ": ", (int)st.size(), " steps for ", (int)n, " vertices");
      // The way back to the start may be given or not.
      size_t lines = st.size() - 1;
      if (lines == n + 1 && st[n].v == SkPath::kLine && st[n].x == w.outline[0].x && st[n].y == w.outline[0].y) --lines;
      VH_REQUIRE(c, lines == n, "path-steps", what, ": ", (int)st.size(), " steps for ", (int)n, " vertices");
      for (size_t k = 0; k < n; ++k) VH_REQUIRE(c, st[k].v == (k == 0 ? SkPath::kMove : SkPath::kLine) && st[k].x == w.outline[k].x && st[k].y == w.outline[k].y, "path-step", what, ": step ", (int)k, " to ", st[k].x, ",", st[k].y, " want ", w.outline[k]);
      Color::RgbaFloat b = color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear);
      VH_REQUIRE(c, d.paint.color_space && d.paint.color_space->linear && d.paint.color_space->gamut == SkColorSpace::kSrgbGamut, "path-color-space", what);
      double a = std::clamp((double)b.a * coat.tips[0].opacity_multiplier, 0., 1.);
      const SkColor4f& q = d.paint.color;
      VH_REQUIRE(c, Near(q.fR, b.r, 1e-6) && Near(q.fG, b.g, 1e-6) && Near(q.fB, b.b, 1e-6) && Near(std::clamp(q.fA, 0.f, 1.f), a, 1e-6), "path-color", what, ": ", q.fR, ",", q.fG, ",", q.fB, ",", q.fA, " for ", color, " opacity ", coat.tips[0].opacity_multiplier);
      continue;
    }
    c.Count("meshes");
    VH_REQUIRE(c, d.mesh.isValid(), "invalid-mesh", what);
    VH_REQUIRE(c, d.mesh.mode == SkMesh::Mode::kTriangles, "mode", what);
    VH_REQUIRE(c, d.mesh.icount == 3 * w.tris.size(), "index-count", what, ": ", (int)d.mesh.icount, " for ", (int)w.tris.size(), " triangles");
    VH_REQUIRE(c, d.mesh.vcount == w.refs.size(), "vertex-count", what, ": ", (int)d.mesh.vcount, " want ", (int)w.refs.size());
    const uint8_t* ix = d.mesh.ib->b.data() + d.mesh.ioff;
    for (size_t k = 0; k < w.tris.size(); ++k)
      for (int j = 0; j < 3; ++j) {
        uint16_t q;
        std::memcpy(&q, ix + 2 * (3 * k + j), 2);
        VH_REQUIRE(c, q == w.tris[k][j], "index", what, ": corner ", j, " of triangle ", (int)k, " is ", (int)q, " want ", w.tris[k][j]);
      }
    const SkRect& bb = d.mesh.bounds;
    VH_REQUIRE(c, bb.left() <= w.bounds.XMin() && bb.top() <= w.bounds.YMin() && bb.right() >= w.bounds.XMax() && bb.bottom() >= w.bounds.YMax(), "bounds", what, ": ", bb.left(), ",", bb.top(), ",", bb.right(), ",", bb.bottom(), " for ", w.bounds);
    const SkColor4f& q = d.paint.color;
    VH_REQUIRE(c, q.fR == 1 && q.fG == 1 && q.fB == 1 && q.fA == 1, "mesh-paint", what);
    VH_REQUIRE(c, (d.paint.shader != nullptr) == !layers.empty(), "mesh-shader", what);
    if (layers.empty()) VH_REQUIRE(c, !d.blender || d.blender->mode == SkBlendMode::kDst || d.blender->mode == SkBlendMode::kModulate, "blender", what, ": mode ", (int)d.blender->mode);
    else VH_REQUIRE(c, d.blender && d.blender->mode == ModeOf(layers.back().blend_mode), "blender", what, ": mode ", d.blender ? (int)d.blender->mode : -1, " for ", layers.back().blend_mode);
    DrawCheck k{what, t, color, layers.empty() ? BrushPaint::TextureMapping::kTiling : layers[0].mapping, w.has_hsl};
    CheckVertices(c, k, *d.mesh.spec, d.mesh.uniforms.get(), d.mesh.vb->b.data() + d.mesh.voff, w.refs, w.tris, max_tris);
  }
}
struct Kept { const SkData* data; std::vector<uint8_t> bytes; sk_sp<const SkData> hold; };
void Keep(std::vector<Kept>& v, const SkCanvas& canvas, size_t from) {
  for (size_t i = from; i < canvas.draws.size(); ++i)
    if (canvas.draws[i].is_mesh) {
      auto u = canvas.draws[i].mesh.uniforms;
      v.push_back({u.get(), std::vector<uint8_t>(u->bytes(), u->bytes() + u->size()), u});
    }
}
SkM44 RandM44(Rng& r) {
  SkM44 m;
  for (int i = 0; i < 16; ++i) m.m[i] = r.F(-2, 2);
  return m;
}
// A shape like one that was saved: meshes of other strokes of the same brush.
std::optional<Stroke> Patchwork(Ctx& c, const ink::Brush& b, const std::vector<Stroke>& from) {
  size_t coats = b.CoatCount();
  std::vector<std::vector<Mesh>> ms(coats);
  std::vector<std::vector<std::vector<PartitionedMesh::VertexIndexPair>>> outlines(coats);
  for (const Stroke& s : from) {
    const PartitionedMesh& sh = s.GetShape();
    if (sh.RenderGroupCount() != coats) continue;
    for (size_t g = 0; g < coats; ++g) {
      uint32_t base = ms[g].size();
      for (const Mesh& m : sh.RenderGroupMeshes(g)) ms[g].push_back(m);
      for (uint32_t o = 0; o < sh.OutlineCount(g); ++o) {
        auto ol = sh.Outline(g, o);
        outlines[g].emplace_back(ol.begin(), ol.end());
        for (auto& q : outlines[g].back()) q.mesh_index += base;
      }
    }
  }
  std::vector<std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>>> spans(coats);
  std::vector<PartitionedMesh::MeshGroup> groups;
  for (size_t g = 0; g < coats; ++g) {
    for (auto& o : outlines[g]) spans[g].push_back(o);
    groups.push_back({.meshes = ms[g], .outlines = spans[g]});
  }
  auto sh = PartitionedMesh::FromMeshGroups(groups);
  if (!sh.ok()) { c.Count("patchwork_refused"); return std::nullopt; }
  return Stroke(b, from[0].GetInputs(), *sh);
}
VH_PROPERTY(R02) {
  Rng& r = c.rng;
  SkData::shared_writes = 0;
  auto store = std::make_shared<Store>();
  store->fallback = std::make_shared<VectorBitmap>(1, 1, Bitmap::PixelFormat::kRgba8888, Color::Format::kGammaEncoded, ColorSpace::kSrgb, std::vector<uint8_t>{1, 2, 3, 4});
  SkiaRenderer renderer(store);
  if (r.Chance(.3)) { SkiaRenderer other(std::move(renderer)); renderer = std::move(other); }
  GrDirectContext context;
  SkCanvas canvas;
  std::vector<Kept> kept;
  int rounds = r.Int(1, 2);
  for (int round = 0; round < rounds; ++round) {
    BrushOpts bo{.max_coats = 3};
    if (r.Chance(.5)) bo.particles = false;
    ink::Brush brush = RandBrush(r, bo);
    std::vector<ink::BrushCoat> coats(brush.GetCoats().begin(), brush.GetCoats().end());
    for (auto& k : coats) for (auto& l : k.paint.texture_layers) l.blend_mode = kModes[r.Below(12)];
    auto fam = ink::BrushFamily::Create(coats, "", brush.GetFamily().GetInputModel());
    VH_REQUIRE(c, fam.ok(), "generator", fam.status());
    brush = *ink::Brush::Create(*fam, RandColor(r), brush.GetSize(), brush.GetEpsilon());
    c.Sig(brush.CoatCount());
    AffineTransform t = RandObjectToCanvas(r);
    size_t max_tris = 6;
    // While drawing.
    InProgressStroke ip;
    if (r.Chance(.2)) {
      auto d = renderer.CreateDrawable(r.Chance(.5) ? &context : nullptr, ip, t);
      VH_REQUIRE(c, d.ok(), "not-started", d.status());
      size_t from = canvas.draws.size();
      d->Draw(canvas);
      VH_REQUIRE(c, canvas.draws.size() == from, "not-started");
    }
    ip.Start(brush);
    Pen pen(r, brush);
    int updates = r.Int(0, 4);
    float now = 0;
    bool ip_ok = true;
    for (int u = 0; u <= updates && ip_ok; ++u) {
      if (u > 0) {
        auto in = Take(pen, r, r.Int(0, 8));
        Pen ahead = pen;
        Rng pr; pr.s = r();
        auto pred = Take(ahead, pr, r.Chance(.5) ? 0 : r.Int(0, 4));
        auto st = ip.EnqueueInputs(Batch(in), Batch(pred));
        if (st.ok()) {
          if (!in.empty()) now = std::max(now, in.back().elapsed_time.ToSeconds());
          st = ip.UpdateShape(Duration32::Seconds(now + (float)r.Of({0., .01, .1})));
        }
        if (!st.ok()) { c.Count("updates_refused"); ip_ok = false; }
      }
      if (u > 0 && r.Chance(.4)) continue;
      bool gpu = r.Chance(.7);
      canvas.setMatrix(RandM44(r));
      size_t from = canvas.draws.size();
      auto want = WantOf(ip, gpu);
      bool big = false;
      for (auto& w : want) big |= w.refs.size() >= 65535;
      if (big) { c.Count("too_big"); continue; }
      auto st = renderer.Draw(gpu ? &context : nullptr, ip, t, canvas);
      VH_REQUIRE(c, st.ok(), "in-progress-draw", st);
      c.NonTrivial();
      c.Sig(gpu);
      for (auto& w : want) c.Sig(w.refs.size() + w.outline.size());
      CheckDraws(c, gpu ? "in progress" : "in progress, as paths", canvas, from, want, brush, brush.GetColor(), t, max_tris);
      Keep(kept, canvas, from);
    }
    // Finished.
    ink::Stroke stroke = ip.CopyToStroke();
    if (r.Chance(.3)) { Pen p2(r, brush); stroke = Stroke(brush, Batch(Take(p2, r, r.Int(0, 12)))); }
    if (r.Chance(.35)) {
      std::vector<Stroke> parts{stroke};
      for (int k = r.Int(1, 2); k > 0; --k) { Pen p2(r, brush.GetSize() * r.LogReal(.2, 5)); if (HasParticles(brush)) p2.step = std::min<double>(p2.step, brush.GetSize() * .5); parts.push_back(Stroke(brush, Batch(Take(p2, r, r.Int(1, 8))))); }
      if (auto s = Patchwork(c, brush, parts)) { stroke = *s; c.Count("patchworks"); }
    }
    bool gpu = r.Chance(.75);
    auto want = WantOf(stroke, gpu);
    if (r.Chance(.3)) {
      size_t from = canvas.draws.size();
      canvas.setMatrix(RandM44(r));
      auto st = renderer.Draw(gpu ? &context : nullptr, stroke, t, canvas);
      VH_REQUIRE(c, st.ok(), "draw", st);
      CheckDraws(c, gpu ? "stroke" : "stroke, as paths", canvas, from, want, brush, brush.GetColor(), t, max_tris);
      Keep(kept, canvas, from);
      continue;
    }
    struct Model { SkiaRenderer::Drawable d; Color color; AffineTransform t; };
    auto d0 = renderer.CreateDrawable(gpu ? &context : nullptr, stroke, t);
    VH_REQUIRE(c, d0.ok(), "drawable", d0.status());
    std::vector<Model> ds{{*d0, brush.GetColor(), t}};
    bool any = !want.empty();
    for (int k = r.Int(1, 7); k > 0; --k) {
      size_t j = r.Below(ds.size());
      Model& m = ds[j];
      switch (r.Below(6)) {
        case 0: if (ds.size() < 4) { Model copy = m; ds.push_back(copy); } break;
        case 1: m = Model(ds[r.Below(ds.size())]); break;
        case 2: m.t = RandObjectToCanvas(r); m.d.SetObjectToCanvas(m.t); break;
        case 3:
          if (m.d.HasBrushColor()) { m.color = RandColor(r); m.d.SetBrushColor(m.color); }
          break;
        case 4: { Model moved = std::move(m); m = std::move(moved); break; }
        default: {
          size_t from = canvas.draws.size();
          canvas.setMatrix(RandM44(r));
          m.d.Draw(canvas);
          CheckDraws(c, gpu ? "drawable" : "drawable, as paths", canvas, from, want, brush, m.color, m.t, 3);
          Keep(kept, canvas, from);
        }
      }
    }
    for (Model& m : ds) {
      VH_REQUIRE(c, m.d.HasBrushColor() || !any, "has-brush-color");
      { const auto& q = m.d.ObjectToCanvas(); VH_REQUIRE(c, q.A() == m.t.A() && q.B() == m.t.B() && q.C() == m.t.C() && q.D() == m.t.D() && q.E() == m.t.E() && q.F() == m.t.F(), "object-to-canvas"); }
      size_t from = canvas.draws.size();
      m.d.Draw(canvas);
      CheckDraws(c, gpu ? "drawable" : "drawable, as paths", canvas, from, want, brush, m.color, m.t, 3);
      Keep(kept, canvas, from);
    }
    c.Sample("coats ", brush.CoatCount(), " draws ", want.size());
  }
  // What was drawn before is as it was.
  for (const Kept& k : kept) VH_REQUIRE(c, std::memcmp(k.data->bytes(), k.bytes.data(), k.bytes.size()) == 0, "drawn-before");
  VH_REQUIRE(c, SkData::shared_writes == 0, "shared-write");
}

// ---------------------------------------------------------------- R03
using Layer = BrushPaint::TextureLayer;
struct M3 { double a = 1, b = 0, c = 0, d = 0, e = 1, f = 0; };
M3 operator*(const M3& x, const M3& y) { return {x.a * y.a + x.b * y.d, x.a * y.b + x.b * y.e, x.a * y.c + x.b * y.f + x.c, x.d * y.a + x.e * y.d, x.d * y.b + x.e * y.e, x.d * y.c + x.e * y.f + x.f}; }
M3 Of(const SkMatrix& m) { return {m.m[0], m.m[1], m.m[2], m.m[3], m.m[4], m.m[5]}; }
// A shader as the value of an expression over its images.
struct Expr {
  const SkShader* image = nullptr;
  M3 m;
  SkBlendMode mode = SkBlendMode::kClear;
  std::shared_ptr<Expr> dst, src;
};
std::shared_ptr<Expr> Flatten(Ctx& c, const SkShader* s, M3 outer) {
  VH_REQUIRE(c, s != nullptr, "null-shader");
  auto e = std::make_shared<Expr>();
  switch (s->kind) {
    case SkShader::kLocalMatrix: return Flatten(c, s->a.get(), outer * Of(s->matrix));
    case SkShader::kImage: e->image = s; e->m = outer * Of(s->matrix); return e;
    case SkShader::kBlend: e->mode = s->mode; e->dst = Flatten(c, s->a.get(), outer); e->src = Flatten(c, s->b.get(), outer); return e;
    default: c.Fail("unknown-shader", "");
  }
  return e;
}
struct Texture { std::shared_ptr<Bitmap> bitmap; bool valid; };
Texture RandBitmap(Rng& r, double p_bad) {
  int w = r.Int(1, 6), h = r.Int(1, 6);
  auto pf = Bitmap::PixelFormat::kRgba8888;
  auto cf = r.Of({Color::Format::kLinear, Color::Format::kGammaEncoded, Color::Format::kPremultipliedAlpha});
  auto cs = r.Of({ColorSpace::kSrgb, ColorSpace::kDisplayP3});
  size_t size = (size_t)w * h * 4;
  bool valid = !r.Chance(p_bad);
  auto odd = [&] { return r.Of({-1, 3, 17, 255, INT_MAX, INT_MIN}); };
  if (!valid) {
    switch (r.Below(8)) {
      case 0: w = r.Of({0, -1, -w, INT_MIN}); if (w == 0 && r.Chance(.5)) size = 0; break;
      case 1: h = r.Of({0, -1, -h, INT_MIN}); if (h == 0 && r.Chance(.5)) size = 0; break;
      case 2: pf = (Bitmap::PixelFormat)r.Of({-1, 1, 2, 17, INT_MAX}); break;
      case 3: cf = (Color::Format)odd(); break;
      case 4: cs = (ColorSpace)r.Of({-1, 2, 3, 17, INT_MAX}); break;
      case 5: { size_t k = r.Of<size_t>({0, size - 1, size + 1, size * 2, (size_t)w * h * 3, size - 4}); size = k == size ? size + 1 : k; break; }
      case 6: {  // the size fits in 32 bits only
        static constexpr int kWide[][2] = {{1 << 16, 1 << 14}, {1 << 30, 1}, {1, 1 << 30}, {1 << 15, 1 << 15}, {1 << 16, 1 << 16}, {(1 << 30) + 1, 1}};
        const auto& wide = kWide[r.Below(6)]; w = wide[0]; h = wide[1]; size = (uint32_t)(4ull * w * h); break;
      }
      default: w = -w; h = -h; break;  // the size fits
    }
  }
  std::vector<uint8_t> px(size);
  for (auto& b : px) b = (uint8_t)r.Below(256);
  return {std::make_shared<VectorBitmap>(w, h, pf, cf, cs, std::move(px)), valid};
}
Layer RandLayer(Rng& r, const std::vector<std::string>& uris, BrushPaint::TextureMapping mapping) {
  Layer l{.color_texture_uri = *Uri::Parse(uris[r.Below(uris.size())]), .mapping = mapping};
  l.origin = (BrushPaint::TextureOrigin)r.Below(3);
  l.size_unit = r.Chance(.5) ? BrushPaint::TextureSizeUnit::kBrushSize : BrushPaint::TextureSizeUnit::kStrokeCoordinates;
  l.wrap_x = (BrushPaint::TextureWrap)r.Below(3);
  l.wrap_y = (BrushPaint::TextureWrap)r.Below(3);
  if (r.Chance(.8)) l.size = {(float)r.LogReal(.05, 50), (float)r.LogReal(.05, 50)};
  if (r.Chance(.6)) l.offset = {r.F(0, 1), r.F(0, 1)};
  if (r.Chance(.2)) l.opacity = r.F(0, 1);
  l.blend_mode = kModes[r.Below(12)];
  return l;
}
Layer Tweak(Rng& r, Layer l, const std::vector<std::string>& uris) {
  switch (r.Below(9)) {
    case 0: l.color_texture_uri = *Uri::Parse(uris[r.Below(uris.size())]); break;
    case 1: l.origin = (BrushPaint::TextureOrigin)r.Below(3); break;
    case 2: l.size_unit = r.Chance(.5) ? BrushPaint::TextureSizeUnit::kBrushSize : BrushPaint::TextureSizeUnit::kStrokeCoordinates; break;
    case 3: l.wrap_x = (BrushPaint::TextureWrap)r.Below(3); break;
    case 4: l.wrap_y = (BrushPaint::TextureWrap)r.Below(3); break;
    case 5: (r.Chance(.5) ? l.size.x : l.size.y) *= r.F(.5, 2); break;
    case 6: (r.Chance(.5) ? l.offset.x : l.offset.y) = r.F(0, 1); break;
    case 7: l.blend_mode = kModes[r.Below(12)]; break;
    default: std::swap(l.size.x, l.size.y); break;
  }
  return l;
}
void CheckTextures(Ctx& c, const char* what, const SkCanvas::Draw& d, const BrushPaint& paint, double brush_size, const ink::StrokeInputBatch& in, const std::map<std::string, Texture>& textures) {
  const auto& ls = paint.texture_layers;
  if (ls.empty()) { VH_REQUIRE(c, !d.paint.shader, "shader-without-texture", what); return; }
  VH_REQUIRE(c, d.paint.shader != nullptr, "no-shader", what);
  std::shared_ptr<Expr> e = Flatten(c, d.paint.shader.get(), {});
  for (size_t i = ls.size(); i-- > 0;) {
    const Expr* leaf = e.get();
    if (i > 0) {
      VH_REQUIRE(c, !e->image, "layers", what, ": ", (int)i, " layers are missing");
      VH_REQUIRE(c, e->mode == ModeOf(ls[i - 1].blend_mode), "blend-mode", what, ": layer ", (int)i - 1, " of ", (int)ls.size(), " has ", ls[i - 1].blend_mode, " and is blended by ", (int)e->mode);
      leaf = e->dst.get();
    }
    VH_REQUIRE(c, leaf->image != nullptr, "layers", what, ": layer ", (int)i, " is not an image");
    c.Count("layers");
    const SkShader& s = *leaf->image;
    const Layer& l = ls[i];
    auto wrap = [](BrushPaint::TextureWrap w) { return w == BrushPaint::TextureWrap::kRepeat ? SkTileMode::kRepeat : w == BrushPaint::TextureWrap::kMirror ? SkTileMode::kMirror : SkTileMode::kClamp; };
    VH_REQUIRE(c, s.tx == wrap(l.wrap_x) && s.ty == wrap(l.wrap_y), "wrap", what, ": layer ", (int)i, " ", l.wrap_x, ",", l.wrap_y, " is ", (int)s.tx, ",", (int)s.ty);
    const Bitmap& b = *textures.at(absl::StrCat(l.color_texture_uri)).bitmap;
    const SkImageInfo& info = s.image->info;
    VH_REQUIRE(c, info.w == b.width() && info.h == b.height() && info.ct == kRGBA_8888_SkColorType, "image-size", what, ": ", info.w, "x", info.h, " for ", b.width(), "x", b.height());
    auto px = b.GetPixelData();
    VH_REQUIRE(c, s.image->pixels.size() == px.size() && std::memcmp(s.image->pixels.data(), px.data(), px.size()) == 0, "image-pixels", what, ": layer ", (int)i, " texture ", l.color_texture_uri);
    VH_REQUIRE(c, info.at == (b.color_format() == Color::Format::kPremultipliedAlpha ? kPremul_SkAlphaType : kUnpremul_SkAlphaType), "image-alpha", what, ": ", (int)info.at, " for ", (int)b.color_format());
    VH_REQUIRE(c, info.cs && info.cs->linear == (b.color_format() != Color::Format::kGammaEncoded), "image-transfer", what, ": format ", (int)b.color_format());
    VH_REQUIRE(c, info.cs->gamut == (b.color_space() == ColorSpace::kSrgb ? SkColorSpace::kSrgbGamut : SkColorSpace::kP3Gamut), "image-gamut", what, ": space ", (int)b.color_space());
    if (l.mapping == BrushPaint::TextureMapping::kTiling) {
      double u = l.size_unit == BrushPaint::TextureSizeUnit::kBrushSize ? brush_size : 1;
      P o{0, 0};
      if (l.origin == BrushPaint::TextureOrigin::kFirstStrokeInput && !in.IsEmpty()) o = D(in.Get(0).position);
      if (l.origin == BrushPaint::TextureOrigin::kLastStrokeInput && !in.IsEmpty()) o = D(in.Get(in.Size() - 1).position);
      M3 w{u * l.size.x / b.width(), 0, o.x + u * l.size.x * l.offset.x, 0, u * l.size.y / b.height(), o.y + u * l.size.y * l.offset.y};
      const M3& g = leaf->m;
      double tx = 1e-5 * (std::fabs(o.x) + u * l.size.x), ty = 1e-5 * (std::fabs(o.y) + u * l.size.y);
      VH_REQUIRE(c, Near(g.a, w.a, 1e-5 * w.a) && Near(g.e, w.e, 1e-5 * w.e) && Near(g.b, 0, 1e-9) && Near(g.d, 0, 1e-9), "texture-size", what, ": layer ", (int)i, " texel is ", g.a, " by ", g.e, " want ", w.a, " by ", w.e);
      VH_REQUIRE(c, Near(g.c, w.c, tx) && Near(g.f, w.f, ty), "texture-origin", what, ": layer ", (int)i, " starts at ", g.c, ",", g.f, " want ", w.c, ",", w.f);
      c.Count("tilings");
    }
    if (i > 0) e = e->src;
  }
}
VH_PROPERTY(R03) {
  Rng& r = c.rng;
  // Bitmaps.
  for (int k = 0; k < 3; ++k) {
    Texture t = RandBitmap(r, .6);
    auto st = ink::rendering_internal::ValidateBitmap(*t.bitmap);
    VH_REQUIRE(c, st.ok() == t.valid, t.valid ? "bitmap-refused" : "bitmap-accepted", t.bitmap->width(), "x", t.bitmap->height(), " pixel format ", (int)t.bitmap->pixel_format(), " color format ", (int)t.bitmap->color_format(), " space ", (int)t.bitmap->color_space(), " bytes ", (int)t.bitmap->GetPixelData().size(), ": ", st);
    if (!st.ok()) VH_REQUIRE(c, absl::IsInvalidArgument(st), "bitmap-error-code", st);
  }
  // Textures of brushes.
  std::vector<std::string> uris{"ink://ink/texture:a", "ink://ink/texture:b", "ink://other/texture:a", "ink://ink/texture:aa"};
  auto store = std::make_shared<Store>();
  std::map<std::string, Texture> textures;
  double p_bad = r.Chance(.3) ? .3 : 0;
  for (auto& u : uris) {
    auto parsed = Uri::Parse(u);
    VH_REQUIRE(c, parsed.ok(), "generator", parsed.status());
    std::string key = absl::StrCat(*parsed);
    textures[key] = RandBitmap(r, p_bad);
    if (!r.Chance(p_bad)) store->have[key] = textures[key].bitmap;
  }
  bool no_store = r.Chance(.05);
  SkiaRenderer renderer(no_store ? nullptr : store);
  GrDirectContext context;
  std::vector<Layer> seen;
  int n = r.Int(1, 5);
  for (int k = 0; k < n; ++k) {
    std::vector<ink::BrushCoat> coats(r.Chance(.7) ? 1 : 2);
    bool good = true, missing = false;
    for (auto& coat : coats) {
      coat.tips.resize(1);
      coat.tips[0].scale = {r.F(.5, 1), r.F(.5, 1)};
      auto mapping = r.Chance(.85) ? BrushPaint::TextureMapping::kTiling : BrushPaint::TextureMapping::kWinding;
      for (int j = r.Chance(.1) ? 0 : r.Int(1, 4); j > 0; --j) {
        Layer l = !seen.empty() && r.Chance(.6) ? Tweak(r, seen[r.Below(seen.size())], uris) : RandLayer(r, uris, mapping);
        if (!coat.paint.texture_layers.empty()) l.mapping = coat.paint.texture_layers[0].mapping;
        coat.paint.texture_layers.push_back(l);
        seen.push_back(l);
        c.Sig((int)l.wrap_x * 64 + (int)l.wrap_y * 16 + (int)l.origin * 4 + (int)l.size_unit), c.Sig(l.blend_mode);
        std::string key = absl::StrCat(l.color_texture_uri);
        if (no_store || !store->have.count(key)) missing = true;
        if (!textures[key].valid) good = false;
      }
    }
    auto fam = ink::BrushFamily::Create(coats, "", BrushFamily::SpringModelV2());
    VH_REQUIRE(c, fam.ok(), "generator", fam.status());
    float size = (float)r.LogReal(.5, 50);
    ink::Brush brush = *ink::Brush::Create(*fam, RandColor(r), size, size / 50);
    Pen pen(r, brush);
    auto inputs = Batch(Take(pen, r, r.Int(1, 5)));
    AffineTransform t = RandObjectToCanvas(r);
    SkCanvas canvas;
    bool as_path = r.Chance(.1), progress = !as_path && r.Chance(.35);
    InProgressStroke ip;
    Stroke stroke(brush);
    absl::Status st;
    if (progress) {
      ip.Start(brush);
      auto pred = r.Chance(.5) ? Batch(Take(pen, r, r.Int(0, 3))) : ink::StrokeInputBatch();
      auto s2 = ip.EnqueueInputs(inputs, pred);
      if (s2.ok()) s2 = ip.UpdateShape(inputs.Get(inputs.Size() - 1).elapsed_time);
      if (!s2.ok()) { c.Count("updates_refused"); continue; }
      if (!pred.IsEmpty()) for (const auto& q : pred) VH_REQUIRE(c, inputs.Append(q).ok(), "generator");
      st = renderer.Draw(&context, ip, t, canvas);
    } else {
      stroke = Stroke(brush, inputs);
      st = renderer.Draw(as_path ? nullptr : &context, stroke, t, canvas);
    }
    if (as_path) { VH_REQUIRE(c, st.ok(), "path-with-texture", st); c.Count("paths"); continue; }
    if (missing || !good) {
      // A coat that is not drawn does not need its texture.
      if (st.ok()) VH_REQUIRE(c, canvas.draws.size() < coats.size(), "draw-with-bad-texture", (int)canvas.draws.size());
      else VH_REQUIRE(c, canvas.draws.empty(), "partly-drawn");
      c.Count("textures_refused");
      continue;
    }
    VH_REQUIRE(c, st.ok(), "draw", st);
    auto want = progress ? WantOf(ip, true) : WantOf(stroke, true);
    VH_REQUIRE(c, want.size() == canvas.draws.size(), "number-of-draws", (int)canvas.draws.size(), " want ", (int)want.size());
    for (size_t q = 0; q < want.size(); ++q) {
      c.NonTrivial();
      const BrushPaint& paint = coats[want[q].coat].paint;
      CheckTextures(c, progress ? "in progress" : "stroke", canvas.draws[q], paint, size, inputs, textures);
      const auto& bl = canvas.draws[q].blender;
      if (!paint.texture_layers.empty()) VH_REQUIRE(c, bl && bl->mode == ModeOf(paint.texture_layers.back().blend_mode), "blender", (int)(bl ? (int)bl->mode : -1), " for ", paint.texture_layers.back().blend_mode);
    }
    // Textures that were missing may turn up.
    if (!no_store && r.Chance(.3)) for (auto& [key, tex] : textures) store->have.emplace(key, tex.bitmap);
  }
  c.Sample("brushes ", n, " layers ", seen.size(), " lookups ", store->asked);
}
}  // namespace
}  // namespace vh
