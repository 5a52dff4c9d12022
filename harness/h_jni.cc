// The bridge to Java: J01 geometry, J02 brushes and strokes.
#include "jvm.h"
#include <algorithm>
#include <future>
#include "absl/status/status.h"
#include "geo.h"
#include "ink/brush/brush.h"
#include "ink/brush/internal/jni/brush_jni_helper.h"
#include "ink/color/internal/jni/color_jni_helper.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/jni/point_jni_helper.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/jni/internal/jni_defines.h"
#include "ink/jni/internal/jni_string_util.h"
#include "ink/jni/internal/jni_throw_util.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"
#include "meshfmt.h"
#include "strokegen.h"
#include "vh_main.h"

#define F2 jfloat, jfloat
#define F4 F2, F2
#define F6 F4, F2
#define JFN(ret, mod, cls, name, ...) extern "C" JNIEXPORT ret JNICALL Java_androidx_ink_##mod##_##cls##_##name(JNIEnv*, jobject, ##__VA_ARGS__);
#define JSF(ret, mod, cls, name, ...) extern "C" JNIEXPORT ret JNICALL Java_androidx_ink_##mod##_##cls##_##name(JNIEnv*, jclass, ##__VA_ARGS__);
#define J(mod, cls, name) Java_androidx_ink_##mod##_##cls##_##name
JSF(jfloat, geometry, Angle, nativeNormalized, jfloat)
JSF(jfloat, geometry, Angle, nativeNormalizedAboutZero, jfloat)
#define IX(n, ...) JSF(jboolean, geometry, Intersection, native##n##Intersects, __VA_ARGS__)
IX(VecSegment, F2, F4) IX(VecTriangle, F2, F6) IX(VecBox, F2, F4) IX(VecParallelogram, F2, F6) IX(SegmentSegment, F4, F4) IX(SegmentTriangle, F4, F6) IX(SegmentBox, F4, F4) IX(SegmentParallelogram, F4, F6)
IX(TriangleTriangle, F6, F6) IX(TriangleBox, F6, F4) IX(TriangleParallelogram, F6, F6) IX(BoxBox, F4, F4) IX(BoxParallelogram, F4, F6) IX(ParallelogramParallelogram, F6, F6)
IX(MeshVec, jlong, F2, F6) IX(MeshSegment, jlong, F4, F6) IX(MeshTriangle, jlong, F6, F6) IX(MeshBox, jlong, F4, F6) IX(MeshParallelogram, jlong, F6, F6) IX(MeshPartitionedMesh, jlong, jlong, F6, F6)
JSF(jobject, geometry_internal, AffineTransformNative, createFromApplyParallelogram, F6, F6, jclass, jclass)
JSF(void, geometry_internal, AffineTransformNative, populateFromApplyParallelogram, F6, F6, jobject)
JSF(jobject, geometry_internal, ParallelogramNative, createBoundingBox, F6, jclass, jclass)
JSF(void, geometry_internal, ParallelogramNative, populateBoundingBox, F6, jobject)
JSF(jobjectArray, geometry_internal, ParallelogramNative, createSemiAxes, F6, jclass)
JSF(void, geometry_internal, ParallelogramNative, populateSemiAxes, F6, jobject, jobject)
JSF(jobjectArray, geometry_internal, ParallelogramNative, createCorners, F6, jclass)
JSF(void, geometry_internal, ParallelogramNative, populateCorners, F6, jobject, jobject, jobject, jobject)
JSF(jboolean, geometry_internal, ParallelogramNative, contains, F6, F2)
JSF(jobject, geometry_internal, BoxNative, createCenter, F4, jclass)
JSF(void, geometry_internal, BoxNative, populateCenter, F4, jobject)
JSF(jboolean, geometry_internal, BoxNative, containsPoint, F4, F2)
JSF(jboolean, geometry_internal, BoxNative, containsBox, F4, F4)
JSF(jobject, geometry_internal, VecNative, unitVec, F2, jclass)
JSF(void, geometry_internal, VecNative, populateUnitVec, F2, jobject)
JSF(jfloat, geometry_internal, VecNative, absoluteAngleBetween, F4)
JSF(jfloat, geometry_internal, VecNative, signedAngleBetween, F4)
JSF(jboolean, geometry, TriangleNative, nativeContains, F6, F2)
JFN(jboolean, geometry, MeshFormat, nativeIsPackedEquivalent, jlong, jlong)
JFN(jboolean, geometry, MeshFormat, nativeIsUnpackedEquivalent, jlong, jlong)
JFN(void, geometry, MeshFormat, nativeFree, jlong)
JSF(void, geometry, BoxAccumulatorNative, nativeAddSegment, jboolean, F4, F4, jobject)
JSF(void, geometry, BoxAccumulatorNative, nativeAddTriangle, jboolean, F4, F6, jobject)
JSF(void, geometry, BoxAccumulatorNative, nativeAddParallelogram, jboolean, F4, F6, jobject)
JSF(void, geometry, BoxAccumulatorNative, nativeAddPoint, jboolean, F4, F2, jobject)
JSF(void, geometry, BoxAccumulatorNative, nativeAddOptionalBox, jboolean, F4, jboolean, F4, jobject)
#define MN(ret, n, ...) JSF(ret, geometry, MeshNative, n, ##__VA_ARGS__)
MN(void, freeNative, jlong) MN(jobject, createRawVertexBuffer, jlong) MN(jint, getVertexStride, jlong) MN(jint, getVertexCount, jlong) MN(jobject, createRawTriangleIndexBuffer, jlong) MN(jint, getTriangleCount, jlong)
MN(jint, getAttributeCount, jlong) MN(void, fillBounds, jlong, jobject) MN(jint, fillAttributeUnpackingParams, jlong, jint, jfloatArray, jfloatArray) MN(jlong, allocCopyOfFormat, jlong) MN(void, fillPosition, jlong, jint, jobject) MN(jlong, allocNativeNewEmptyMesh)
#define PN(ret, n, ...) JSF(ret, geometry, PartitionedMeshNative, n, ##__VA_ARGS__)
PN(void, free, jlong) PN(jlongArray, getNativeAddressesOfMeshes, jlong, jint) PN(jint, getRenderGroupCount, jlong) PN(jlong, getRenderGroupFormat, jlong, jint) PN(jint, getOutlineCount, jlong, jint) PN(jint, getOutlineVertexCount, jlong, jint, jint)
PN(void, fillOutlineMeshIndexAndMeshVertexIndex, jlong, jint, jint, jint, jintArray) PN(jlong, alloc) PN(jfloat, partitionedMeshTriangleCoverage, jlong, F6, F6) PN(jfloat, partitionedMeshBoxCoverage, jlong, F4, F6) PN(jfloat, partitionedMeshParallelogramCoverage, jlong, F6, F6)
PN(jfloat, partitionedMeshPartitionedMeshCoverage, jlong, jlong, F6) PN(jboolean, partitionedMeshTriangleCoverageIsGreaterThan, jlong, F6, jfloat, F6) PN(jboolean, partitionedMeshBoxCoverageIsGreaterThan, jlong, F4, jfloat, F6)
PN(jboolean, partitionedMeshParallelogramCoverageIsGreaterThan, jlong, F6, jfloat, F6) PN(jboolean, partitionedMeshPartitionedMeshCoverageIsGreaterThan, jlong, jlong, jfloat, F6) PN(void, initializeSpatialIndex, jlong) PN(jboolean, isSpatialIndexInitialized, jlong)
JSF(void, rendering_android_canvas_internal, CanvasMeshRenderer, fillSkiaMeshSpecData, jlong, jboolean, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jobjectArray, jobjectArray)
JSF(jboolean, rendering_android_canvas_internal, CanvasMeshRenderer, nativeIsMeshFormatRenderable, jlong, jboolean)
// Brushes.
JFN(jlong, brush, BrushBehavior, nativeCreateEmptyBrushBehavior)
JFN(jlong, brush, BrushBehavior, nativeValidateOrDeleteAndThrow, jlong)
JFN(void, brush, BrushBehavior, nativeFreeBrushBehavior, jlong)
#define BN(node, n, ...) JFN(void, brush, BrushBehavior_00024##node, n, jlong, __VA_ARGS__)
BN(SourceNode, nativeAppendSourceNode, jint, jfloat, jfloat, jint) BN(ConstantNode, nativeAppendConstantNode, jfloat) BN(FallbackFilterNode, nativeAppendFallbackFilterNode, jint) BN(ToolTypeFilterNode, nativeAppendToolTypeFilterNode, jboolean, jboolean, jboolean, jboolean)
BN(DampingNode, nativeAppendDampingNode, jint, jfloat) BN(ResponseNode, nativeAppendResponseNodePredefined, jint) BN(ResponseNode, nativeAppendResponseNodeCubicBezier, F4) BN(ResponseNode, nativeAppendResponseNodeSteps, jint, jint) BN(ResponseNode, nativeAppendResponseNodeLinear, jfloatArray)
BN(BinaryOpNode, nativeAppendBinaryOpNode, jint) BN(InterpolationNode, nativeAppendInterpolationNode, jint) BN(TargetNode, nativeAppendTargetNode, jint, jfloat, jfloat)
JFN(jlong, brush, BrushCoat, nativeCreateBrushCoat, jlongArray, jlong)
JFN(void, brush, BrushCoat, nativeFreeBrushCoat, jlong)
JFN(jlong, brush, BrushFamily, nativeCreateBrushFamily, jlongArray, jstring, jboolean)
JFN(void, brush, BrushFamily, nativeFreeBrushFamily, jlong)
JFN(jlong, brush, Brush, nativeCreateBrush, jlong, F4, jint, F2)
JFN(void, brush, Brush, nativeFreeBrush, jlong)
JFN(jlong, brush, BrushPaint, nativeCreateBrushPaint, jint)
JFN(void, brush, BrushPaint, nativeAppendTextureLayer, jlong, jlong)
JFN(void, brush, BrushPaint, nativeFreeBrushPaint, jlong)
JFN(jlong, brush, BrushPaint_00024TextureLayer, nativeCreateTextureLayer, jstring, F6, jint, jint, jint, jint, jint, jint)
JFN(void, brush, BrushPaint_00024TextureLayer, nativeFreeTextureLayer, jlong)
JFN(jlong, brush, BrushTip, nativeCreateBrushTip, F6, F2, jlong, jint)
JFN(void, brush, BrushTip, nativeAppendBehavior, jlong, jlong)
JFN(void, brush, BrushTip, nativeFreeBrushTip, jlong)
// Strokes.
#define IB(ret, n, ...) JFN(ret, strokes, StrokeInputBatchNative, n, ##__VA_ARGS__)
IB(jlong, createNativePeer) IB(void, freeNativePeer, jlong) IB(jint, getSize, jlong) IB(void, populate, jlong, jint, jobject, jclass) IB(jlong, getDurationMillis, jlong) IB(jint, getToolType, jlong) IB(jfloat, getStrokeUnitLengthCm, jlong) IB(jboolean, hasStrokeUnitLength, jlong) IB(jboolean, hasPressure, jlong) IB(jboolean, hasTilt, jlong) IB(jboolean, hasOrientation, jlong)
#define MB(ret, n, ...) JFN(ret, strokes, MutableStrokeInputBatchNative, n, ##__VA_ARGS__)
MB(jstring, appendSingle, jlong, jint, F2, jlong, F4) MB(jstring, appendBatch, jlong, jlong) MB(void, clear, jlong) MB(jlong, copy, jlong)
#define IP(ret, n, ...) JFN(ret, strokes, InProgressStroke, native##n, ##__VA_ARGS__)
IP(jlong, CreateInProgressStroke) IP(void, FreeInProgressStroke, jlong) IP(void, Clear, jlong) IP(void, Start, jlong, jlong) IP(jstring, EnqueueInputs, jlong, jlong, jlong) IP(jstring, UpdateShape, jlong, jlong) IP(void, FinishInput, jlong) IP(jboolean, IsInputFinished, jlong) IP(jboolean, NeedsUpdate, jlong) IP(jlong, CopyToStroke, jlong)
IP(jint, InputCount, jlong) IP(jint, RealInputCount, jlong) IP(jint, PredictedInputCount, jlong) IP(jint, FillInputs, jlong, jlong, jint, jint) IP(void, GetAndOverwriteInput, jlong, jobject, jint, jclass) IP(jint, BrushCoatCount, jlong) IP(void, GetMeshBounds, jlong, jint, jobject) IP(void, FillUpdatedRegion, jlong, jobject) IP(void, ResetUpdatedRegion, jlong)
IP(jint, GetOutlineCount, jlong, jint) IP(jint, GetOutlineVertexCount, jlong, jint, jint) IP(void, FillOutlinePosition, jlong, jint, jint, jint, jobject) IP(jint, GetMeshPartitionCount, jlong, jint) IP(jint, GetVertexCount, jlong, jint, jint) IP(jobject, GetRawVertexData, jlong, jint, jint) IP(jobject, GetRawTriangleIndexData, jlong, jint, jint) IP(jint, GetTriangleIndexStride, jlong, jint) IP(jlong, AllocMeshFormatCopy, jlong, jint, jint)
#define SJ(ret, n, ...) JSF(ret, strokes, StrokeJni, n, ##__VA_ARGS__)
SJ(jlong, createWithBrushAndInputs, jlong, jlong) SJ(jlong, createWithBrushInputsAndShape, jlong, jlong, jlong) SJ(jlong, allocShallowCopyOfInputs, jlong) SJ(jlong, allocShallowCopyOfShape, jlong) SJ(void, free, jlong)

extern "C" int __lsan_is_turned_off() { return 1; }  // the leak check here is per case
namespace vh {
namespace {
using namespace ink;
using jvm::Obj; using jvm::Vm; using jvm::Args;
using Tgt = BrushBehavior::Target;
#define PKG "androidx/ink"
jvalue Void() { jvalue v; v.j = 0; return v; }
void SetF(Obj* o, const char* n, jvalue v) { o->fields[n] = v; }
void DefineInk(Vm& v) {
  for (const char* n : {"/geometry/Vec", "/geometry/Box", "/geometry/ImmutableParallelogram", "/geometry/MutableParallelogram", "/geometry/BoxAccumulator", "/strokes/StrokeInput", "/brush/InputToolType"}) v.Define(std::string(PKG) + n);
  v.Define(PKG "/geometry/MutableVec", PKG "/geometry/Vec"); v.Define(PKG "/geometry/ImmutableVec", PKG "/geometry/Vec");
  v.Define(PKG "/geometry/MutableBox", PKG "/geometry/Box"); v.Define(PKG "/geometry/ImmutableBox", PKG "/geometry/Box");
  auto set = [&](const char* cls, const char* name, const char* sig, std::vector<const char*> fs, bool self) {
    v.Def(cls, name, sig, [fs, self](Vm& m, Obj* o, const Args& a) { for (size_t i = 0; i < fs.size(); ++i) SetF(o, fs[i], a[i]); jvalue r = Void(); if (self) r.l = m.Local(o); return r; });
  };
  set(PKG "/geometry/MutableVec", "setX", "(F)V", {"x"}, false); set(PKG "/geometry/MutableVec", "setY", "(F)V", {"y"}, false);
  set(PKG "/geometry/ImmutableVec", "<init>", "(FF)V", {"x", "y"}, false);
  set(PKG "/geometry/MutableBox", "setXBounds", "(FF)L" PKG "/geometry/MutableBox;", {"x0", "x1"}, true);
  set(PKG "/geometry/MutableBox", "setYBounds", "(FF)L" PKG "/geometry/MutableBox;", {"y0", "y1"}, true);
  set(PKG "/geometry/MutableParallelogram", "setCenterDimensionsRotationAndShear", "(FFFFFF)V", {"cx", "cy", "w", "h", "r", "s"}, false);
  set(PKG "/geometry/BoxAccumulator", "overwriteFrom", "(FFFF)L" PKG "/geometry/BoxAccumulator;", {"x0", "y0", "x1", "y1"}, true);
  v.Def(PKG "/geometry/BoxAccumulator", "reset", "()L" PKG "/geometry/BoxAccumulator;", [](Vm& m, Obj* o, const Args&) { o->fields.clear(); jvalue r; r.l = m.Local(o); return r; });
  v.Def(PKG "/geometry/ImmutableBox", "fromTwoPoints", "(L" PKG "/geometry/Vec;L" PKG "/geometry/Vec;)L" PKG "/geometry/ImmutableBox;", [](Vm& m, Obj*, const Args& a) {
    Obj* o = m.NewObj(m.Find(PKG "/geometry/ImmutableBox")); Obj *p = m.Get(a[0].l, "fromTwoPoints"), *q = m.Get(a[1].l, "fromTwoPoints");
    jvalue r; r.j = 0;
    r.f = std::min(p->fields["x"].f, q->fields["x"].f); SetF(o, "x0", r); r.f = std::max(p->fields["x"].f, q->fields["x"].f); SetF(o, "x1", r);
    r.f = std::min(p->fields["y"].f, q->fields["y"].f); SetF(o, "y0", r); r.f = std::max(p->fields["y"].f, q->fields["y"].f); SetF(o, "y1", r);
    r.l = m.Local(o); return r; }, true);
  v.Def(PKG "/geometry/ImmutableParallelogram", "fromCenterDimensionsRotationAndShear", "(L" PKG "/geometry/ImmutableVec;FFFF)L" PKG "/geometry/ImmutableParallelogram;", [](Vm& m, Obj*, const Args& a) {
    Obj* o = m.NewObj(m.Find(PKG "/geometry/ImmutableParallelogram")); Obj* p = m.Get(a[0].l, "fromCenter");
    SetF(o, "cx", p->fields["x"]); SetF(o, "cy", p->fields["y"]); SetF(o, "w", a[1]); SetF(o, "h", a[2]); SetF(o, "r", a[3]); SetF(o, "s", a[4]);
    jvalue r; r.l = m.Local(o); return r; }, true);
  v.DefField(PKG "/brush/InputToolType", "value", "I");
  v.Def(PKG "/brush/InputToolType", "from", "(I)L" PKG "/brush/InputToolType;", [](Vm& m, Obj*, const Args& a) {
    if (a[0].i < 0 || a[0].i > 3) { m.ThrowNew("java/lang/IllegalArgumentException", "Invalid value"); return Void(); }
    Obj* o = m.NewObj(m.Find(PKG "/brush/InputToolType")); SetF(o, "value", a[0]); jvalue r; r.l = m.Local(o); return r; }, true);
  v.Def(PKG "/strokes/StrokeInput", "update", "(FFJL" PKG "/brush/InputToolType;FFFF)V", [](Vm& m, Obj* o, const Args& a) {
    const char* n[] = {"x", "y", "t", "", "unit", "pressure", "tilt", "orientation"};
    for (int i = 0; i < 8; ++i) if (i != 3) SetF(o, n[i], a[i]);
    o->ofields["tool"] = m.Get(a[3].l, "update"); return Void(); });
  const char* getters[][3] = {{"getX", "()F", "x"}, {"getY", "()F", "y"}, {"getElapsedTimeMillis", "()J", "t"}, {"getStrokeUnitLengthCm", "()F", "unit"}, {"getPressure", "()F", "pressure"}, {"getTiltRadians", "()F", "tilt"}, {"getOrientationRadians", "()F", "orientation"}};
  for (auto& g : getters) { std::string f = g[2]; v.Def(PKG "/strokes/StrokeInput", g[0], g[1], [f](Vm&, Obj* o, const Args&) { return o->fields[f]; }); }
  v.Def(PKG "/strokes/StrokeInput", "getToolType", "()L" PKG "/brush/InputToolType;", [](Vm& m, Obj* o, const Args&) { jvalue r; r.l = m.Local(o->ofields["tool"]); return r; });
}
// One machine and the calls into native code made on it.
struct Java {
  Ctx& c; Vm vm; std::string trace;
  explicit Java(Ctx& c) : c(c) { DefineInk(vm); }
  Obj* New(const char* cls) { return vm.NewObj(vm.Find(cls)); }
  jobject L(Obj* o) { return vm.Local(o); }
  // Calls a native method. The result is returned also when an exception is pending; see Thrown().
  template <typename R, typename Self, typename... A, typename... B>
  R operator()(const char* name, R (*fn)(JNIEnv*, Self, A...), B... b) {
    static_assert(sizeof...(A) == sizeof...(B));
    if (trace.size() < 1200) trace += Cat(name, " ");
    c.Count("native calls");
    vm.pending = nullptr;
    Self self; if constexpr (std::is_same_v<Self, jclass>) self = vm.Cls("java/lang/Object"); else self = vm.Local(vm.NewObj(vm.Find("java/lang/Object")));
    uint64_t before = vm.events;
    if constexpr (std::is_void_v<R>) { { jvm::Native n; fn(&vm.env, self, (A)b...); } vm.AfterCall(name); c.Count("JNI functions used by native code", vm.events - before); }
    else { R r; { jvm::Native n; r = fn(&vm.env, self, (A)b...); } vm.AfterCall(name); c.Count("JNI functions used by native code", vm.events - before); return r; }
  }
  template <typename R, typename Self, typename... A, typename... T>
  R Tup(const char* name, R (*fn)(JNIEnv*, Self, A...), const std::tuple<T...>& t) { return std::apply([&](auto... x) { return (*this)(name, fn, x...); }, t); }
  Obj* Thrown() { Obj* p = vm.pending; vm.pending = nullptr; return p; }
  void NoThrow(const char* name) { if (Obj* p = Thrown()) c.Fail("unexpected-exception", name, " threw ", p->cls->name, ": ", p->str); }
};
#define CALL(j, mod, cls, name, ...) (j)(#cls "." #name, J(mod, cls, name), ##__VA_ARGS__)
#define TUP(j, mod, cls, name, t) (j).Tup(#cls "." #name, J(mod, cls, name), t)
// A status must become an exception of the right class, with its text.
void WantThrow(Java& j, Obj* thrown, const absl::Status& st, const char* what) {
  Ctx& c = j.c;
  if (st.ok()) { VH_REQUIRE(c, !thrown, "unexpected-exception", what, ": ", thrown ? thrown->str : ""); return; }
  VH_REQUIRE(c, thrown, "missing-exception", what, " must throw for ", st.ToString());
  const char* cls = "java/lang/IllegalStateException";
  switch (st.code()) {
    case absl::StatusCode::kInvalidArgument: cls = "java/lang/IllegalArgumentException"; break;
    case absl::StatusCode::kNotFound: cls = "java/util/NoSuchElementException"; break;
    case absl::StatusCode::kOutOfRange: cls = "java/lang/IndexOutOfBoundsException"; break;
    case absl::StatusCode::kUnimplemented: cls = "java/lang/UnsupportedOperationException"; break;
    default: break;
  }
  VH_REQUIRE(c, thrown->cls->name == cls, "exception-class", what, " threw ", thrown->cls->name, " want ", cls, " for ", st.ToString());
  VH_REQUIRE(c, thrown->str.find(st.message()) != std::string::npos, "exception-message", what, ": '", thrown->str, "' for ", st.ToString());
  c.Count("exceptions");
}
// Values with the floats Java passes for them.
template <typename T, int N> struct In { T v; std::array<float, N> f; };
template <size_t N> auto Tu(const std::array<float, N>& a) { return std::apply([](auto... x) { return std::make_tuple((jfloat)x...); }, a); }
template <typename T, int N> auto Tu(const In<T, N>& a) { return Tu(a.f); }
template <typename... A> auto TC(const A&... a) { return std::tuple_cat(a...); }
template <typename... A> auto T1(A... a) { return std::make_tuple(a...); }
struct Geo {
  Rng& r; int mode;  // 0 grid, 1 moderate, 2 any finite
  explicit Geo(Rng& r) : r(r), mode(r.Chance(.5) ? 0 : r.Chance(.8) ? 1 : 2) {}
  float X() { return mode == 0 ? (float)r.Int(-8, 8) : mode == 1 ? ModerateFloat(r) : FiniteFloat(r); }
  In<Point, 2> Pt() { float x = X(), y = X(); return {{x, y}, {x, y}}; }
  In<Segment, 4> Seg() { auto a = Pt(), b = Pt(); return {{a.v, b.v}, {a.f[0], a.f[1], b.f[0], b.f[1]}}; }
  In<Triangle, 6> Tri() { auto a = Pt(), b = Pt(), d = Pt(); return {{a.v, b.v, d.v}, {a.f[0], a.f[1], b.f[0], b.f[1], d.f[0], d.f[1]}}; }
  In<Rect, 4> Box() { auto a = Pt(), b = Pt(); std::array<float, 4> f{a.f[0], a.f[1], b.f[0], b.f[1]}; if (r.Chance(.8)) { if (f[0] > f[2]) std::swap(f[0], f[2]); if (f[1] > f[3]) std::swap(f[1], f[3]); } return {Rect::FromTwoPoints({f[0], f[1]}, {f[2], f[3]}), f}; }
  In<Quad, 6> Par() { auto a = Pt(); float w = X(), h = X(), rot = r.Chance(.3) ? 0 : r.F(-7, 7), s = r.Chance(.4) ? 0 : mode == 2 ? X() : r.F(-2, 2); return {Quad::FromCenterDimensionsRotationAndShear(a.v, w, h, Angle::Radians(rot), s), {a.f[0], a.f[1], w, h, rot, s}}; }
  In<AffineTransform, 6> Xf() { std::array<float, 6> f{1, 0, 0, 0, 1, 0}; if (r.Chance(.8)) for (float& x : f) x = mode == 2 ? X() : r.Chance(.3) ? (float)r.Int(-2, 2) : r.F(-3, 3); return {AffineTransform(f[0], f[1], f[2], f[3], f[4], f[5]), f}; }
};
// The outcome of a call: its value, or that it ended in a failed CHECK.
template <typename F> auto Try(F f) -> std::optional<decltype(f())> { try { return f(); } catch (const vshim::CheckFailure&) { return std::nullopt; } }
template <typename R> bool SameV(const R& a, const R& b) { if constexpr (std::is_same_v<R, float>) return SameF(a, b); else return a == b; }
struct J1 {
  Ctx& c; Java& j; Rng& r; Geo g; bool checks = false;  // checks: a CHECK failed, so blocks may be left behind
  J1(Ctx& c, Java& j) : c(c), j(j), r(c.rng), g(r) {}
  template <typename A, typename B> void Same(const char* what, A a, B b) {
    if (!a.has_value() || !b.has_value()) checks = true;
    VH_REQUIRE(c, a.has_value() == b.has_value(), "outcome", what, ": CHECK failed ", a.has_value() ? "only in C++" : "only through Java");
    if (a) { VH_REQUIRE(c, SameV(*a, (std::remove_cvref_t<decltype(*a)>)*b), "value", what, ": ", *a, " through Java, ", *b, " in C++"); c.Sig(*b); }
  }
  bool Bool(jboolean b, const char* what) { VH_REQUIRE(c, b <= 1, "boolean", what, " returned ", (int)b); return b; }
  float Fl(Obj* o, const char* n) { auto it = o->fields.find(n); VH_REQUIRE(c, it != o->fields.end(), "field-not-set", o->cls->name, " ", n); return it->second.f; }
  Obj* Dirty(const char* cls, std::initializer_list<const char*> fs) { Obj* o = j.New(cls); for (auto n : fs) { jvalue v; v.j = 0; v.f = 12345.678f; SetF(o, n, v); } return o; }
  void WantVec(Obj* o, float x, float y, const char* what) { VH_REQUIRE(c, SameF(Fl(o, "x"), x) && SameF(Fl(o, "y"), y), "vec", what, ": (", Fl(o, "x"), ",", Fl(o, "y"), ") want (", x, ",", y, ")"); c.Sig(x); c.Sig(y); }
  void WantBox(Obj* o, const Rect& b, const char* what) { VH_REQUIRE(c, SameF(Fl(o, "x0"), b.XMin()) && SameF(Fl(o, "y0"), b.YMin()) && SameF(Fl(o, "x1"), b.XMax()) && SameF(Fl(o, "y1"), b.YMax()), "box", what, ": x ", Fl(o, "x0"), "..", Fl(o, "x1"), " y ", Fl(o, "y0"), "..", Fl(o, "y1"), " want ", b); c.Sig(b.XMin()); }
  void WantEnv(Obj* o, const Envelope& e, const char* what) {
    if (e.IsEmpty()) VH_REQUIRE(c, o->fields.empty(), "box", what, ": must be empty");
    else { const Rect& b = *e.AsRect(); VH_REQUIRE(c, (Fl(o, "x0") == b.XMin()) && (Fl(o, "y0") == b.YMin()) && (Fl(o, "x1") == b.XMax()) && (Fl(o, "y1") == b.YMax()), "box", what, ": x ", Fl(o, "x0"), "..", Fl(o, "x1"), " y ", Fl(o, "y0"), "..", Fl(o, "y1"), " want ", b); c.Sig(b.XMin()); }
  }
  void WantPar(Obj* o, const Quad& q, const char* what) {
    VH_REQUIRE(c, SameF(Fl(o, "cx"), q.Center().x) && SameF(Fl(o, "cy"), q.Center().y) && SameF(Fl(o, "w"), q.Width()) && SameF(Fl(o, "h"), q.Height()) && SameF(Fl(o, "s"), q.ShearFactor()), "parallelogram", what, " want ", q);
    VH_REQUIRE(c, SameF(Fl(o, "r"), q.Rotation().ValueInRadians()), "parallelogram", what, " rotation ", Fl(o, "r"), " want ", q);
  }
  // Runs the native call and the C++ one; false when both end in a failed CHECK.
  template <typename A, typename B> bool Both(const char* what, A native, B direct) {
    bool a = true, b = true;
    try { native(); } catch (const vshim::CheckFailure&) { a = false; }
    try { direct(); } catch (const vshim::CheckFailure&) { b = false; }
    VH_REQUIRE(c, a == b, "outcome", what, ": CHECK failed ", a ? "only in C++" : "only through Java");
    if (!a) checks = true; else j.NoThrow(what);
    return a;
  }
#define BOOL(cls, mod, name, tup, expr) Same(#name, Try([&] { return Bool(TUP(j, mod, cls, name, tup), #name); }), Try([&] { return (bool)(expr); }))
#define FLOAT(cls, mod, name, tup, expr) Same(#name, Try([&] { return (float)TUP(j, mod, cls, name, tup); }), Try([&] { return (float)(expr); }))
  void Shapes() {
    auto p = g.Pt(), p2 = g.Pt(); auto s = g.Seg(), s2 = g.Seg(); auto t = g.Tri(), t2 = g.Tri(); auto b = g.Box(), b2 = g.Box(); auto q = g.Par(), q2 = g.Par(); auto x = g.Xf();
    if (r.Chance(.3)) p.v = s.v.start, p.f = {s.f[0], s.f[1]};
    if (r.Chance(.2)) p.v = t.v.p1, p.f = {t.f[2], t.f[3]};
    if (r.Chance(.2)) t2.v.p0 = t.v.p2, t2.f[0] = t.f[4], t2.f[1] = t.f[5];
    switch (r.Below(38)) {
      case 0: BOOL(Intersection, geometry, nativeVecSegmentIntersects, TC(Tu(p), Tu(s)), Intersects(p.v, s.v)); break;
      case 1: BOOL(Intersection, geometry, nativeVecTriangleIntersects, TC(Tu(p), Tu(t)), Intersects(p.v, t.v)); break;
      case 2: BOOL(Intersection, geometry, nativeVecBoxIntersects, TC(Tu(p), Tu(b)), Intersects(p.v, b.v)); break;
      case 3: BOOL(Intersection, geometry, nativeVecParallelogramIntersects, TC(Tu(p), Tu(q)), Intersects(p.v, q.v)); break;
      case 4: BOOL(Intersection, geometry, nativeSegmentSegmentIntersects, TC(Tu(s), Tu(s2)), Intersects(s.v, s2.v)); break;
      case 5: BOOL(Intersection, geometry, nativeSegmentTriangleIntersects, TC(Tu(s), Tu(t)), Intersects(s.v, t.v)); break;
      case 6: BOOL(Intersection, geometry, nativeSegmentBoxIntersects, TC(Tu(s), Tu(b)), Intersects(s.v, b.v)); break;
      case 7: BOOL(Intersection, geometry, nativeSegmentParallelogramIntersects, TC(Tu(s), Tu(q)), Intersects(s.v, q.v)); break;
      case 8: BOOL(Intersection, geometry, nativeTriangleTriangleIntersects, TC(Tu(t), Tu(t2)), Intersects(t.v, t2.v)); break;
      case 9: BOOL(Intersection, geometry, nativeTriangleBoxIntersects, TC(Tu(t), Tu(b)), Intersects(t.v, b.v)); break;
      case 10: BOOL(Intersection, geometry, nativeTriangleParallelogramIntersects, TC(Tu(t), Tu(q)), Intersects(t.v, q.v)); break;
      case 11: BOOL(Intersection, geometry, nativeBoxBoxIntersects, TC(Tu(b), Tu(b2)), Intersects(b.v, b2.v)); break;
      case 12: BOOL(Intersection, geometry, nativeBoxParallelogramIntersects, TC(Tu(b), Tu(q)), Intersects(b.v, q.v)); break;
      case 13: BOOL(Intersection, geometry, nativeParallelogramParallelogramIntersects, TC(Tu(q), Tu(q2)), Intersects(q.v, q2.v)); break;
      case 14: { float a = r.Chance(.3) ? g.X() : r.F(-20, 20); FLOAT(Angle, geometry, nativeNormalized, T1(a), Angle::Radians(a).Normalized().ValueInRadians()); } break;
      case 15: { float a = r.Chance(.3) ? g.X() : r.F(-20, 20); FLOAT(Angle, geometry, nativeNormalizedAboutZero, T1(a), Angle::Radians(a).NormalizedAboutZero().ValueInRadians()); } break;
      case 16: { Obj* o = nullptr; std::optional<Quad> w; if (Both("createFromApplyParallelogram", [&] { o = j.vm.Get(TUP(j, geometry_internal, AffineTransformNative, createFromApplyParallelogram, TC(Tu(x), Tu(q), T1(j.vm.Cls(PKG "/geometry/ImmutableParallelogram"), j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = x.v.Apply(q.v); })) WantPar(o, *w, "createFromApplyParallelogram"); } break;
      case 17: { Obj* o = Dirty(PKG "/geometry/MutableParallelogram", {"cx", "cy", "w", "h", "r", "s"}); std::optional<Quad> w; if (Both("populateFromApplyParallelogram", [&] { TUP(j, geometry_internal, AffineTransformNative, populateFromApplyParallelogram, TC(Tu(x), Tu(q), T1(j.L(o)))); }, [&] { w = x.v.Apply(q.v); })) WantPar(o, *w, "populateFromApplyParallelogram"); } break;
      case 18: { Obj* o = nullptr; Envelope w; if (Both("createBoundingBox", [&] { o = j.vm.Get(TUP(j, geometry_internal, ParallelogramNative, createBoundingBox, TC(Tu(q), T1(j.vm.Cls(PKG "/geometry/ImmutableBox"), j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = Envelope(q.v); })) WantEnv(o, w, "createBoundingBox"); } break;
      case 19: { Obj* o = Dirty(PKG "/geometry/MutableBox", {"x0", "x1", "y0", "y1"}); Envelope w; if (Both("populateBoundingBox", [&] { TUP(j, geometry_internal, ParallelogramNative, populateBoundingBox, TC(Tu(q), T1(j.L(o)))); }, [&] { w = Envelope(q.v); })) WantEnv(o, w, "populateBoundingBox"); } break;
      case 20: { Obj* o = nullptr; std::pair<Vec, Vec> w; if (Both("createSemiAxes", [&] { o = j.vm.Get(TUP(j, geometry_internal, ParallelogramNative, createSemiAxes, TC(Tu(q), T1(j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = q.v.SemiAxes(); })) { VH_REQUIRE(c, o->kind == 'L' && o->elems.size() == 2 && o->elems[0] && o->elems[1], "array"); WantVec(o->elems[0], w.first.x, w.first.y, "first semi axis"); WantVec(o->elems[1], w.second.x, w.second.y, "second semi axis"); } } break;
      case 21: { Obj *a = Dirty(PKG "/geometry/MutableVec", {"x", "y"}), *d = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); std::pair<Vec, Vec> w; if (Both("populateSemiAxes", [&] { TUP(j, geometry_internal, ParallelogramNative, populateSemiAxes, TC(Tu(q), T1(j.L(a), j.L(d)))); }, [&] { w = q.v.SemiAxes(); })) { WantVec(a, w.first.x, w.first.y, "first semi axis"); WantVec(d, w.second.x, w.second.y, "second semi axis"); } } break;
      case 22: { Obj* o = nullptr; std::array<Point, 4> w; if (Both("createCorners", [&] { o = j.vm.Get(TUP(j, geometry_internal, ParallelogramNative, createCorners, TC(Tu(q), T1(j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = q.v.Corners(); })) { VH_REQUIRE(c, o->kind == 'L' && o->elems.size() == 4, "array"); for (int i = 0; i < 4; ++i) { VH_REQUIRE(c, o->elems[i], "array"); WantVec(o->elems[i], w[i].x, w[i].y, "corner"); } } } break;
      case 23: { Obj* o[4]; for (auto& e : o) e = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); std::array<Point, 4> w; if (Both("populateCorners", [&] { TUP(j, geometry_internal, ParallelogramNative, populateCorners, TC(Tu(q), T1(j.L(o[0]), j.L(o[1]), j.L(o[2]), j.L(o[3])))); }, [&] { w = q.v.Corners(); })) for (int i = 0; i < 4; ++i) WantVec(o[i], w[i].x, w[i].y, "corner"); } break;
      case 24: if (r.Chance(.4)) { p.v = q.v.Center(); p.f = {p.v.x, p.v.y}; } BOOL(ParallelogramNative, geometry_internal, contains, TC(Tu(q), Tu(p)), q.v.Contains(p.v)); break;
      case 25: { Obj* o = nullptr; Point w; if (Both("createCenter", [&] { o = j.vm.Get(TUP(j, geometry_internal, BoxNative, createCenter, TC(Tu(b), T1(j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = b.v.Center(); })) WantVec(o, w.x, w.y, "createCenter"); } break;
      case 26: { Obj* o = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); Point w; if (Both("populateCenter", [&] { TUP(j, geometry_internal, BoxNative, populateCenter, TC(Tu(b), T1(j.L(o)))); }, [&] { w = b.v.Center(); })) WantVec(o, w.x, w.y, "populateCenter"); } break;
      case 27: BOOL(BoxNative, geometry_internal, containsPoint, TC(Tu(b), Tu(p)), b.v.Contains(p.v)); break;
      case 28: if (r.Chance(.3)) b2 = b; BOOL(BoxNative, geometry_internal, containsBox, TC(Tu(b), Tu(b2)), b.v.Contains(b2.v)); break;
      case 29: { Obj* o = nullptr; Vec v{p.v.x, p.v.y}, w; if (Both("unitVec", [&] { o = j.vm.Get(TUP(j, geometry_internal, VecNative, unitVec, TC(Tu(p), T1(j.vm.Cls(PKG "/geometry/ImmutableVec")))), "result"); }, [&] { w = v.AsUnitVec(); })) WantVec(o, w.x, w.y, "unitVec"); } break;
      case 30: { Obj* o = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); Vec v{p.v.x, p.v.y}, w; if (Both("populateUnitVec", [&] { TUP(j, geometry_internal, VecNative, populateUnitVec, TC(Tu(p), T1(j.L(o)))); }, [&] { w = v.AsUnitVec(); })) WantVec(o, w.x, w.y, "populateUnitVec"); } break;
      case 31: FLOAT(VecNative, geometry_internal, absoluteAngleBetween, TC(Tu(p), Tu(p2)), Vec::AbsoluteAngleBetween({p.v.x, p.v.y}, {p2.v.x, p2.v.y}).ValueInRadians()); break;
      case 32: FLOAT(VecNative, geometry_internal, signedAngleBetween, TC(Tu(p), Tu(p2)), Vec::SignedAngleBetween({p.v.x, p.v.y}, {p2.v.x, p2.v.y}).ValueInRadians()); break;
      case 33: BOOL(TriangleNative, geometry, nativeContains, TC(Tu(t), Tu(p)), t.v.Contains(p.v)); break;
      default: {  // the accumulator, several times
        Obj* o = j.New(PKG "/geometry/BoxAccumulator"); Envelope w;
        for (int n = r.Int(1, 5); n > 0; --n) {
          bool has = !w.IsEmpty(); std::array<float, 4> bounds{0, 0, 0, 0};
          if (has) bounds = {Fl(o, "x0"), Fl(o, "y0"), Fl(o, "x1"), Fl(o, "y1")};
          else if (r.Chance(.5)) bounds = {5, 6, 7, 8};  // ignored
          auto head = TC(T1((jboolean)has), Tu(bounds));
          auto p = g.Pt(); auto s = g.Seg(); auto t = g.Tri(); auto b = g.Box(); auto q = g.Par();
          bool ok;
          switch (r.Below(6)) {
            case 0: ok = Both("nativeAddSegment", [&] { TUP(j, geometry, BoxAccumulatorNative, nativeAddSegment, TC(head, Tu(s), T1(j.L(o)))); }, [&] { w.Add(s.v); }); break;
            case 1: ok = Both("nativeAddTriangle", [&] { TUP(j, geometry, BoxAccumulatorNative, nativeAddTriangle, TC(head, Tu(t), T1(j.L(o)))); }, [&] { w.Add(t.v); }); break;
            case 2: ok = Both("nativeAddParallelogram", [&] { TUP(j, geometry, BoxAccumulatorNative, nativeAddParallelogram, TC(head, Tu(q), T1(j.L(o)))); }, [&] { w.Add(q.v); }); break;
            case 3: ok = Both("nativeAddPoint", [&] { TUP(j, geometry, BoxAccumulatorNative, nativeAddPoint, TC(head, Tu(p), T1(j.L(o)))); }, [&] { w.Add(p.v); }); break;
            default: { bool there = r.Chance(.7); ok = Both("nativeAddOptionalBox", [&] { TUP(j, geometry, BoxAccumulatorNative, nativeAddOptionalBox, TC(head, T1((jboolean)there), Tu(b), T1(j.L(o)))); }, [&] { if (there) w.Add(b.v); }); }
          }
          if (!ok) return;
          WantEnv(o, w, "box accumulator");
        }
      }
    }
  }
  // A mesh with positions on a grid and sometimes other attributes.
  Mesh RandMesh(const MeshFormat& f) {
    int n = r.Int(3, 12); size_t comps = 0; for (auto& a : f.Attributes()) comps += MeshFormat::ComponentCount(a.type);
    std::vector<std::vector<float>> v(comps, std::vector<float>(n)); std::vector<absl::Span<const float>> sp;
    for (auto& col : v) for (float& x : col) x = (float)r.Int(0, 10) / (r.Chance(.2) ? 16.f : 1.f);
    for (auto& col : v) sp.push_back(col);
    std::vector<uint32_t> ix; for (int k = r.Int(1, 6); k > 0; --k) { uint32_t a = r.Below(n), b = r.Below(n), d = r.Below(n); if (a == b || b == d || a == d) continue; ix.insert(ix.end(), {a, b, d}); }
    auto m = Mesh::Create(f, sp, ix);
    if (!m.ok()) throw Skip();
    return *m;
  }
  MeshFormat RandFormat() {
    using At = MeshFormat::AttributeType; using Id = MeshFormat::AttributeId;
    for (int k = 0; k < 10; ++k) {
      std::vector<std::pair<At, Id>> a; a.push_back({r.Of({At::kFloat2Unpacked, At::kFloat2PackedIn1Float, At::kFloat2PackedIn3UnsignedBytes_XY12, At::kFloat2PackedIn4UnsignedBytes_X12_Y20}), Id::kPosition});
      if (r.Chance(.4)) a.push_back({r.Of({At::kFloat1Unpacked, At::kFloat1PackedIn1UnsignedByte}), Id::kOpacityShift});
      if (r.Chance(.3)) a.push_back({r.Of({At::kFloat3Unpacked, At::kFloat3PackedIn1Float, At::kFloat4PackedIn1Float, At::kFloat4Unpacked}), Id::kCustom0});
      std::shuffle(a.begin(), a.end(), r);
      auto f = MeshFormat::Create(a, r.Chance(.5) ? MeshFormat::IndexFormat::k16BitUnpacked16BitPacked : MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
      if (f.ok()) return *f;
    }
    return MeshFormat();
  }
  void WantBytes(Obj* o, absl::Span<const std::byte> w, const char* what) {
    if (w.data() == nullptr) { VH_REQUIRE(c, !o, "buffer", what, " must be null"); return; }
    VH_REQUIRE(c, o && o->cls->name == "java/nio/ByteBuffer", "buffer", what);
    VH_REQUIRE(c, o->cap == (jlong)w.size() && std::memcmp(o->addr, w.data(), w.size()) == 0, "buffer", what, ": ", (long)o->cap, " bytes, want ", (long)w.size());
  }
  void CheckMesh(jlong h, const Mesh& m) {
    WantBytes(j.vm.GetOrNull(CALL(j, geometry, MeshNative, createRawVertexBuffer, h), "buffer"), m.RawVertexData(), "vertices");
    WantBytes(j.vm.GetOrNull(CALL(j, geometry, MeshNative, createRawTriangleIndexBuffer, h), "buffer"), m.RawIndexData(), "indices");
    VH_REQUIRE(c, CALL(j, geometry, MeshNative, getVertexStride, h) == m.VertexStride() && CALL(j, geometry, MeshNative, getVertexCount, h) == (jint)m.VertexCount() && CALL(j, geometry, MeshNative, getTriangleCount, h) == (jint)m.TriangleCount() && CALL(j, geometry, MeshNative, getAttributeCount, h) == (jint)m.Format().Attributes().size(), "mesh-counts");
    Obj* o = r.Chance(.5) ? Dirty(PKG "/geometry/BoxAccumulator", {"x0", "y0", "x1", "y1"}) : j.New(PKG "/geometry/BoxAccumulator");
    CALL(j, geometry, MeshNative, fillBounds, h, j.L(o)); WantEnv(o, m.Bounds(), "bounds of the mesh");
    for (int i = 0; i < (int)m.Format().Attributes().size(); ++i) {
      Obj *a = j.vm.NewArr('F', 4), *b = j.vm.NewArr('F', 4); for (int k = 0; k < 4; ++k) a->As<float>()[k] = b->As<float>()[k] = -77;
      int n = CALL(j, geometry, MeshNative, fillAttributeUnpackingParams, h, i, (jfloatArray)j.L(a), (jfloatArray)j.L(b)); j.NoThrow("fillAttributeUnpackingParams");
      auto par = m.VertexAttributeUnpackingParams(i).components;
      VH_REQUIRE(c, n == (int)par.Size(), "unpacking-params", "number ", n);
      for (int k = 0; k < 4; ++k) { float o = k < n ? par[k].offset : -77.f, s = k < n ? par[k].scale : -77.f; VH_REQUIRE(c, a->As<float>()[k] == o && b->As<float>()[k] == s, "unpacking-params", "component ", k, " of attribute ", i); }
    }
    for (int k = 0; k < 3 && m.VertexCount(); ++k) { int i = r.Below(m.VertexCount()); Obj* v = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); CALL(j, geometry, MeshNative, fillPosition, h, i, j.L(v)); WantVec(v, m.VertexPosition(i).x, m.VertexPosition(i).y, "position"); }
    jlong f = CALL(j, geometry, MeshNative, allocCopyOfFormat, h);
    VH_REQUIRE(c, f && *(MeshFormat*)f == m.Format(), "format-copy");
    CALL(j, geometry, MeshFormat, nativeFree, f);
  }
  void CheckFormats(const MeshFormat& a, const MeshFormat& b) {
    Same("nativeIsPackedEquivalent", Try([&] { return Bool(CALL(j, geometry, MeshFormat, nativeIsPackedEquivalent, (jlong)&a, (jlong)&b), "packed"); }), Try([&] { return MeshFormat::IsPackedEquivalent(a, b); }));
    Same("nativeIsUnpackedEquivalent", Try([&] { return Bool(CALL(j, geometry, MeshFormat, nativeIsUnpackedEquivalent, (jlong)&a, (jlong)&b), "unpacked"); }), Try([&] { return MeshFormat::IsUnpackedEquivalent(a, b); }));
  }
  MeshFormat RenderFormat() {
    for (int k = 0; k < 20; ++k) {
      std::vector<std::pair<AType, AId>> list;
      if (r.Chance(.3)) { MeshFormat ff = strokes_internal::StrokeVertex::FullMeshFormat(); for (const auto& a : ff.Attributes()) list.push_back({a.type, a.id}); if (r.Chance(.2)) list.erase(list.begin() + r.Below(list.size())); }
      else for (const Attr& a : vh::RandFormat(r)) list.push_back({a.type, a.id});
      auto f = MeshFormat::Create(list, r.Chance(.9) ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
      if (f.ok()) return *f;
    }
    return MeshFormat();
  }
  __attribute__((noinline)) static void PaintStack(int v) { volatile char b[6000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)v; }
  // The specification of the shaders, as the renderer on Android gets it.
  void CheckSpec(const MeshFormat& f) {
    using S = skia_common_internal::MeshSpecificationData;
    bool packed = r.Chance(.5);
    auto want = packed ? S::CreateForStroke(f) : S::CreateForInProgressStroke(f);
    VH_REQUIRE(c, Bool(CALL(j, rendering_android_canvas_internal, CanvasMeshRenderer, nativeIsMeshFormatRenderable, (jlong)&f, (jboolean)packed), "renderable") == want.ok(), "renderable");
    std::string first;
    for (int round = 0; round < 2; ++round) {
      auto arr = [&](char k, int n) { Obj* o = j.vm.NewArr(k, n); if (k == 'I') for (int i = 0; i < n; ++i) o->As<int>()[i] = -99; return o; };
      Obj *at = arr('I', S::kMaxAttributes), *ao = arr('I', S::kMaxAttributes), *an = arr('L', S::kMaxAttributes), *vs = arr('I', 1), *vt = arr('I', S::kMaxVaryings), *vn = arr('L', S::kMaxVaryings), *ui = arr('I', S::kMaxUniforms), *uu = arr('I', S::kMaxUniforms), *un = arr('L', S::kMaxUniforms), *ve = arr('L', 1), *fr = arr('L', 1);
      auto call = [&] { CALL(j, rendering_android_canvas_internal, CanvasMeshRenderer, fillSkiaMeshSpecData, (jlong)&f, (jboolean)packed, (jintArray)j.L(at), (jintArray)j.L(ao), (jobjectArray)j.L(an), (jintArray)j.L(vs), (jintArray)j.L(vt), (jobjectArray)j.L(vn), (jintArray)j.L(ui), (jintArray)j.L(uu), (jobjectArray)j.L(un), (jobjectArray)j.L(ve), (jobjectArray)j.L(fr)); };
      PaintStack(round ? 0x5a : 0x11);
      call();
      Obj* thrown = j.Thrown(); WantThrow(j, thrown, want.status(), "fillSkiaMeshSpecData");
      if (!want.ok()) return;
      auto str = [&](Obj* o, std::string_view w, const char* what) { VH_REQUIRE(c, o && o->has_str && o->str == w, "spec", what, " want ", std::string(w).substr(0, 200)); };
      for (int i = 0; i < S::kMaxAttributes; ++i) { bool in = i < want->attributes.Size(); VH_REQUIRE(c, at->As<int>()[i] == (in ? (int)want->attributes[i].type : -1), "spec", "type of attribute ", i); if (in) { VH_REQUIRE(c, ao->As<int>()[i] == want->attributes[i].offset, "spec", "offset of attribute ", i); str(an->elems[i], want->attributes[i].name, "attribute"); } else VH_REQUIRE(c, !an->elems[i] && ao->As<int>()[i] >= -99 && ao->As<int>()[i] <= 0, "spec-garbage", "attribute ", i, " past the last one has offset ", ao->As<int>()[i]); }
      VH_REQUIRE(c, vs->As<int>()[0] == want->vertex_stride, "spec", "stride");
      for (int i = 0; i < S::kMaxVaryings; ++i) { bool in = i < want->varyings.Size(); VH_REQUIRE(c, vt->As<int>()[i] == (in ? (int)want->varyings[i].type : -1), "spec", "type of varying ", i); if (in) str(vn->elems[i], want->varyings[i].name, "varying"); }
      for (int i = 0; i < S::kMaxUniforms; ++i) { bool in = i < want->uniforms.Size(); VH_REQUIRE(c, ui->As<int>()[i] == (in ? (int)want->uniforms[i].id : -1) && uu->As<int>()[i] == (in ? want->uniforms[i].unpacking_attribute_index.value_or(-1) : -1), "spec", "uniform ", i); if (in) str(un->elems[i], S::GetUniformName(want->uniforms[i].id), "uniform"); }
      str(ve->elems[0], want->vertex_shader_source, "vertex shader"); str(fr->elems[0], want->fragment_shader_source, "fragment shader");
      std::string all; for (Obj* o : {at, ao, vs, vt, ui, uu}) all.append((char*)o->data.data(), o->data.size());
      if (!round) first = all; else VH_REQUIRE(c, all == first, "spec-repeat", "the same format gives other numbers the second time: uninitialized memory");
      c.Count("shader specifications");
    }
  }
  void Meshes() {
    if (r.Chance(.1)) {  // empty ones made by Java
      jlong e = CALL(j, geometry, MeshNative, allocNativeNewEmptyMesh); CheckMesh(e, Mesh()); CALL(j, geometry, MeshNative, freeNative, e);
      jlong p = CALL(j, geometry, PartitionedMeshNative, alloc); VH_REQUIRE(c, CALL(j, geometry, PartitionedMeshNative, getRenderGroupCount, p) == (jint)PartitionedMesh().RenderGroupCount(), "empty"); CALL(j, geometry, PartitionedMeshNative, free, p);
      return;
    }
    auto make = [&]() -> PartitionedMesh {
      int ng = r.Int(1, 3); std::vector<std::vector<Mesh>> ms(ng); std::vector<std::vector<std::vector<PartitionedMesh::VertexIndexPair>>> os(ng); std::vector<std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>>> sp(ng); std::vector<PartitionedMesh::MeshGroup> gs;
      for (int k = 0; k < ng; ++k) {
        MeshFormat f = RandFormat();
        for (int n = r.Int(0, 3); n > 0; --n) { Mesh m = RandMesh(f); if (m.TriangleCount()) ms[k].push_back(m); }
        if (!ms[k].empty()) for (int n = r.Int(0, 3); n > 0; --n) { std::vector<PartitionedMesh::VertexIndexPair> o; for (int q = r.Int(1, 6); q > 0; --q) { uint16_t mi = r.Below(ms[k].size()); o.push_back({mi, (uint16_t)r.Below(ms[k][mi].VertexCount())}); } os[k].push_back(o); }
        for (auto& o : os[k]) sp[k].push_back(o);
        gs.push_back({ms[k], sp[k]});
      }
      auto p = PartitionedMesh::FromMeshGroups(gs);
      if (!p.ok()) throw Skip();
      return *p;
    };
    PartitionedMesh a = make(), b = make();
    jlong h = (jlong)&a, hb = (jlong)&b;
    VH_REQUIRE(c, CALL(j, geometry, PartitionedMeshNative, getRenderGroupCount, h) == (jint)a.RenderGroupCount(), "group-count");
    std::vector<MeshFormat> fs;
    for (int k = 0; k < (int)a.RenderGroupCount(); ++k) {
      auto want = a.RenderGroupMeshes(k);
      Obj* o = j.vm.Get(CALL(j, geometry, PartitionedMeshNative, getNativeAddressesOfMeshes, h, k), "addresses"); j.NoThrow("getNativeAddressesOfMeshes");
      VH_REQUIRE(c, o->kind == 'J' && o->Len() == want.size(), "mesh-count", (int)o->Len(), " want ", (int)want.size());
      std::vector<jlong> hs(o->As<jlong>(), o->As<jlong>() + o->Len());
      for (size_t i = 0; i < hs.size(); ++i) { VH_REQUIRE(c, hs[i] && (Mesh*)hs[i] != &want[i], "mesh-copy"); CheckMesh(hs[i], want[i]); }
      for (jlong m : hs) CALL(j, geometry, MeshNative, freeNative, m);
      jlong f = CALL(j, geometry, PartitionedMeshNative, getRenderGroupFormat, h, k);
      VH_REQUIRE(c, f && *(MeshFormat*)f == a.RenderGroupFormat(k), "group-format", "group ", k);
      fs.push_back(*(MeshFormat*)f);
      CALL(j, geometry, MeshFormat, nativeFree, f);
      int no = CALL(j, geometry, PartitionedMeshNative, getOutlineCount, h, k); VH_REQUIRE(c, no == (jint)a.OutlineCount(k), "outline-count");
      for (int i = 0; i < no; ++i) {
        auto w = a.Outline(k, i); VH_REQUIRE(c, CALL(j, geometry, PartitionedMeshNative, getOutlineVertexCount, h, k, i) == (jint)w.size(), "outline-size");
        for (int q = 0; q < (int)w.size(); ++q) { Obj* arr = j.vm.NewArr('I', 2); CALL(j, geometry, PartitionedMeshNative, fillOutlineMeshIndexAndMeshVertexIndex, h, k, i, q, (jintArray)j.L(arr)); j.NoThrow("fillOutline"); VH_REQUIRE(c, arr->As<int>()[0] == w[q].mesh_index && arr->As<int>()[1] == w[q].vertex_index, "outline", "vertex ", q, " of outline ", i); }
      }
    }
    for (auto& f : fs) { CheckFormats(f, fs[0]); CheckFormats(fs[0], f); }
    if (r.Chance(.5)) CheckFormats(fs[0], RandFormat());
    if (r.Chance(.5)) CheckSpec(r.Chance(.2) ? fs[0] : RenderFormat());
    // Queries. A copy keeps the C++ answers apart from the object under test.
    VH_REQUIRE(c, Bool(CALL(j, geometry, PartitionedMeshNative, isSpatialIndexInitialized, h), "index") == a.IsSpatialIndexInitialized(), "index-state");
    if (r.Chance(.3)) { CALL(j, geometry, PartitionedMeshNative, initializeSpatialIndex, h); VH_REQUIRE(c, a.IsSpatialIndexInitialized() == !a.Meshes().empty() && a.IsSpatialIndexInitialized() == Bool(CALL(j, geometry, PartitionedMeshNative, isSpatialIndexInitialized, h), "index"), "index-state"); }
    if (g.mode == 2) g.mode = 1;
    for (int n = r.Int(2, 6); n > 0; --n) {
      auto p = g.Pt(); auto s = g.Seg(); auto t = g.Tri(); auto x = g.Box(); auto q = g.Par(); auto f = g.Xf(), f2 = g.Xf(); float th = r.F(-.1, 1);
      switch (r.Below(14)) {
        case 0: BOOL(Intersection, geometry, nativeMeshVecIntersects, TC(T1(h), Tu(p), Tu(f)), Intersects(p.v, a, f.v)); break;
        case 1: BOOL(Intersection, geometry, nativeMeshSegmentIntersects, TC(T1(h), Tu(s), Tu(f)), Intersects(s.v, a, f.v)); break;
        case 2: BOOL(Intersection, geometry, nativeMeshTriangleIntersects, TC(T1(h), Tu(t), Tu(f)), Intersects(t.v, a, f.v)); break;
        case 3: BOOL(Intersection, geometry, nativeMeshBoxIntersects, TC(T1(h), Tu(x), Tu(f)), Intersects(x.v, a, f.v)); break;
        case 4: BOOL(Intersection, geometry, nativeMeshParallelogramIntersects, TC(T1(h), Tu(q), Tu(f)), Intersects(q.v, a, f.v)); break;
        case 5: BOOL(Intersection, geometry, nativeMeshPartitionedMeshIntersects, TC(T1(h, hb), Tu(f), Tu(f2)), Intersects(a, f.v, b, f2.v)); break;
        case 6: FLOAT(PartitionedMeshNative, geometry, partitionedMeshTriangleCoverage, TC(T1(h), Tu(t), Tu(f)), a.Coverage(t.v, f.v)); break;
        case 7: FLOAT(PartitionedMeshNative, geometry, partitionedMeshBoxCoverage, TC(T1(h), Tu(x), Tu(f)), a.Coverage(x.v, f.v)); break;
        case 8: FLOAT(PartitionedMeshNative, geometry, partitionedMeshParallelogramCoverage, TC(T1(h), Tu(q), Tu(f)), a.Coverage(q.v, f.v)); break;
        case 9: FLOAT(PartitionedMeshNative, geometry, partitionedMeshPartitionedMeshCoverage, TC(T1(h, hb), Tu(f)), a.Coverage(b, f.v)); break;
        case 10: BOOL(PartitionedMeshNative, geometry, partitionedMeshTriangleCoverageIsGreaterThan, TC(T1(h), Tu(t), T1(th), Tu(f)), a.CoverageIsGreaterThan(t.v, th, f.v)); break;
        case 11: BOOL(PartitionedMeshNative, geometry, partitionedMeshBoxCoverageIsGreaterThan, TC(T1(h), Tu(x), T1(th), Tu(f)), a.CoverageIsGreaterThan(x.v, th, f.v)); break;
        case 12: BOOL(PartitionedMeshNative, geometry, partitionedMeshParallelogramCoverageIsGreaterThan, TC(T1(h), Tu(q), T1(th), Tu(f)), a.CoverageIsGreaterThan(q.v, th, f.v)); break;
        default: BOOL(PartitionedMeshNative, geometry, partitionedMeshPartitionedMeshCoverageIsGreaterThan, TC(T1(h, hb, th), Tu(f)), a.CoverageIsGreaterThan(b, th, f.v)); break;
      }
    }
    // A heap copy freed through Java.
    jlong heap; { jvm::Native n; heap = (jlong) new PartitionedMesh(a); }
    CALL(j, geometry, PartitionedMeshNative, free, heap);
    c.Count("meshes with groups");
  }
  // Exceptions, strings and points.
  void Utilities() {
    JNIEnv* env = &j.vm.env;
    switch (r.Below(4)) {
      case 0: {  // status -> exception
        auto code = (absl::StatusCode)r.Int(1, 16); std::string msg = r.Chance(.2) ? "" : Cat("text ", (int)r.Below(100));
        absl::Status st(code, msg); bool both = r.Chance(.5);
        { jvm::Native n; if (both) VH_REQUIRE(c, !jni::CheckOkOrThrow(env, st), "check-ok-or-throw"); else jni::ThrowExceptionFromStatus(env, st); }
        j.vm.AfterCall("ThrowExceptionFromStatus"); Obj* t = j.Thrown(); WantThrow(j, t, st, "ThrowExceptionFromStatus");
        { jvm::Native n; VH_REQUIRE(c, jni::CheckOkOrThrow(env, absl::OkStatus()), "check-ok-or-throw"); }
        VH_REQUIRE(c, !j.Thrown(), "unexpected-exception", "for an OK status");
      } break;
      case 1: {  // exception -> status
        static const std::pair<const char*, absl::StatusCode> k[] = {{"java/lang/IllegalStateException", absl::StatusCode::kFailedPrecondition}, {"java/lang/IllegalArgumentException", absl::StatusCode::kInvalidArgument}, {"java/util/NoSuchElementException", absl::StatusCode::kNotFound}, {"java/lang/IndexOutOfBoundsException", absl::StatusCode::kOutOfRange}, {"java/lang/UnsupportedOperationException", absl::StatusCode::kUnimplemented}, {"java/lang/ArrayIndexOutOfBoundsException", absl::StatusCode::kOutOfRange}, {"java/lang/NumberFormatException", absl::StatusCode::kInvalidArgument}, {"java/util/InputMismatchException", absl::StatusCode::kNotFound}, {"java/util/concurrent/CancellationException", absl::StatusCode::kFailedPrecondition}, {"java/lang/ArithmeticException", absl::StatusCode::kUnknown}, {"java/lang/OutOfMemoryError", absl::StatusCode::kUnknown}};
        auto [cls, code] = k[r.Below(std::size(k))]; std::string msg = Cat("because ", (int)r.Below(50)); bool has = r.Chance(.7);
        j.vm.pending = r.Chance(.1) ? nullptr : j.vm.NewThrow(cls, has ? &msg : nullptr); bool pend = j.vm.pending;
        absl::Status st;
        { jvm::Native n; st = jni::CatchExceptionAsStatus(env); }
        j.vm.AfterCall("CatchExceptionAsStatus");
        VH_REQUIRE(c, !j.Thrown(), "exception-not-cleared");
        if (!pend) VH_REQUIRE(c, st.ok(), "caught-status", "no exception: ", st.ToString());
        else VH_REQUIRE(c, st.code() == code && st.message() == (has ? msg : ""), "caught-status", cls, " gives ", st.ToString());
        { jvm::Native n; st = absl::OkStatus(); }
      } break;
      case 2: {  // strings
        std::string s; for (int n = r.Int(0, 12); n > 0; --n) { switch (r.Below(4)) { case 0: s += "\xC0\x80"; break; case 1: s += "\xC3\xA9"; break; case 2: s += "\xE2\x82\xAC"; break; default: s += (char)r.Int(1, 127); } }
        jstring js = r.Chance(.1) ? nullptr : (jstring)j.L(j.vm.NewStr(s)); if (!js) s.clear();
        { jvm::Native n; { std::string got = jni::JStringToStdString(env, js); VH_REQUIRE(c, got == s, "string"); } jni::JStringView view(env, js); VH_REQUIRE(c, view.string_view() == s, "string"); }
        j.vm.AfterCall("JStringView");
      } break;
      default: { auto p = g.Pt(); Obj* o = Dirty(PKG "/geometry/MutableVec", {"x", "y"}); { jvm::Native n; FillJMutablePoint(env, j.L(o), p.v); } j.vm.AfterCall("FillJMutablePoint"); WantVec(o, p.v.x, p.v.y, "FillJMutablePoint"); }
    }
  }
};
// Brushes and strokes.
struct J2 {
  Ctx& c; Java& j; Rng& r; bool checks = false;
  J2(Ctx& c, Java& j) : c(c), j(j), r(c.rng) {}
  bool Bool(jboolean b, const char* what) { VH_REQUIRE(c, b <= 1, "boolean", what, " returned ", (int)b); return b; }
  template <typename E> E AnyEnum() { return (E)r.Int(-3, 40); }
  float Weird() { return r.Chance(.3) ? std::numeric_limits<float>::quiet_NaN() : r.Chance(.3) ? r.Of({1, -1}) * std::numeric_limits<float>::infinity() : r.Chance(.5) ? r.F(-3, 3) : FiniteFloat(r); }
  // Changes something, often to what is not valid.
  void Twist(BrushBehavior& b) {
    if (b.nodes.empty()) return;
    if (r.Chance(.15)) { b.nodes.erase(b.nodes.begin() + r.Below(b.nodes.size())); return; }
    auto& n = b.nodes[r.Below(b.nodes.size())];
    std::visit([&](auto& x) { TwistNode(x); }, n);
  }
  void TwistNode(BrushBehavior::SourceNode& n) { switch (r.Below(3)) { case 0: n.source = AnyEnum<BrushBehavior::Source>(); break; case 1: n.source_out_of_range_behavior = AnyEnum<BrushBehavior::OutOfRange>(); break; default: n.source_value_range[r.Below(2)] = Weird(); } }
  void TwistNode(BrushBehavior::ConstantNode& n) { n.value = Weird(); }
  void TwistNode(BrushBehavior::FallbackFilterNode& n) { n.is_fallback_for = AnyEnum<BrushBehavior::OptionalInputProperty>(); }
  void TwistNode(BrushBehavior::ToolTypeFilterNode& n) { n.enabled_tool_types = {false, false, false, false}; }
  void TwistNode(BrushBehavior::DampingNode& n) { if (r.Chance(.5)) n.damping_source = AnyEnum<BrushBehavior::DampingSource>(); else n.damping_gap = Weird(); }
  void TwistNode(BrushBehavior::ResponseNode& n) {
    switch (r.Below(4)) {
      case 0: n.response_curve = {AnyEnum<EasingFunction::Predefined>()}; break;
      case 1: n.response_curve = {EasingFunction::CubicBezier{Weird(), .5f, r.F(-1, 2), 1}}; break;
      case 2: { EasingFunction::Linear l; for (int k = r.Int(0, 4); k > 0; --k) l.points.push_back({r.Chance(.2) ? Weird() : r.F(0, 1), r.Chance(.1) ? Weird() : r.F(0, 1)}); n.response_curve = {l}; } break;
      default: { int k = r.Int(-2, 5); n.response_curve = {EasingFunction::Steps{k, AnyEnum<EasingFunction::StepPosition>()}}; }
    }
  }
  void TwistNode(BrushBehavior::BinaryOpNode& n) { n.operation = AnyEnum<BrushBehavior::BinaryOp>(); }
  void TwistNode(BrushBehavior::InterpolationNode& n) { n.interpolation = AnyEnum<BrushBehavior::Interpolation>(); }
  void TwistNode(BrushBehavior::TargetNode& n) { if (r.Chance(.5)) n.target = AnyEnum<BrushBehavior::Target>(); else n.target_modifier_range[r.Below(2)] = Weird(); }
  // Appends a node through Java.
  void Put(jlong h, const BrushBehavior::SourceNode& n) { CALL(j, brush, BrushBehavior_00024SourceNode, nativeAppendSourceNode, h, (int)n.source, n.source_value_range[0], n.source_value_range[1], (int)n.source_out_of_range_behavior); }
  void Put(jlong h, const BrushBehavior::ConstantNode& n) { CALL(j, brush, BrushBehavior_00024ConstantNode, nativeAppendConstantNode, h, n.value); }
  void Put(jlong h, const BrushBehavior::FallbackFilterNode& n) { CALL(j, brush, BrushBehavior_00024FallbackFilterNode, nativeAppendFallbackFilterNode, h, (int)n.is_fallback_for); }
  void Put(jlong h, const BrushBehavior::ToolTypeFilterNode& n) { auto& e = n.enabled_tool_types; CALL(j, brush, BrushBehavior_00024ToolTypeFilterNode, nativeAppendToolTypeFilterNode, h, e.mouse, e.touch, e.stylus, e.unknown); }
  void Put(jlong h, const BrushBehavior::DampingNode& n) { CALL(j, brush, BrushBehavior_00024DampingNode, nativeAppendDampingNode, h, (int)n.damping_source, n.damping_gap); }
  void Put(jlong h, const BrushBehavior::ResponseNode& n) {
    auto& p = n.response_curve.parameters;
    if (auto* x = std::get_if<EasingFunction::Predefined>(&p)) CALL(j, brush, BrushBehavior_00024ResponseNode, nativeAppendResponseNodePredefined, h, (int)*x);
    else if (auto* x = std::get_if<EasingFunction::CubicBezier>(&p)) CALL(j, brush, BrushBehavior_00024ResponseNode, nativeAppendResponseNodeCubicBezier, h, x->x1, x->y1, x->x2, x->y2);
    else if (auto* x = std::get_if<EasingFunction::Steps>(&p)) CALL(j, brush, BrushBehavior_00024ResponseNode, nativeAppendResponseNodeSteps, h, x->step_count, (int)x->step_position);
    else {
      auto& l = std::get<EasingFunction::Linear>(p);
      Obj* a = j.vm.NewArr('F', 2 * l.points.size()); for (size_t i = 0; i < l.points.size(); ++i) a->As<float>()[2 * i] = l.points[i].x, a->As<float>()[2 * i + 1] = l.points[i].y;
      std::vector<std::byte> before = a->data;
      CALL(j, brush, BrushBehavior_00024ResponseNode, nativeAppendResponseNodeLinear, h, (jfloatArray)j.L(a));
      VH_REQUIRE(c, a->data == before, "array-changed", "the array of points");
    }
  }
  void Put(jlong h, const BrushBehavior::BinaryOpNode& n) { CALL(j, brush, BrushBehavior_00024BinaryOpNode, nativeAppendBinaryOpNode, h, (int)n.operation); }
  void Put(jlong h, const BrushBehavior::InterpolationNode& n) { CALL(j, brush, BrushBehavior_00024InterpolationNode, nativeAppendInterpolationNode, h, (int)n.interpolation); }
  void Put(jlong h, const BrushBehavior::TargetNode& n) { CALL(j, brush, BrushBehavior_00024TargetNode, nativeAppendTargetNode, h, (int)n.target, n.target_modifier_range[0], n.target_modifier_range[1]); }
  // 0 when Java is told that it is not valid.
  jlong Make(const BrushBehavior& b) {
    jlong h = CALL(j, brush, BrushBehavior, nativeCreateEmptyBrushBehavior);
    for (auto& n : b.nodes) { std::visit([&](auto& x) { Put(h, x); }, n); j.NoThrow("append node"); }
    absl::Status st = brush_internal::ValidateBrushBehavior(b);
    if (st.ok()) VH_REQUIRE(c, *(BrushBehavior*)h == b, "behavior", "the behavior Java built is not the one it asked for");
    jlong got = CALL(j, brush, BrushBehavior, nativeValidateOrDeleteAndThrow, h);
    WantThrow(j, j.Thrown(), st, "nativeValidateOrDeleteAndThrow");
    if (!st.ok()) return 0;  // and the memory is gone, which the leak check sees
    VH_REQUIRE(c, got == h, "behavior", "another handle came back");
    c.Count("behaviors");
    return h;
  }
  jlong Make(const BrushTip& t, jlong ms) {
    BrushTip bare = t; bare.behaviors.clear();
    absl::Status st = brush_internal::ValidateBrushTip(bare);
    jlong h = CALL(j, brush, BrushTip, nativeCreateBrushTip, t.scale.x, t.scale.y, t.corner_rounding, t.slant.ValueInRadians(), t.pinch, t.rotation.ValueInRadians(), t.opacity_multiplier, t.particle_gap_distance_scale, ms, (jint)t.behaviors.size());
    WantThrow(j, j.Thrown(), st, "nativeCreateBrushTip");
    if (!st.ok()) return 0;
    for (auto& b : t.behaviors) {
      jlong bh = Make(b);
      if (!bh) { CALL(j, brush, BrushTip, nativeFreeBrushTip, h); return 0; }
      CALL(j, brush, BrushTip, nativeAppendBehavior, h, bh); j.NoThrow("nativeAppendBehavior");
      CALL(j, brush, BrushBehavior, nativeFreeBrushBehavior, bh);
    }
    VH_REQUIRE(c, *(BrushTip*)h == t, "tip", "the tip Java built is not the one it asked for");
    return h;
  }
  jlong Make(const BrushPaint& p, const std::vector<std::string>& uris) {
    jlong h = CALL(j, brush, BrushPaint, nativeCreateBrushPaint, (jint)p.texture_layers.size());
    BrushPaint so_far;
    for (size_t i = 0; i < p.texture_layers.size(); ++i) {
      BrushPaint::TextureLayer l = p.texture_layers[i];
      auto uri = Uri::Parse(uris[i]); absl::Status st = uri.status();
      if (st.ok()) { l.color_texture_uri = *uri; st = brush_internal::ValidateBrushPaintTextureLayer(l); }
      jlong lh = CALL(j, brush, BrushPaint_00024TextureLayer, nativeCreateTextureLayer, (jstring)j.L(j.vm.NewStr(uris[i])), l.size.x, l.size.y, l.offset.x, l.offset.y, l.rotation.ValueInRadians(), l.opacity, (int)l.size_unit, (int)l.origin, (int)l.mapping, (int)l.wrap_x, (int)l.wrap_y, (int)l.blend_mode);
      WantThrow(j, j.Thrown(), st, "nativeCreateTextureLayer");
      if (!st.ok()) { CALL(j, brush, BrushPaint, nativeFreeBrushPaint, h); return 0; }
      VH_REQUIRE(c, *(BrushPaint::TextureLayer*)lh == l, "texture-layer", "the layer Java built is not the one it asked for");
      so_far.texture_layers.push_back(l);
      st = brush_internal::ValidateBrushPaint(so_far);
      CALL(j, brush, BrushPaint, nativeAppendTextureLayer, h, lh);
      WantThrow(j, j.Thrown(), st, "nativeAppendTextureLayer");
      CALL(j, brush, BrushPaint_00024TextureLayer, nativeFreeTextureLayer, lh);
      if (!st.ok()) { CALL(j, brush, BrushPaint, nativeFreeBrushPaint, h); return 0; }
    }
    VH_REQUIRE(c, *(BrushPaint*)h == so_far, "paint", "the paint Java built is not the one it asked for");
    return h;
  }
  static bool SameCoats(absl::Span<const BrushCoat> a, absl::Span<const BrushCoat> b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i].tips == b[i].tips) || !(a[i].paint == b[i].paint)) return false;
    return true;
  }
  // A brush built by Java next to the one C++ builds; nullopt when it is refused.
  struct B { jlong h; Brush b; };
  std::optional<B> MakeBrush(bool tame, bool big) {
    BrushOpts bo; bo.hostile = !tame && r.Chance(.1); if (big) bo.behaviors = false;
    std::vector<BrushCoat> coats; bool ok = true;
    std::vector<jlong> tips_to_free, paints_to_free, coats_h;
    int n = big || r.Chance(.7) ? 1 : r.Int(0, 3);
    for (int k = 0; k < n && ok; ++k) {
      BrushCoat coat; std::vector<jlong> th;
      int nt = tame || r.Chance(.9) ? 1 : r.Int(0, 2);
      for (int q = 0; q < nt && ok; ++q) {
        BrushTip t = RandTip(r, bo);
        jlong ms = r.Chance(.7) ? std::llround(t.particle_gap_duration.ToMillis()) : r.Int(0, 100);
        if (big) { t = BrushTip(); t.particle_gap_distance_scale = 1.5f; ms = 0; }
        if (ms > 0 && ms < 25) ms = 25;  // many particles at once take long
        if (!tame && r.Chance(.1)) ms = r.Int(-5, 0);
        t.particle_gap_duration = Duration32::Millis((float)ms);
        if (!tame && r.Chance(.06)) switch (r.Below(8)) { case 0: t.scale.x = Weird(); break; case 1: t.scale.y = Weird(); break; case 2: t.corner_rounding = Weird(); break; case 3: t.slant = Angle::Radians(Weird()); break; case 4: t.pinch = Weird(); break; case 5: t.rotation = Angle::Radians(Weird()); break; case 6: t.opacity_multiplier = Weird(); break; default: t.particle_gap_distance_scale = Weird(); }
        if (!tame && !t.behaviors.empty() && r.Chance(.25)) Twist(t.behaviors[r.Below(t.behaviors.size())]);
        jlong h = Make(t, ms);
        if (!h) { ok = false; break; }
        th.push_back(h); tips_to_free.push_back(h); coat.tips.push_back(t);
      }
      if (!ok) break;
      BrushPaint p; if (!big && r.Chance(.5)) p = RandPaint(r);
      std::vector<std::string> uris;
      for (auto& l : p.texture_layers) {
        l.origin = (BrushPaint::TextureOrigin)r.Below(3); l.size_unit = (BrushPaint::TextureSizeUnit)r.Below(3); l.wrap_x = (BrushPaint::TextureWrap)r.Below(3); l.wrap_y = (BrushPaint::TextureWrap)r.Below(3); l.blend_mode = (BrushPaint::BlendMode)r.Below(12); l.rotation = Angle::Radians(r.F(-7, 7));
        if (!tame && r.Chance(.1)) switch (r.Below(10)) { case 0: l.origin = AnyEnum<BrushPaint::TextureOrigin>(); break; case 1: l.size_unit = AnyEnum<BrushPaint::TextureSizeUnit>(); break; case 2: l.wrap_x = AnyEnum<BrushPaint::TextureWrap>(); break; case 3: l.wrap_y = AnyEnum<BrushPaint::TextureWrap>(); break; case 4: l.blend_mode = AnyEnum<BrushPaint::BlendMode>(); break; case 5: l.mapping = AnyEnum<BrushPaint::TextureMapping>(); break; case 6: l.size.y = Weird(); break; case 7: l.offset.x = Weird(); break; case 8: l.opacity = Weird(); break; default: l.rotation = Angle::Radians(Weird()); }
        uris.push_back(tame || r.Chance(.9) ? (r.Chance(.5) ? "ink://ink/texture:one" : "/texture:two") : AnyUri());
      }
      jlong ph = Make(p, uris);
      if (!ph) { ok = false; break; }
      for (size_t i = 0; i < uris.size(); ++i) p.texture_layers[i].color_texture_uri = *Uri::Parse(uris[i]);
      coat.paint = p; paints_to_free.push_back(ph);
      Obj* a = j.vm.NewArr('J', th.size()); std::copy(th.begin(), th.end(), a->As<jlong>());
      jlong ch = CALL(j, brush, BrushCoat, nativeCreateBrushCoat, (jlongArray)j.L(a), ph); j.NoThrow("nativeCreateBrushCoat");
      coats_h.push_back(ch); coats.push_back(coat);
      VH_REQUIRE(c, SameCoats({(BrushCoat*)ch, 1}, {&coat, 1}), "coat", "the coat Java built is not the one it asked for");
    }
    for (jlong h : tips_to_free) CALL(j, brush, BrushTip, nativeFreeBrushTip, h);
    for (jlong h : paints_to_free) CALL(j, brush, BrushPaint, nativeFreeBrushPaint, h);
    std::optional<B> out;
    if (ok) {
      Obj* a = j.vm.NewArr('J', coats_h.size()); std::copy(coats_h.begin(), coats_h.end(), a->As<jlong>());
      bool null = r.Chance(.2), v2 = r.Chance(.5); std::string uri = null ? "" : tame || r.Chance(.8) ? r.Of({std::string(""), std::string("/brush-family:marker:3"), std::string("ink://ink/brush-family:pen")}) : AnyUri();
      BrushFamily::InputModel m; if (v2) m = BrushFamily::SpringModelV2(); else m = BrushFamily::SpringModelV1();
      auto want = BrushFamily::Create(coats, uri, m);
      jlong fh = CALL(j, brush, BrushFamily, nativeCreateBrushFamily, (jlongArray)j.L(a), null ? (jstring) nullptr : (jstring)j.L(j.vm.NewStr(uri)), (jboolean)v2);
      WantThrow(j, j.Thrown(), want.status(), "nativeCreateBrushFamily");
      if (want.ok()) {
        auto& f = *(BrushFamily*)fh;
        VH_REQUIRE(c, SameCoats(f.GetCoats(), want->GetCoats()) && f.GetUri() == want->GetUri() && f.GetInputModel().index() == want->GetInputModel().index(), "family", "the family Java built is not the one it asked for: ", f, " want ", *want);
        c.Count("families");
        float size = big ? 1000 : (float)r.LogReal(.5, 60), eps = big ? r.F(.8, 1.2) : (float)(size * r.LogReal(.002, .3));
        if (!tame && r.Chance(.1)) (r.Chance(.5) ? size : eps) = Weird();
        float col[4]; for (float& x : col) x = r.Chance(.1) ? r.F(-1, 2) : !tame && r.Chance(.03) ? Weird() : r.F(0, 1);
        int space = r.Int(0, 1);
        std::optional<absl::StatusOr<Brush>> wb; std::optional<jlong> bh;
        wb = Try([&] { return Brush::Create(*want, Color::FromFloat(col[0], col[1], col[2], col[3], Color::Format::kGammaEncoded, space ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb), size, eps); });
        bh = Try([&] { return CALL(j, brush, Brush, nativeCreateBrush, fh, col[0], col[1], col[2], col[3], space, size, eps); });
        VH_REQUIRE(c, wb.has_value() == bh.has_value(), "outcome", "Brush: CHECK failed ", wb ? "only through Java" : "only in C++");
        if (!wb) checks = true;
        else {
          WantThrow(j, j.Thrown(), wb->status(), "nativeCreateBrush");
          if (wb->ok()) {
            auto& g = *(Brush*)*bh;
            VH_REQUIRE(c, g.GetSize() == size && g.GetEpsilon() == eps && g.GetColor() == (*wb)->GetColor() && SameCoats(g.GetCoats(), (*wb)->GetCoats()) && g.GetFamily().GetUri() == want->GetUri(), "brush", "the brush Java built is not the one it asked for: ", g, " want ", **wb);
            out.emplace(B{*bh, **wb}); c.Count("brushes");
          }
        }
        CALL(j, brush, BrushFamily, nativeFreeBrushFamily, fh);
      }
    }
    for (jlong h : coats_h) CALL(j, brush, BrushCoat, nativeFreeBrushCoat, h);
    return out;
  }
  std::string AnyUri() {
    switch (r.Below(4)) {
      case 0: return r.Of({std::string("nonsense"), std::string("ink://"), std::string("/texture"), std::string("/texture:"), std::string("texture:x"), std::string("/brush-family:x:-1"), std::string("//a/b:c"), std::string("/texture:x:y:z")});
      case 1: { std::string s = "/texture:"; for (int k = r.Int(0, 6); k > 0; --k) s += (char)r.Int(33, 126); return s; }
      case 2: { std::string s = "ink://"; for (int k = r.Int(0, 6); k > 0; --k) s += r.Of({"\xC3\xA9", "\xE2\x82\xAC", "a", "\xED\xA0\xBD\xED\xB8\x80", "/", ":", "\xC0\x80"}); return s; }
      default: return r.Chance(.3) ? "" : "/brush-family:a-b-1";
    }
  }
  // Batches: the handle and what must be in it.
  struct S { jlong h; StrokeInputBatch b; };
  std::vector<S> bs;
  void WantMessage(jstring s, const absl::Status& st, const char* what) {
    j.NoThrow(what);
    if (st.ok()) { VH_REQUIRE(c, !s, "error-string", what, " returned a message for success: ", s ? j.vm.Get(s, what)->str : ""); return; }
    VH_REQUIRE(c, s, "error-string", what, " returned nothing for ", st.ToString());
    VH_REQUIRE(c, j.vm.Get(s, what)->str == st.ToString(), "error-string", what, ": ", j.vm.Get(s, what)->str, " want ", st.ToString());
    c.Count("messages");
  }
  S NewBatch() { S s{CALL(j, strokes, StrokeInputBatchNative, createNativePeer), {}}; return s; }
  bool AppendOne(S& s, StrokeInput::ToolType tool, float x, float y, jlong ms, float unit, float p, float tilt, float o) {
    StrokeInput in{.tool_type = tool, .position = {x, y}, .elapsed_time = Duration32::Millis((float)ms), .stroke_unit_length = PhysicalDistance::Centimeters(unit), .pressure = p, .tilt = Angle::Radians(tilt), .orientation = Angle::Radians(o)};
    absl::Status st = s.b.Append(in);
    jstring m = CALL(j, strokes, MutableStrokeInputBatchNative, appendSingle, s.h, (jint)tool, x, y, ms, unit, p, tilt, o);
    WantMessage(m, st, "appendSingle");
    return st.ok();
  }
  void AppendPen(S& s, Pen& pen, int n, bool tame) {
    for (int k = 0; k < n; ++k) {
      StrokeInput i = pen.Next(r);
      jlong ms = std::llround(i.elapsed_time.ToMillis()); float x = i.position.x, y = i.position.y, unit = i.stroke_unit_length.ToCentimeters(), p = i.pressure, t = i.tilt.ValueInRadians(), o = i.orientation.ValueInRadians(); auto tool = i.tool_type;
      if (!tame && r.Chance(.06)) switch (r.Below(8)) { case 0: tool = (StrokeInput::ToolType)r.Int(0, 3); break; case 1: x = Weird(); break; case 2: y = Weird(); break; case 3: ms = r.Chance(.5) ? -5 : r.Int(0, 1000); break; case 4: unit = Weird(); break; case 5: p = Weird(); break; case 6: t = Weird(); break; default: o = Weird(); }
      AppendOne(s, tool, x, y, ms, unit, p, t, o);
    }
  }
  void WantMs(jlong got, Duration32 d, const char* what) {
    double ms = (double)d.ToSeconds() * 1000, tol = 1 + std::fabs(ms) * 1e-6;
    if (!std::isfinite(ms) || ms > 9e18) return;
    VH_REQUIRE(c, std::fabs(got - ms) <= tol, "time", what, ": ", (double)got, " ms want ", ms);
    double whole = std::round(ms);
    if (ms < 2e5 && d == Duration32::Millis((float)whole)) VH_REQUIRE(c, got == (jlong)whole, "time", what, ": ", (double)got, " ms want ", whole, " as given");
  }
  void WantInput(Obj* o, const StrokeInput& w, const char* what) {
    VH_REQUIRE(c, o->fields.count("x") && o->ofields["tool"], "input", what, ": update was not called");
    auto& f = o->fields;
    VH_REQUIRE(c, SameF(f["x"].f, w.position.x) && SameF(f["y"].f, w.position.y) && SameF(f["unit"].f, w.stroke_unit_length.ToCentimeters()) && SameF(f["pressure"].f, w.pressure) && SameF(f["tilt"].f, w.tilt.ValueInRadians()) && SameF(f["orientation"].f, w.orientation.ValueInRadians()), "input", what, ": (", f["x"].f, ",", f["y"].f, ") unit ", f["unit"].f, " pressure ", f["pressure"].f, " tilt ", f["tilt"].f, " orientation ", f["orientation"].f, " want ", w);
    VH_REQUIRE(c, o->ofields["tool"]->fields["value"].i == (int)w.tool_type, "input", what, ": tool ", o->ofields["tool"]->fields["value"].i, " want ", (int)w.tool_type);
    WantMs(f["t"].j, w.elapsed_time, what);
  }
  void CheckBatch(const S& s, const char* what) {
    auto is = [&](jint n) { VH_REQUIRE(c, n == (jint)s.b.Size(), "size", what, ": ", (int)n, " want ", (int)s.b.Size()); };
    is(CALL(j, strokes, StrokeInputBatchNative, getSize, s.h));
    WantMs(CALL(j, strokes, StrokeInputBatchNative, getDurationMillis, s.h), s.b.GetDuration(), "getDurationMillis");
    VH_REQUIRE(c, CALL(j, strokes, StrokeInputBatchNative, getToolType, s.h) == (jint)s.b.GetToolType(), "tool-type");
    auto u = s.b.GetStrokeUnitLength(); float ul = CALL(j, strokes, StrokeInputBatchNative, getStrokeUnitLengthCm, s.h);
    VH_REQUIRE(c, SameF(ul, u ? u->ToCentimeters() : 0), "unit-length", ul);
    VH_REQUIRE(c, Bool(CALL(j, strokes, StrokeInputBatchNative, hasStrokeUnitLength, s.h), "hasStrokeUnitLength") == s.b.HasStrokeUnitLength(), "has", "unit length");
    VH_REQUIRE(c, Bool(CALL(j, strokes, StrokeInputBatchNative, hasPressure, s.h), "hasPressure") == s.b.HasPressure(), "has", "pressure");
    VH_REQUIRE(c, Bool(CALL(j, strokes, StrokeInputBatchNative, hasTilt, s.h), "hasTilt") == s.b.HasTilt(), "has", "tilt");
    VH_REQUIRE(c, Bool(CALL(j, strokes, StrokeInputBatchNative, hasOrientation, s.h), "hasOrientation") == s.b.HasOrientation(), "has", "orientation");
    if (s.b.IsEmpty()) return;
    for (int k = 0; k < 3; ++k) {
      int i = r.Below(s.b.Size()); Obj* o = j.New(PKG "/strokes/StrokeInput");
      CALL(j, strokes, StrokeInputBatchNative, populate, s.h, i, j.L(o), j.vm.Cls(PKG "/brush/InputToolType")); j.NoThrow("populate");
      WantInput(o, s.b.Get(i), "populate"); c.Sig(s.b.Get(i).position.x);
      if (k == 0) {  // and back
        StrokeInput back; { jvm::Native n; back = JObjectToStrokeInput(&j.vm.env, j.L(o)); } j.vm.AfterCall("JObjectToStrokeInput"); j.NoThrow("JObjectToStrokeInput");
        StrokeInput w = s.b.Get(i);
        VH_REQUIRE(c, back.tool_type == w.tool_type && back.position == w.position && SameF(back.pressure, w.pressure) && back.tilt == w.tilt && back.orientation == w.orientation && SameF(back.stroke_unit_length.ToCentimeters(), w.stroke_unit_length.ToCentimeters()) && back.elapsed_time == Duration32::Millis((float)o->fields["t"].j), "input-back", back, " want ", w);
      }
    }
  }
  void Free(S& s) { CALL(j, strokes, StrokeInputBatchNative, freeNativePeer, s.h); }
  // Programs on several batches that share storage.
  void Batches() {
    Pen pen(r, 10); int n = r.Int(3, 25);
    bs.push_back(NewBatch());
    for (int k = 0; k < n; ++k) {
      size_t i = r.Below(bs.size());
      switch (r.Below(9)) {
        case 0: if (bs.size() < 5) bs.push_back(NewBatch()); break;
        case 1: if (bs.size() < 5) { S s{CALL(j, strokes, MutableStrokeInputBatchNative, copy, bs[i].h), bs[i].b}; bs.push_back(s); CheckBatch(s, "copy"); } break;
        case 2: if (bs.size() > 1) { Free(bs[i]); bs.erase(bs.begin() + i); } break;
        case 3: if (r.Chance(.4)) { CALL(j, strokes, MutableStrokeInputBatchNative, clear, bs[i].h); bs[i].b.Clear(); CheckBatch(bs[i], "clear"); if (r.Chance(.5)) pen = Pen(r, 10); } break;
        case 4: case 5: {
          size_t q = r.Below(bs.size());
          StrokeInputBatch before = bs[q].b;
          absl::Status st = bs[i].b.Append(before);
          jstring m = CALL(j, strokes, MutableStrokeInputBatchNative, appendBatch, bs[i].h, bs[q].h);
          WantMessage(m, st, "appendBatch"); if (st.ok() && !before.IsEmpty()) c.Count("batches appended");
        } break;
        case 6: { S s = NewBatch(); AppendPen(s, pen, r.Int(1, 6), false); absl::Status st = bs[i].b.Append(s.b); WantMessage(CALL(j, strokes, MutableStrokeInputBatchNative, appendBatch, bs[i].h, s.h), st, "appendBatch"); Free(s); } break;
        default: AppendPen(bs[i], pen, r.Int(1, 5), r.Chance(.5)); if (r.Chance(.3)) pen.t = std::floor(pen.t * 1000) / 1000; break;
      }
      if (r.Chance(.4)) for (auto& s : bs) CheckBatch(s, "after a step");
      j.vm.PopLocals();
    }
    for (auto& s : bs) { CheckBatch(s, "at the end"); Free(s); }
    bs.clear();
    c.Count("batch programs");
  }
  void SameMeshes(const PartitionedMesh& a, const PartitionedMesh& b, const char* what) {
    VH_REQUIRE(c, a.RenderGroupCount() == b.RenderGroupCount(), "shape", what, ": groups");
    for (uint32_t k = 0; k < a.RenderGroupCount(); ++k) {
      auto x = a.RenderGroupMeshes(k), y = b.RenderGroupMeshes(k);
      VH_REQUIRE(c, x.size() == y.size() && a.OutlineCount(k) == b.OutlineCount(k) && a.RenderGroupFormat(k) == b.RenderGroupFormat(k), "shape", what, ": meshes of group ", (int)k);
      for (size_t i = 0; i < x.size(); ++i) {
        auto u = x[i].RawVertexData(), v = y[i].RawVertexData(); auto s = x[i].RawIndexData(), t = y[i].RawIndexData();
        VH_REQUIRE(c, std::ranges::equal(u, v) && std::ranges::equal(s, t), "shape", what, ": mesh ", (int)i);
      }
      for (uint32_t i = 0; i < a.OutlineCount(k); ++i) VH_REQUIRE(c, std::ranges::equal(a.Outline(k, i), b.Outline(k, i), [](auto& p, auto& q) { return p.mesh_index == q.mesh_index && p.vertex_index == q.vertex_index; }), "shape", what, ": outline ", (int)i);
    }
  }
  void CheckStroke(jlong h, const Stroke& w, const char* what) {
    auto& s = *(Stroke*)h;
    VH_REQUIRE(c, SameCoats(s.GetBrush().GetCoats(), w.GetBrush().GetCoats()) && s.GetBrush().GetSize() == w.GetBrush().GetSize() && s.GetBrush().GetColor() == w.GetBrush().GetColor(), "stroke-brush", what);
    jlong ih = CALL(j, strokes, StrokeJni, allocShallowCopyOfInputs, h), sh = CALL(j, strokes, StrokeJni, allocShallowCopyOfShape, h);
    S in{ih, w.GetInputs()}; CheckBatch(in, what);
    SameMeshes(*(PartitionedMesh*)sh, w.GetShape(), what);
    CALL(j, geometry, PartitionedMeshNative, free, sh); Free(in);
    c.Count("strokes compared");
  }
  struct L { jlong h; InProgressStroke s; };
  void WantEnv(Obj* o, const Envelope& e, const char* what) {
    auto& f = o->fields;
    if (e.IsEmpty()) { VH_REQUIRE(c, f.empty(), "box", what, " must be empty"); return; }
    Rect b = *e.AsRect();
    VH_REQUIRE(c, f.count("x0") && f["x0"].f == b.XMin() && f["y0"].f == b.YMin() && f["x1"].f == b.XMax() && f["y1"].f == b.YMax(), "box", what, ": x ", f["x0"].f, "..", f["x1"].f, " y ", f["y0"].f, "..", f["y1"].f, " want ", b);
  }
  void CheckLive(jlong h, const InProgressStroke& s) {
    auto num = [&](jint got, size_t want, const char* what) { VH_REQUIRE(c, got == (jint)want, "count", what, ": ", (int)got, " want ", (int)want); };
    num(CALL(j, strokes, InProgressStroke, nativeInputCount, h), s.InputCount(), "inputs"); num(CALL(j, strokes, InProgressStroke, nativeRealInputCount, h), s.RealInputCount(), "real inputs"); num(CALL(j, strokes, InProgressStroke, nativePredictedInputCount, h), s.PredictedInputCount(), "predicted inputs"); num(CALL(j, strokes, InProgressStroke, nativeBrushCoatCount, h), s.BrushCoatCount(), "coats");
    VH_REQUIRE(c, Bool(CALL(j, strokes, InProgressStroke, nativeIsInputFinished, h), "finished") == s.InputsAreFinished(), "finished"); VH_REQUIRE(c, Bool(CALL(j, strokes, InProgressStroke, nativeNeedsUpdate, h), "needs update") == s.NeedsUpdate(), "needs-update");
    auto dirty = [&] { Obj* o = j.New(PKG "/geometry/BoxAccumulator"); jvalue v; v.j = 0; v.f = 77; for (auto n : {"x0", "y0", "x1", "y1"}) o->fields[n] = v; return o; };
    Obj* o = dirty(); CALL(j, strokes, InProgressStroke, nativeFillUpdatedRegion, h, j.L(o)); j.NoThrow("nativeFillUpdatedRegion"); WantEnv(o, s.GetUpdatedRegion(), "updated region");
    std::vector<std::pair<Obj*, std::vector<uint16_t>>> buffers;
    for (int k = 0; k < (int)s.BrushCoatCount(); ++k) {
      auto& m = s.GetMesh(k);
      o = dirty(); CALL(j, strokes, InProgressStroke, nativeGetMeshBounds, h, k, j.L(o)); j.NoThrow("nativeGetMeshBounds"); WantEnv(o, s.GetMeshBounds(k), "mesh bounds");
      num(CALL(j, strokes, InProgressStroke, nativeGetMeshPartitionCount, h, k), 1, "partitions"); num(CALL(j, strokes, InProgressStroke, nativeGetVertexCount, h, k, 0), m.VertexCount(), "vertices"); num(CALL(j, strokes, InProgressStroke, nativeGetTriangleIndexStride, h, 0), 2, "index stride");
      auto outlines = s.GetCoatOutlines(k);
      num(CALL(j, strokes, InProgressStroke, nativeGetOutlineCount, h, k), outlines.size(), "outlines");
      for (int i = 0; i < (int)outlines.size(); ++i) {
        num(CALL(j, strokes, InProgressStroke, nativeGetOutlineVertexCount, h, k, i), outlines[i].size(), "outline vertices");
        for (int q = 0; q < 3 && !outlines[i].empty(); ++q) {
          int v = q == 0 ? 0 : (int)r.Below(outlines[i].size()); Obj* p = j.New(PKG "/geometry/MutableVec"); CALL(j, strokes, InProgressStroke, nativeFillOutlinePosition, h, k, i, v, j.L(p)); j.NoThrow("nativeFillOutlinePosition");
          Point w = m.VertexPosition(outlines[i][v]); VH_REQUIRE(c, p->fields.count("x") && p->fields.count("y") && SameF(p->fields["x"].f, w.x) && SameF(p->fields["y"].f, w.y), "outline-position", "vertex ", v, " of outline ", i);
        }
      }
      jobject vb = CALL(j, strokes, InProgressStroke, nativeGetRawVertexData, h, k, 0); j.NoThrow("nativeGetRawVertexData");
      auto raw = m.RawVertexData();
      if (!vb) VH_REQUIRE(c, raw.empty(), "vertex-buffer", "is missing"); else { Obj* b = j.vm.Get(vb, "buffer"); VH_REQUIRE(c, (size_t)b->cap == raw.size() && !std::memcmp(b->addr, raw.data(), raw.size()), "vertex-buffer"); }
      // All triangles up to the first that 16 bits cannot express.
      std::vector<uint16_t> want; bool cut = false;
      for (uint32_t t = 0; t < m.TriangleCount() && !cut; ++t) { auto ix = m.TriangleIndices(t); for (uint32_t x : ix) cut |= x > 65535; if (!cut) for (uint32_t x : ix) want.push_back((uint16_t)x); }
      if (cut) c.Count("meshes cut to 16 bits");
      jobject ib = CALL(j, strokes, InProgressStroke, nativeGetRawTriangleIndexData, h, k, 0); j.NoThrow("nativeGetRawTriangleIndexData");
      if (!ib) VH_REQUIRE(c, want.empty(), "index-buffer", "is missing"); else { Obj* b = j.vm.Get(ib, "buffer"); VH_REQUIRE(c, (size_t)b->cap == 2 * want.size() && !std::memcmp(b->addr, want.data(), b->cap), "index-buffer", (int)b->cap, " bytes want ", (int)(2 * want.size())); buffers.push_back({b, std::move(want)}); }
      jlong f = CALL(j, strokes, InProgressStroke, nativeAllocMeshFormatCopy, h, k, 0); VH_REQUIRE(c, *(MeshFormat*)f == m.Format(), "format"); CALL(j, geometry, MeshFormat, nativeFree, f);
      c.Sig(m.VertexCount());
    }
    // Buffers of one coat are still good after asking for those of others.
    for (auto& [b, want] : buffers) VH_REQUIRE(c, (size_t)b->cap == 2 * want.size() && !std::memcmp(b->addr, want.data(), b->cap), "index-buffer-kept", (int)b->cap, " bytes want ", (int)(2 * want.size()));
    if (s.InputCount()) {
      int i = r.Below(s.InputCount()); o = j.New(PKG "/strokes/StrokeInput"); CALL(j, strokes, InProgressStroke, nativeGetAndOverwriteInput, h, j.L(o), i, j.vm.Cls(PKG "/brush/InputToolType")); j.NoThrow("nativeGetAndOverwriteInput"); WantInput(o, s.GetInputs().Get(i), "nativeGetAndOverwriteInput");
      int from = r.Below(s.InputCount() + 1), to = r.Int(from, (int)s.InputCount());
      S t = NewBatch(); num(CALL(j, strokes, InProgressStroke, nativeFillInputs, h, t.h, from, to), s.InputCount(), "nativeFillInputs"); j.NoThrow("nativeFillInputs");
      for (int q = from; q < to; ++q) if (!t.b.Append(s.GetInputs().Get(q)).ok()) { VH_REQUIRE(c, false, "fill", "an input of a stroke is refused"); }
      CheckBatch(t, "nativeFillInputs"); Free(t);
    }
  }
  void Live(const B& b) {
    jlong h = CALL(j, strokes, InProgressStroke, nativeCreateInProgressStroke);
    InProgressStroke s;
    CheckLive(h, s);
    int rounds = r.Int(1, 2);
    for (int q = 0; q < rounds; ++q) {
      CALL(j, strokes, InProgressStroke, nativeStart, h, b.h); j.NoThrow("nativeStart"); s.Start(b.b);
      CheckLive(h, s);
      Pen pen(r, b.b); pen.t = 0; jlong now = 0;
      for (int n = r.Int(1, 8); n > 0; --n) {
        S real = NewBatch(), pred = NewBatch();
        if (r.Chance(.9)) AppendPen(real, pen, r.Int(1, 6), r.Chance(.8) || HasParticles(b.b));
        if (r.Chance(.4)) { Pen p2 = pen; AppendPen(pred, p2, r.Int(1, 4), true); }
        absl::Status st = s.EnqueueInputs(real.b, pred.b);
        WantMessage(CALL(j, strokes, InProgressStroke, nativeEnqueueInputs, h, real.h, pred.h), st, "nativeEnqueueInputs");
        if (st.ok()) c.Count("inputs enqueued", real.b.Size() + pred.b.Size());
        if (r.Chance(.7)) {
          if (r.Chance(.05)) now += r.Int(20000, 100000);  // long waits
          now = r.Chance(.9) ? std::max<jlong>(now, std::llround(pen.t * 1000)) : r.Int(-5, 50);
          st = s.UpdateShape(Duration32::Millis((float)now));
          WantMessage(CALL(j, strokes, InProgressStroke, nativeUpdateShape, h, now), st, "nativeUpdateShape");
        }
        Free(real); Free(pred);
        if (r.Chance(.15)) { CALL(j, strokes, InProgressStroke, nativeFinishInput, h); s.FinishInputs(); }
        if (r.Chance(.5)) CheckLive(h, s);
        if (r.Chance(.3)) { CALL(j, strokes, InProgressStroke, nativeResetUpdatedRegion, h); s.ResetUpdatedRegion(); }
        if (r.Chance(.2)) { jlong sh = CALL(j, strokes, InProgressStroke, nativeCopyToStroke, h); j.NoThrow("nativeCopyToStroke"); CheckStroke(sh, s.CopyToStroke(), "nativeCopyToStroke"); CALL(j, strokes, StrokeJni, free, sh); }
        j.vm.PopLocals();
      }
      CheckLive(h, s);
      if (r.Chance(.3)) { CALL(j, strokes, InProgressStroke, nativeClear, h); s.Clear(); CheckLive(h, s); }
    }
    CALL(j, strokes, InProgressStroke, nativeFreeInProgressStroke, h);
    c.Count("strokes in progress");
  }
  // More vertices than 16 bits can index.
  void Large(const B& b) {
    auto input = [](int i) { return StrokeInput{.tool_type = StrokeInput::ToolType::kTouch, .position = {i * 1500.f, 0}, .elapsed_time = Duration32::Millis(6 * i), .stroke_unit_length = PhysicalDistance::Centimeters(0)}; };
    constexpr int kN = 1350, kStep = 3;
    auto mirror = std::async(std::launch::async, [&] {
      auto s = std::make_unique<InProgressStroke>(); s->Start(b.b);
      for (int i = 0; i < kN; i += kStep) { StrokeInputBatch in; for (int k = i; k < i + kStep; ++k) if (!in.Append(input(k)).ok()) return s; if (!s->EnqueueInputs(in, {}).ok() || !s->UpdateShape(Duration32::Millis(6 * (i + kStep))).ok()) return s; }
      return s; });
    jlong h = CALL(j, strokes, InProgressStroke, nativeCreateInProgressStroke);
    CALL(j, strokes, InProgressStroke, nativeStart, h, b.h);
    S none = NewBatch();
    for (int i = 0; i < kN; i += kStep) {
      S in = NewBatch(); for (int k = i; k < i + kStep; ++k) { StrokeInput x = input(k); AppendOne(in, x.tool_type, x.position.x, x.position.y, 6 * k, 0, -1, -1, -1); }
      WantMessage(CALL(j, strokes, InProgressStroke, nativeEnqueueInputs, h, in.h, none.h), absl::OkStatus(), "nativeEnqueueInputs");
      WantMessage(CALL(j, strokes, InProgressStroke, nativeUpdateShape, h, 6 * (i + kStep)), absl::OkStatus(), "nativeUpdateShape");
      Free(in); j.vm.PopLocals();
    }
    Free(none);
    auto s = mirror.get();
    if (s->GetMesh(0).VertexCount() > 65536) c.Count("strokes with over 65536 vertices");
    CheckLive(h, *s);
    CALL(j, strokes, InProgressStroke, nativeFreeInProgressStroke, h);
  }
  void Strokes(const B& b) {
    S in = NewBatch(); Pen pen(r, b.b); AppendPen(in, pen, r.Int(0, 25), true);
    Stroke w(b.b, in.b);
    jlong h = CALL(j, strokes, StrokeJni, createWithBrushAndInputs, b.h, in.h); j.NoThrow("createWithBrushAndInputs");
    CheckStroke(h, w, "createWithBrushAndInputs");
    jlong shape = CALL(j, strokes, StrokeJni, allocShallowCopyOfShape, h);
    jlong h2 = CALL(j, strokes, StrokeJni, createWithBrushInputsAndShape, b.h, in.h, shape); j.NoThrow("createWithBrushInputsAndShape");
    // Freeing what it was made from changes nothing.
    CALL(j, geometry, PartitionedMeshNative, free, shape); CALL(j, strokes, StrokeJni, free, h);
    // Nor do later changes of the inputs.
    StrokeInputBatch kept = in.b; AppendPen(in, pen, r.Int(0, 3), true); if (r.Chance(.3)) { CALL(j, strokes, MutableStrokeInputBatchNative, clear, in.h); in.b.Clear(); }
    CheckBatch(in, "inputs of a stroke"); Free(in);
    CheckStroke(h2, Stroke(b.b, kept, w.GetShape()), "createWithBrushInputsAndShape");
    CALL(j, strokes, StrokeJni, free, h2);
    c.NonTrivial();
  }
};
// Runs a program and looks for heap blocks of native code that it left. Some
// may be kept on purpose, for the rest of the process or until the next stroke,
// so the program is run again: what the second run left and the third did not
// replace is lost.
template <typename P> void WithLeakCheck(Ctx& c, P program) {
  Rng start = c.rng;
  using W = jvm::HeapWatch;
  W::Start();
  for (int round = 0; round < 3; ++round) {
    c.rng = start; W::epoch = round;
    bool clean; std::string trace;
    { Java j(c); clean = program(j); trace = j.trace; if (!round) c.Sample(trace); }
    if (!clean) return;
    if (round < 2 && W::Count(round) == 0) return;
    if (round < 2) {  // replace what is kept until the next stroke
      W::epoch = 9; jvm::Native n;
      Stroke s(Brush::Create(BrushFamily(), Color::Black(), 10, 1).value(), StrokeInputBatch::Create({{.position = {0, 0}}, {.position = {30, 1}, .elapsed_time = Duration32::Seconds(.1f)}}).value());
    }
    if (round < 2 && W::Count(round) == 0) return;
    if (round == 2 && W::Count(1) != 0) { std::string what = W::Show(1); c.Fail("native-leak", (int)W::Count(1), " heap blocks of native code left: ", what, "; calls: ", trace); }
    c.Count("runs repeated for the leak check");
  }
}
}  // namespace

VH_PROPERTY(J01) {
  WithLeakCheck(c, [&](Java& j) {
    J1 x(c, j);
    int n = c.rng.Int(8, 24);
    bool meshes = c.rng.Chance(.5);
    for (int i = 0; i < n && !x.checks; ++i) {
      x.g.mode = Geo(c.rng).mode;
      if (c.rng.Chance(.15)) x.Utilities(); else x.Shapes();
      j.vm.PopLocals();
    }
    if (meshes && !x.checks) x.Meshes();
    if (meshes) c.NonTrivial();
    return !x.checks;
  });
}
// 10^5 or more points per turn, or particles per step of the pen.
static bool TooFine(const Brush& b) {
  if (b.GetSize() > 1e5f * b.GetEpsilon()) return true;
  for (const BrushCoat& c : b.GetCoats()) for (const BrushTip& t : c.tips) {
    float g = t.particle_gap_distance_scale;
    if (g > 0 && g < .2f) return true;
    if (g > 0 && b.GetSize() < 1e-4f) return true;  // the pen jitters by more
  }
  return false;
}
VH_PROPERTY(J02) {
  WithLeakCheck(c, [&](Java& j) {
    J2 x(c, j); Rng& r = c.rng;
    bool big = c.idx % 3000 == 7;
    if (!big && r.Chance(.3)) { x.Batches(); c.NonTrivial(); return true; }
    bool tame = big || r.Chance(.5);
    auto b = x.MakeBrush(tame, big);
    j.vm.PopLocals();
    if (b) {
      c.Sig(b->b.GetSize());
      if (big) x.Large(*b);
      else if (TooFine(b->b)) c.Count("brushes too fine for strokes");
      else { if (r.Chance(.5)) x.Strokes(*b); if (r.Chance(.6)) { x.Live(*b); c.NonTrivial(); } }
      CALL(j, brush, Brush, nativeFreeBrush, b->h);
    }
    return !x.checks && !big;
  });
}
}  // namespace vh
