// A recording stand-in for the part of Skia that ink's renderer calls. Nothing
// is rasterized: factories keep what they were given, with the validity checks
// that Skia documents, and a canvas keeps a log of what was drawn on it.
#ifndef VERIF_VSK_H_
#define VERIF_VSK_H_

#include <array>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "sksl.h"

class SkRefCnt {
 public:
  SkRefCnt() = default;
  SkRefCnt(const SkRefCnt&) = delete;
  SkRefCnt& operator=(const SkRefCnt&) = delete;
  virtual ~SkRefCnt() = default;
  void ref() const { n_.fetch_add(1); }
  void unref() const { if (n_.fetch_sub(1) == 1) delete this; }
  bool unique() const { return n_.load() == 1; }
 private:
  mutable std::atomic<int> n_{1};
};
using SkNVRefCntBase = SkRefCnt;

template <typename T>
class sk_sp {
 public:
  using element_type = T;
  constexpr sk_sp() : p_(nullptr) {}
  constexpr sk_sp(std::nullptr_t) : p_(nullptr) {}
  explicit sk_sp(T* p) : p_(p) {}
  sk_sp(const sk_sp& o) : p_(o.p_) { if (p_) p_->ref(); }
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  sk_sp(const sk_sp<U>& o) : p_(o.get()) { if (p_) p_->ref(); }
  sk_sp(sk_sp&& o) noexcept : p_(o.release()) {}
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  sk_sp(sk_sp<U>&& o) noexcept : p_(o.release()) {}
  ~sk_sp() { if (p_) p_->unref(); }
  sk_sp& operator=(std::nullptr_t) { reset(); return *this; }
  sk_sp& operator=(const sk_sp& o) { sk_sp t(o); swap(t); return *this; }
  sk_sp& operator=(sk_sp&& o) noexcept { sk_sp t(std::move(o)); swap(t); return *this; }
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  sk_sp& operator=(sk_sp<U> o) { sk_sp t(std::move(o)); swap(t); return *this; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  T* get() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  void reset(T* p = nullptr) { T* o = p_; p_ = p; if (o) o->unref(); }
  T* release() { T* p = p_; p_ = nullptr; return p; }
  void swap(sk_sp& o) { std::swap(p_, o.p_); }
 private:
  T* p_;
};
template <typename T, typename U> bool operator==(const sk_sp<T>& a, const sk_sp<U>& b) { return a.get() == b.get(); }
template <typename T> bool operator==(const sk_sp<T>& a, std::nullptr_t) { return !a; }
template <typename T, typename... A> sk_sp<T> sk_make_sp(A&&... a) { return sk_sp<T>(new T(std::forward<A>(a)...)); }
template <typename T> sk_sp<T> sk_ref_sp(T* p) { if (p) p->ref(); return sk_sp<T>(p); }

template <typename T>
class SkSpan {
 public:
  SkSpan() = default;
  SkSpan(T* p, size_t n) : p_(p), n_(n) {}
  template <typename C, typename = decltype(std::declval<C&>().data())>
  SkSpan(C&& c) : p_(c.data()), n_(c.size()) {}
  T* data() const { return p_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  T& operator[](size_t i) const { return p_[i]; }
 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};

class SkString {
 public:
  SkString() = default;
  explicit SkString(const char* s) : s_(s) {}
  explicit SkString(std::string_view s) : s_(s) {}
  SkString(const char* s, size_t n) : s_(s, n) {}
  const char* data() const { return s_.data(); }
  const char* c_str() const { return s_.c_str(); }
  size_t size() const { return s_.size(); }
  bool isEmpty() const { return s_.empty(); }
  bool equals(const SkString& o) const { return s_ == o.s_; }
  friend bool operator==(const SkString& a, const SkString& b) { return a.s_ == b.s_; }
 private:
  std::string s_;
};

class SkData : public SkRefCnt {
 public:
  // Memory that was not written shows up as NaN in a float.
  static sk_sp<SkData> MakeUninitialized(size_t n) { return sk_sp<SkData>(new SkData(n)); }
  static sk_sp<SkData> MakeWithCopy(const void* p, size_t n) {
    auto d = MakeUninitialized(n);
    if (n) memcpy(d->b_.data(), p, n);
    return d;
  }
  size_t size() const { return b_.size(); }
  bool empty() const { return b_.empty(); }
  const void* data() const { return b_.data(); }
  const uint8_t* bytes() const { return b_.data(); }
  void* writable_data() {
    if (!unique()) shared_writes++;
    return b_.data();
  }
  inline static std::atomic<int> shared_writes{0};  // writes to data that someone else holds
 private:
  explicit SkData(size_t n) : b_(n, 0xff) {}
  std::vector<uint8_t> b_;
};

enum SkAlphaType : int { kUnknown_SkAlphaType, kOpaque_SkAlphaType, kPremul_SkAlphaType, kUnpremul_SkAlphaType };
enum SkColorType : int { kUnknown_SkColorType, kAlpha_8_SkColorType, kRGB_565_SkColorType, kARGB_4444_SkColorType, kRGBA_8888_SkColorType, kRGB_888x_SkColorType, kBGRA_8888_SkColorType };
enum class SkBlendMode { kClear, kSrc, kDst, kSrcOver, kDstOver, kSrcIn, kDstIn, kSrcOut, kDstOut, kSrcATop, kDstATop, kXor, kPlus, kModulate, kScreen };
enum class SkTileMode { kClamp, kRepeat, kMirror, kDecal };
enum class SkPathFillType { kWinding, kEvenOdd, kInverseWinding, kInverseEvenOdd };

struct skcms_TransferFunction { float g, a, b, c, d, e, f; };
struct skcms_Matrix3x3 { float vals[3][3]; };
namespace SkNamedTransferFn {
inline constexpr skcms_TransferFunction kSRGB = {2.4f, 1 / 1.055f, 0.055f / 1.055f, 1 / 12.92f, 0.04045f, 0, 0};
inline constexpr skcms_TransferFunction k2Dot2 = {2.2f, 1, 0, 0, 0, 0, 0};
inline constexpr skcms_TransferFunction kLinear = {1, 1, 0, 0, 0, 0, 0};
}
namespace SkNamedGamut {
inline constexpr skcms_Matrix3x3 kSRGB = {{{0.436065674f, 0.385147095f, 0.143066406f}, {0.222488403f, 0.716873169f, 0.060607910f}, {0.013916016f, 0.097076416f, 0.714096069f}}};
inline constexpr skcms_Matrix3x3 kAdobeRGB = {{{0.60974f, 0.20528f, 0.14919f}, {0.31111f, 0.62567f, 0.06322f}, {0.01947f, 0.06087f, 0.74457f}}};
inline constexpr skcms_Matrix3x3 kDisplayP3 = {{{0.515102f, 0.291965f, 0.157153f}, {0.241182f, 0.692236f, 0.0665819f}, {-0.00104941f, 0.0418818f, 0.784378f}}};
}
class SkColorSpace : public SkRefCnt {
 public:
  enum Gamut { kSrgbGamut, kP3Gamut, kOtherGamut };
  static sk_sp<SkColorSpace> MakeSRGB() { return sk_sp<SkColorSpace>(new SkColorSpace(kSrgbGamut, false)); }
  static sk_sp<SkColorSpace> MakeSRGBLinear() { return sk_sp<SkColorSpace>(new SkColorSpace(kSrgbGamut, true)); }
  static sk_sp<SkColorSpace> MakeRGB(const skcms_TransferFunction& t, const skcms_Matrix3x3& m) {
    bool lin = memcmp(&t, &SkNamedTransferFn::kLinear, sizeof t) == 0, srgb = memcmp(&t, &SkNamedTransferFn::kSRGB, sizeof t) == 0;
    Gamut g = memcmp(&m, &SkNamedGamut::kSRGB, sizeof m) == 0 ? kSrgbGamut : memcmp(&m, &SkNamedGamut::kDisplayP3, sizeof m) == 0 ? kP3Gamut : kOtherGamut;
    if (!lin && !srgb) g = kOtherGamut;
    return sk_sp<SkColorSpace>(new SkColorSpace(g, lin));
  }
  Gamut gamut;
  bool linear;
 private:
  SkColorSpace(Gamut g, bool l) : gamut(g), linear(l) {}
};

struct SkISize {
  int32_t fWidth = 0, fHeight = 0;
  int32_t width() const { return fWidth; }
  int32_t height() const { return fHeight; }
};
struct SkRect {
  float fLeft = 0, fTop = 0, fRight = 0, fBottom = 0;
  static SkRect MakeLTRB(float l, float t, float r, float b) { return {l, t, r, b}; }
  static SkRect MakeEmpty() { return {}; }
  float left() const { return fLeft; }
  float top() const { return fTop; }
  float right() const { return fRight; }
  float bottom() const { return fBottom; }
};
class SkMatrix {
 public:
  float m[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  static SkMatrix MakeAll(float a, float b, float c, float d, float e, float f, float g, float h, float i) {
    SkMatrix r;
    float v[9] = {a, b, c, d, e, f, g, h, i};
    memcpy(r.m, v, sizeof v);
    return r;
  }
  static SkMatrix I() { return {}; }
};
class SkM44 {
 public:
  float m[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};  // rows
  SkM44() = default;
  SkM44(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j, float k, float l, float n, float o, float p, float q) {
    float v[16] = {a, b, c, d, e, f, g, h, i, j, k, l, n, o, p, q};
    memcpy(m, v, sizeof v);
  }
};

using SkColor = uint32_t;
inline constexpr SkColor SK_ColorWHITE = 0xffffffff;
inline constexpr SkColor SK_ColorBLACK = 0xff000000;
inline constexpr SkColor SK_ColorTRANSPARENT = 0;
struct SkColor4f { float fR, fG, fB, fA; };

class SkBlender : public SkRefCnt {
 public:
  static sk_sp<SkBlender> Mode(SkBlendMode m) { return sk_sp<SkBlender>(new SkBlender(m)); }
  SkBlendMode mode;
 private:
  explicit SkBlender(SkBlendMode m) : mode(m) {}
};

struct SkImageInfo {
  int w = 0, h = 0;
  SkColorType ct = kUnknown_SkColorType;
  SkAlphaType at = kUnknown_SkAlphaType;
  sk_sp<SkColorSpace> cs;
  static SkImageInfo Make(int w, int h, SkColorType ct, SkAlphaType at, sk_sp<SkColorSpace> cs = nullptr) { return {w, h, ct, at, std::move(cs)}; }
  size_t computeMinByteSize() const { return ct == kRGBA_8888_SkColorType ? size_t{4} * w * h : 0; }
};
class SkImage : public SkRefCnt {
 public:
  SkImageInfo info;
  std::vector<uint8_t> pixels;
  SkISize dimensions() const { return {info.w, info.h}; }
  int width() const { return info.w; }
  int height() const { return info.h; }
};
class SkBitmap {
 public:
  bool tryAllocPixels(const SkImageInfo& i) {
    if (i.w < 0 || i.h < 0 || i.computeMinByteSize() == 0) return false;
    info_ = i;
    px_.assign(i.computeMinByteSize(), 0xcd);
    return true;
  }
  void allocPixels(const SkImageInfo& i) { if (!tryAllocPixels(i)) abort(); }
  void* getPixels() { return px_.data(); }
  void setImmutable() {}
  sk_sp<SkImage> asImage() const {
    auto r = sk_make_sp<SkImage>();
    r->info = info_;
    r->pixels = px_;
    return r;
  }
 private:
  SkImageInfo info_;
  std::vector<uint8_t> px_;
};

enum class SkFilterMode { kNearest, kLinear };
struct SkSamplingOptions {
  SkFilterMode filter = SkFilterMode::kNearest;
  SkSamplingOptions() = default;
  explicit SkSamplingOptions(SkFilterMode f) : filter(f) {}
};
class SkShader : public SkRefCnt {
 public:
  enum Kind { kImage, kLocalMatrix, kBlend, kOther } kind = kOther;
  SkMatrix matrix;
  sk_sp<SkImage> image;
  SkTileMode tx = SkTileMode::kClamp, ty = SkTileMode::kClamp;
  SkBlendMode mode = SkBlendMode::kSrcOver;
  sk_sp<SkShader> a, b;  // local matrix: a; blend: a is dst, b is src
  sk_sp<SkShader> makeWithLocalMatrix(const SkMatrix& m) const {
    auto r = sk_make_sp<SkShader>();
    r->kind = kLocalMatrix;
    r->matrix = m;
    r->a = sk_ref_sp(const_cast<SkShader*>(this));
    return r;
  }
};
namespace SkShaders {
inline sk_sp<SkShader> Image(sk_sp<SkImage> i, SkTileMode x, SkTileMode y, const SkSamplingOptions&, const SkMatrix* m = nullptr) {
  auto r = sk_make_sp<SkShader>();
  r->kind = SkShader::kImage;
  r->image = std::move(i);
  r->tx = x;
  r->ty = y;
  if (m) r->matrix = *m;
  return r;
}
inline sk_sp<SkShader> Blend(SkBlendMode mode, sk_sp<SkShader> dst, sk_sp<SkShader> src) {
  auto r = sk_make_sp<SkShader>();
  r->kind = SkShader::kBlend;
  r->mode = mode;
  r->a = std::move(dst);
  r->b = std::move(src);
  return r;
}
}  // namespace SkShaders

class SkPaint {
 public:
  enum Style { kFill_Style, kStroke_Style, kStrokeAndFill_Style };
  void setShader(sk_sp<SkShader> s) { shader = std::move(s); }
  void setColor(SkColor c) {
    color = {((c >> 16) & 255) / 255.f, ((c >> 8) & 255) / 255.f, (c & 255) / 255.f, (c >> 24) / 255.f};
    color_space = nullptr;
  }
  void setColor(const SkColor4f& c, SkColorSpace* cs = nullptr) {
    color = c;
    color_space = sk_ref_sp(cs);
  }
  void setColor4f(const SkColor4f& c, SkColorSpace* cs = nullptr) { setColor(c, cs); }
  void setAntiAlias(bool b) { aa = b; }
  void setStyle(Style s) { style = s; }
  void setBlender(sk_sp<SkBlender> b) { blender = std::move(b); }
  void setBlendMode(SkBlendMode m) { blender = SkBlender::Mode(m); }
  sk_sp<SkShader> shader;
  sk_sp<SkBlender> blender;
  SkColor4f color = {0, 0, 0, 1};
  sk_sp<SkColorSpace> color_space;  // null: sRGB
  bool aa = false;
  Style style = kFill_Style;
};

class SkPath {
 public:
  enum Verb { kMove, kLine, kClose };
  struct Step { Verb v; float x, y; };
  void setFillType(SkPathFillType f) { fill = f; }
  void moveTo(float x, float y) { steps.push_back({kMove, x, y}); }
  void lineTo(float x, float y) { steps.push_back({kLine, x, y}); }
  void close() { steps.push_back({kClose, 0, 0}); }
  std::vector<Step> steps;
  SkPathFillType fill = SkPathFillType::kWinding;
};

class GrDirectContext : public SkRefCnt {};

class SkMeshSpecification : public SkRefCnt {
 public:
  static constexpr size_t kMaxStride = 1024, kMaxAttributes = 8, kStrideAlignment = 4, kOffsetAlignment = 4, kMaxVaryings = 6;
  struct Attribute {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kUByte4_unorm };
    Type type;
    size_t offset;
    SkString name;
  };
  struct Varying {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kHalf, kHalf2, kHalf3, kHalf4 };
    Type type;
    SkString name;
  };
  struct Uniform {
    enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kFloat2x2, kFloat3x3, kFloat4x4, kInt, kInt2, kInt3, kInt4 };
    std::string_view name;
    size_t offset;
    Type type;
    int count = 1;
    uint32_t flags = 0;
    size_t sizeInBytes() const { return type == Type::kInt || type == Type::kFloat ? 4 : type == Type::kFloat2 ? 8 : type == Type::kFloat3 ? 12 : 16; }
  };
  struct Result {
    sk_sp<SkMeshSpecification> specification;
    SkString error;
  };
  static Result Make(SkSpan<const Attribute> attributes, size_t stride, SkSpan<const Varying> varyings, const SkString& vs, const SkString& fs) {
    return Make(attributes, stride, varyings, vs, fs, SkColorSpace::MakeSRGB(), kPremul_SkAlphaType);
  }
  static Result Make(SkSpan<const Attribute> attributes, size_t stride, SkSpan<const Varying> varyings, const SkString& vs, const SkString& fs, sk_sp<SkColorSpace> cs,
                     SkAlphaType at = kPremul_SkAlphaType);
  SkSpan<const Attribute> attributes() const { return SkSpan<const Attribute>(attributes_.data(), attributes_.size()); }
  size_t uniformSize() const { return uniform_size_; }
  SkSpan<const Uniform> uniforms() const { return SkSpan<const Uniform>(uniforms_.data(), uniforms_.size()); }
  const Uniform* findUniform(std::string_view n) const {
    for (const Uniform& u : uniforms_)
      if (u.name == n) return &u;
    return nullptr;
  }
  const Attribute* findAttribute(std::string_view n) const {
    for (const Attribute& a : attributes_)
      if (std::string_view(a.name.data(), a.name.size()) == n) return &a;
    return nullptr;
  }
  size_t stride() const { return stride_; }
  SkColorSpace* colorSpace() const { return cs_.get(); }

  const sksl::Program& vertex() const { return *vs_; }
  const sksl::Program& fragment() const { return *fs_; }
  const std::vector<Varying>& varyings() const { return varyings_; }
  SkAlphaType alphaType() const { return at_; }

 private:
  SkMeshSpecification() = default;
  std::vector<Attribute> attributes_;
  std::vector<Varying> varyings_;
  std::vector<Uniform> uniforms_;
  std::vector<std::string> names_;
  size_t uniform_size_ = 0, stride_ = 0;
  std::unique_ptr<sksl::Program> vs_, fs_;
  sk_sp<SkColorSpace> cs_;
  SkAlphaType at_ = kPremul_SkAlphaType;
};

namespace vsk {
inline sksl::StructDef AttributesStruct(SkSpan<const SkMeshSpecification::Attribute> as) {
  using T = SkMeshSpecification::Attribute::Type;
  sksl::StructDef d{"Attributes", {}};
  for (const auto& a : as) {
    sksl::Type t{sksl::kFloat, 1};
    if (a.type == T::kFloat2) t.n = 2;
    if (a.type == T::kFloat3) t.n = 3;
    if (a.type == T::kFloat4) t.n = 4;
    if (a.type == T::kUByte4_unorm) t = {sksl::kHalf, 4};
    d.fields.push_back({std::string(a.name.data(), a.name.size()), t});
  }
  return d;
}
inline sksl::StructDef VaryingsStruct(SkSpan<const SkMeshSpecification::Varying> vs) {
  sksl::StructDef d{"Varyings", {}};
  bool position = false;
  for (const auto& v : vs) {
    int k = static_cast<int>(v.type);
    std::string n(v.name.data(), v.name.size());
    position |= n == "position";
    d.fields.push_back({n, {k < 4 ? sksl::kFloat : sksl::kHalf, k % 4 + 1}});
  }
  if (!position) d.fields.push_back({"position", {sksl::kFloat, 2}});
  return d;
}
}  // namespace vsk

inline SkMeshSpecification::Result SkMeshSpecification::Make(SkSpan<const Attribute> attributes, size_t stride, SkSpan<const Varying> varyings, const SkString& vs,
                                                             const SkString& fs, sk_sp<SkColorSpace> cs, SkAlphaType at) {
  auto fail = [](const std::string& s) { return Result{nullptr, SkString(s)}; };
  if (attributes.empty() || attributes.size() > kMaxAttributes) return fail("number of attributes");
  if (stride == 0 || stride > kMaxStride || stride % kStrideAlignment != 0) return fail("stride");
  if (varyings.size() > kMaxVaryings) return fail("number of varyings");
  for (const Attribute& a : attributes) {
    static const size_t sz[] = {4, 8, 12, 16, 4};
    if (a.offset % kOffsetAlignment != 0) return fail("alignment of an attribute");
    if (a.offset >= stride || a.offset + sz[static_cast<int>(a.type)] > stride) return fail("attribute outside of the vertex");
    for (const Attribute& b : attributes)
      if (&a != &b && a.name == b.name) return fail("attribute names");
  }
  for (const Varying& a : varyings)
    for (const Varying& b : varyings)
      if (&a != &b && a.name == b.name) return fail("varying names");
  sk_sp<SkMeshSpecification> r(new SkMeshSpecification);
  r->attributes_.assign(attributes.begin(), attributes.end());
  r->varyings_.assign(varyings.begin(), varyings.end());
  r->stride_ = stride;
  r->cs_ = std::move(cs);
  r->at_ = at;
  try {
    std::vector<sksl::StructDef> ds{vsk::AttributesStruct(attributes), vsk::VaryingsStruct(varyings)};
    r->vs_ = std::make_unique<sksl::Program>(std::string(vs.data(), vs.size()), ds);
    ds.erase(ds.begin());
    r->fs_ = std::make_unique<sksl::Program>(std::string(fs.data(), fs.size()), ds);
  } catch (const sksl::Bad& e) {
    return fail(std::string("shader: ") + e.what());
  }
  const sksl::Func* vm = r->vs_->Find("main");
  if (vm == nullptr || vm->ret.b != sksl::kStruct || vm->params.size() != 1) return fail("vertex main");
  const sksl::Func* fm = r->fs_->Find("main");
  if (fm == nullptr || fm->params.empty() || fm->params.size() > 2) return fail("fragment main");
  for (const sksl::Program* p : {r->vs_.get(), r->fs_.get()}) {
    for (const sksl::Uniform& u : p->uniforms()) {
      bool have = false;
      for (const std::string& n : r->names_) have |= n == u.name;
      if (have) continue;
      r->names_.push_back(u.name);
      Uniform v;
      v.type = u.type.b == sksl::kInt ? (u.type.n == 1 ? Uniform::Type::kInt : Uniform::Type::kInt2)
               : u.type.b == sksl::kMat ? Uniform::Type::kFloat2x2 : static_cast<Uniform::Type>(u.type.n - 1);
      size_t al = v.sizeInBytes() == 12 ? 16 : v.sizeInBytes();
      r->uniform_size_ = (r->uniform_size_ + al - 1) / al * al;
      v.offset = r->uniform_size_;
      r->uniform_size_ += v.sizeInBytes();
      r->uniforms_.push_back(v);
    }
  }
  for (size_t i = 0; i < r->uniforms_.size(); ++i) r->uniforms_[i].name = r->names_[i];
  r->uniform_size_ = (r->uniform_size_ + 3) / 4 * 4;
  return {r, SkString()};
}

class SkMesh {
 public:
  class Buffer : public SkRefCnt {
   public:
    std::vector<uint8_t> b;
    size_t size() const { return b.size(); }
  };
  class VertexBuffer : public Buffer {};
  class IndexBuffer : public Buffer {};
  enum class Mode { kTriangles, kTriangleStrip };
  struct ChildPtr {};
  struct Result;
  static Result MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount, size_t ioff,
                            sk_sp<const SkData> uniforms, SkSpan<ChildPtr> children, const SkRect& bounds);
  bool isValid() const { return spec != nullptr; }
  sk_sp<SkMeshSpecification> spec;
  sk_sp<VertexBuffer> vb;
  sk_sp<IndexBuffer> ib;
  sk_sp<const SkData> uniforms;
  Mode mode = Mode::kTriangles;
  size_t vcount = 0, voff = 0, icount = 0, ioff = 0;
  SkRect bounds;
};
struct SkMesh::Result {
  SkMesh mesh;
  SkString error;
};
inline SkMesh::Result SkMesh::MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount,
                                          size_t ioff, sk_sp<const SkData> uniforms, SkSpan<ChildPtr>, const SkRect& bounds) {
  auto fail = [](const char* s) { return Result{SkMesh(), SkString(s)}; };
  if (!spec) return fail("no specification");
  if (!vb) return fail("no vertex buffer");
  if (!ib) return fail("no index buffer");
  if (vcount < 3) return fail("at least three vertices are needed");
  if (icount < 3) return fail("at least three indices are needed");
  if (vcount > (size_t{1} << 40) || voff > (size_t{1} << 40) || voff + vcount * spec->stride() > vb->size()) return fail("the vertex buffer is too small");
  if (voff % spec->stride() != 0) return fail("vertex offset");
  if (icount > (size_t{1} << 40) || ioff > (size_t{1} << 40) || ioff + 2 * icount > ib->size()) return fail("the index buffer is too small");
  if (ioff % 2 != 0) return fail("index offset");
  if (spec->uniformSize() != 0 && (!uniforms || uniforms->size() < spec->uniformSize())) return fail("uniform data is too small");
  SkMesh m;
  m.spec = std::move(spec);
  m.vb = std::move(vb);
  m.ib = std::move(ib);
  m.uniforms = std::move(uniforms);
  m.mode = mode;
  m.vcount = vcount; m.voff = voff; m.icount = icount; m.ioff = ioff;
  m.bounds = bounds;
  return {m, SkString()};
}

namespace SkMeshes {
template <typename T>
sk_sp<T> VskBuffer(const void* data, size_t size) {
  auto r = sk_make_sp<T>();
  if (data) r->b.assign(static_cast<const uint8_t*>(data), static_cast<const uint8_t*>(data) + size);
  else r->b.assign(size, 0);
  return r;
}
inline sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(GrDirectContext*, const void* data, size_t size) { return VskBuffer<SkMesh::VertexBuffer>(data, size); }
inline sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(GrDirectContext*, const void* data, size_t size) { return VskBuffer<SkMesh::IndexBuffer>(data, size); }
}  // namespace SkMeshes

class SkCanvas {
 public:
  struct Draw {
    bool is_mesh;
    SkM44 matrix;
    SkMesh mesh;
    sk_sp<SkBlender> blender;
    SkPath path;
    SkPaint paint;
  };
  std::vector<Draw> draws;
  int save() { stack_.push_back(matrix_); return stack_.size(); }
  void restore() { if (!stack_.empty()) { matrix_ = stack_.back(); stack_.pop_back(); } }
  void setMatrix(const SkM44& m) { matrix_ = m; }
  void concat(const SkM44& o) {
    SkM44 r;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) {
        r.m[4 * i + j] = 0;
        for (int k = 0; k < 4; ++k) r.m[4 * i + j] += matrix_.m[4 * i + k] * o.m[4 * k + j];
      }
    matrix_ = r;
  }
  const SkM44& matrix() const { return matrix_; }
  void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& p) { draws.push_back({true, matrix_, m, std::move(b), SkPath(), p}); }
  void drawPath(const SkPath& p, const SkPaint& q) { draws.push_back({false, matrix_, SkMesh(), nullptr, p, q}); }
 private:
  SkM44 matrix_;
  std::vector<SkM44> stack_;
};

#endif  // VERIF_VSK_H_
