// T01 durations, T02 asset URIs, T03 value containers, C01 colors.
#include "vh_main.h"
#include "gen.h"
#include "absl/time/time.h"
#include "ink/color/color.h"
#include "ink/color/color_helpers.h"
#include "ink/color/color_space.h"
#include "ink/types/duration.h"
#include "ink/types/internal/copy_on_write.h"
#include "ink/types/iterator_range.h"
#include "ink/types/physical_distance.h"
#include "ink/types/small_array.h"
#include "ink/types/uri.h"
#include "absl/hash/hash.h"

using namespace vh;
using ink::Duration32;
using ink::PhysicalDistance;
using ink::Uri;

// ---------------------------------------------------------------- T01
namespace {
Duration32 AnyDuration(Rng& r) {
  switch (r.Below(4)) {
    case 0: return Duration32::Millis(AnyFloat(r));
    case 1: return r.Of({Duration32::Zero(), Duration32::Infinite(), -Duration32::Infinite(), Duration32::Zero() * -1.f});
    default: return Duration32::Seconds(AnyFloat(r));
  }
}
void CheckNotNan(Ctx& c, Duration32 d, const char* what) {
  VH_REQUIRE(c, !std::isnan(d.ToSeconds()), "duration-nan", what, " gave NaN seconds");
  VH_REQUIRE(c, !std::isnan(d.ToMillis()), "duration-nan", what, " gave NaN millis");
}
}  // namespace
VH_PROPERTY(T01) {
  // A random straight-line program over durations with a model in IEEE terms.
  Rng& r = c.rng;
  std::string trace;
  std::vector<Duration32> regs;
  float f0 = AnyFloat(r);
  Duration32 s = Duration32::Seconds(f0);
  VH_REQUIRE(c, SameF(s.ToSeconds(), std::isnan(f0) ? kInf : f0), "seconds-factory", f0);
  CheckNotNan(c, s, "Seconds");
  float f1 = AnyFloat(r);
  Duration32 m = Duration32::Millis(f1);
  CheckNotNan(c, m, "Millis");
  if (std::isnan(f1)) VH_REQUIRE(c, m == Duration32::Infinite(), "millis-factory", f1);
  else if (!std::isfinite(f1)) VH_REQUIRE(c, SameF(m.ToSeconds(), f1), "millis-factory", f1);
  else if (std::fabs(f1) > 1e-30) {
    double want = (double)f1 * 1e-3;
    VH_REQUIRE(c, std::fabs(m.ToSeconds() - want) <= 4e-7 * std::fabs(want), "millis-factory", f1, " -> ", m.ToSeconds());
    if (std::fabs(f1) < 1e34) VH_REQUIRE(c, std::fabs((double)m.ToMillis() - (double)f1) <= 4e-7 * std::fabs((double)f1), "millis-round-trip", f1, " -> ", m.ToMillis());
  }
  // absl conversions.
  {
    absl::Duration a = s.ToAbseil();
    VH_REQUIRE(c, (a == absl::InfiniteDuration()) == (s.ToSeconds() >= 9.2233720368547758e18f || s == Duration32::Infinite()), "to-absl", f0);
    VH_REQUIRE(c, (a == -absl::InfiniteDuration()) == (s.ToSeconds() <= -9.2233720368547758e18f), "to-absl", f0);
    if (std::fabs(s.ToSeconds()) < 1e15f && std::fabs(s.ToSeconds()) > 1e-2f) {
      Duration32 back(a);
      VH_REQUIRE(c, Ulps(back.ToSeconds(), s.ToSeconds()) <= 1, "absl-round-trip", s.ToSeconds(), " ", back.ToSeconds());
    }
    VH_REQUIRE(c, Duration32(absl::InfiniteDuration()) == Duration32::Infinite() && Duration32(-absl::InfiniteDuration()) == -Duration32::Infinite(), "from-absl-inf");
  }
  regs = {s, m, AnyDuration(r), Duration32::Zero()};
  int ops = r.Int(4, 16), infs = 0;
  for (int i = 0; i < ops; ++i) {
    size_t ia = r.Below(regs.size()), ib = r.Below(regs.size());
    Duration32 a = regs[ia], b = regs[ib];
    float x = a.ToSeconds(), y = b.ToSeconds(), k = AnyFloat(r);
    Duration32 got;
    float want = 0;
    int op = r.Int(0, 8);
    const bool assign = r.Chance(.4);
    switch (op) {
      case 0: want = std::isinf(x) ? x : x + y; if (assign) { got = a; got += b; } else got = a + b; break;
      case 1: want = std::isinf(x) ? x : x - y; if (assign) { got = a; got -= b; } else got = a - b; break;
      case 2: case 3:
        want = x * k;
        if (std::isnan(k)) want = x >= 0 ? kInf : -kInf;
        else if (std::isinf(x) || std::isinf(k)) want = (x >= 0) == (k >= 0) ? kInf : -kInf;  // 0 * inf and inf * 0 saturate
        if (op == 3) got = k * a; else if (assign) { got = a; got *= k; } else got = a * k;
        break;
      case 4:
        want = x / k;
        if (std::isnan(k)) want = x >= 0 ? kInf : -kInf;
        else if (std::isinf(x)) want = (x >= 0) == (k >= 0) ? kInf : -kInf;
        else if (x == 0 && k == 0) want = NAN;  // either infinity, see below
        if (assign) { got = a; got /= k; } else got = a / k;
        break;
      case 5: {
        float q = a / b;
        VH_REQUIRE(c, !std::isnan(q), "duration-ratio-nan", x, " / ", y);
        float w = x / y;
        if (y == 0) w = x >= 0 ? kInf : -kInf;
        else if (std::isinf(x)) w = (x >= 0) == (y >= 0) ? kInf : -kInf;
        VH_REQUIRE(c, SameF(q, w) || (q == 0 && w == 0), "duration-ratio", x, " / ", y, " = ", q, ", want ", w);
        if (std::isinf(q)) ++infs;
        c.Sig(q);
        c.Count("ratios");
        continue;
      }
      case 6: want = -x; got = -a; break;
      case 7: {
        VH_REQUIRE(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "duration-order", x, " vs ", y);
        VH_REQUIRE(c, (a < b) + (a == b) + (a > b) == 1, "duration-total-order", x, " vs ", y);
        VH_REQUIRE(c, a.IsFinite() == std::isfinite(x), "duration-isfinite", x);
        if (x == 0) VH_REQUIRE(c, -a == a && absl::Hash<Duration32>()(a) == absl::Hash<Duration32>()(-a), "duration-hash", "zero and its negation");
        if (a == b) VH_REQUIRE(c, absl::Hash<Duration32>()(a) == absl::Hash<Duration32>()(b), "duration-hash", x, " vs ", y);
        continue;
      }
      case 8: {
        std::string t = absl::StrCat(a);
        // An infinite duration prints as inf; a finite one never does.
        VH_REQUIRE(c, (t == "inf" || t == "-inf") == !a.IsFinite(), "duration-format", x, " printed as ", t);
        continue;
      }
    }
    CheckNotNan(c, got, "arithmetic");
    if (std::isnan(want)) VH_REQUIRE(c, !got.IsFinite(), "duration-zero-by-zero", x, " op ", op, " ", k);
    else VH_REQUIRE(c, got.ToSeconds() == want, "duration-arith", "op ", op, " x=", x, " y=", y, " k=", k, " got ", got.ToSeconds(), " want ", want);
    if (!got.IsFinite()) ++infs;
    c.Count(got.IsFinite() ? "finite results" : "infinite results");
    c.Sig(op); c.Sig(got.ToSeconds());
    regs.push_back(got);
    if (c.want_sample) trace += Cat(" op", op, "(", x, ",", y, ",", k, ")=", got.ToSeconds());
  }
  c.Sample("Seconds(", f0, ") Millis(", f1, ")", trace);
  if (infs) c.NonTrivial();
}

// ---------------------------------------------------------------- T02
namespace {
struct UriModel {
  bool ok = false;
  bool uninit = false;
  std::string reg = "ink", type, name;
  int rev = 1;
};
bool LowHyphen(std::string_view s) {
  if (s.empty()) return false;
  for (char ch : s) if (!((ch >= 'a' && ch <= 'z') || ch == '-')) return false;
  return true;
}
UriModel ParseModel(std::string s) {
  UriModel m;
  if (s.empty()) { m.ok = m.uninit = true; m.reg = ""; m.rev = 0; return m; }
  if (s.size() >= 4) {
    std::string h;
    for (int i = 0; i < 4; ++i) h += (char)(s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]);
    if (h == "ink:") s = s.substr(4);
  }
  if (s.rfind("//", 0) == 0) {
    size_t e = s.find('/', 2);
    if (e == std::string::npos) return m;
    m.reg = s.substr(2, e - 2);
    if (!LowHyphen(m.reg)) return m;
    s = s.substr(e);
  }
  if (s.empty() || s[0] != '/') return m;
  s = s.substr(1);
  std::vector<std::string> parts{""};
  for (char ch : s) if (ch == ':') parts.emplace_back(); else parts.back() += ch;
  if (parts.size() < 2 || parts.size() > 3) return m;
  m.type = parts[0]; m.name = parts[1];
  if (m.type != "brush-family" && m.type != "texture") return m;
  if (!LowHyphen(m.name)) return m;
  if (parts.size() == 3) {
    const std::string& v = parts[2];
    if (v.empty() || v.size() > 9 || v[0] == '0') return m;
    int64_t n = 0;
    for (char ch : v) { if (ch < '0' || ch > '9') return m; n = n * 10 + (ch - '0'); }
    m.rev = (int)n;
  }
  m.ok = true;
  return m;
}
std::string GenName(Rng& r) {
  std::string s;
  int n = r.Int(1, r.Chance(.05) ? 200 : 8);
  for (int i = 0; i < n; ++i) s += r.Chance(.15) ? '-' : (char)('a' + r.Below(26));
  return s;
}
std::string GenUri(Rng& r) {
  std::string s;
  switch (r.Below(6)) {
    case 0: s += "ink:"; break;
    case 1: { std::string k = "ink:"; for (char& ch : k) if (ch != ':' && r.Chance(.5)) ch -= 32; s += k; break; }
    case 2: if (r.Chance(.2)) s += r.Of<const char*>({"inks:", "in:", "http:", "ink", ":", "ink::", " ink:", "ink:ink:"}); break;
    default: break;
  }
  if (r.Chance(.5)) { s += "//"; s += r.Chance(.3) ? "ink" : r.Chance(.95) ? GenName(r) : ""; }
  if (r.Chance(.98)) s += "/";
  s += r.Chance(.93) ? (r.Chance(.5) ? "brush-family" : "texture") : r.Of<const char*>({"brush", "brush-familyx", "textures", "Texture", "", "uninitialized", "brush-family-", "textur"});
  if (r.Chance(.98)) s += ":";
  s += r.Chance(.97) ? GenName(r) : "";
  if (r.Chance(.6)) {
    s += ":";
    if (r.Chance(.6)) s += std::to_string(r.Of<int>({1, 1, 2, 3, 9, 10, 123, 999999999, 100000000, (int)r.Below(1000000000)}));
    else s += r.Of<const char*>({"0", "", "01", "1000000000", "2147483647", "2147483648", "99999999999999999999", "-1", "+1", " 1", "1 ", "1a", "0x1", "1.0", "00", "4294967297"});
  }
  if (r.Chance(.04)) s += r.Of<const char*>({"?", "#", "?x=1", "#frag", "/", ":", "/x", " ", "\n"});
  if (r.Chance(.15)) {  // mutate one byte
    int k = r.Int(1, 3);
    while (k--) {
      static const char alphabet[] = "abz-:/?#019AZ _.\n@`{";
      size_t at = r.Below(s.size() + 1);
      char ch = r.Chance(.1) ? (char)r() : r.Chance(.05) ? '\0' : alphabet[r.Below(sizeof alphabet - 1)];
      switch (r.Below(3)) {
        case 0: s.insert(s.begin() + at, ch); break;
        case 1: if (at < s.size()) s[at] = ch; break;
        case 2: if (at < s.size()) s.erase(at, 1); break;
      }
    }
  }
  return s;
}
}  // namespace
VH_PROPERTY(T02) {
  Rng& r = c.rng;
  std::vector<std::pair<std::string, Uri>> good;
  int accepted = 0, rejected = 0;
  std::string last;
  for (int i = 0; i < 24; ++i) {
    std::string s = r.Chance(.02) ? "" : GenUri(r);
    // The bytes live in a heap block of exactly their size, so that ASan sees any overrun.
    std::vector<char> buf(s.begin(), s.end());
    auto u = Uri::Parse(absl::string_view(buf.data(), buf.size()));
    UriModel m = ParseModel(s);
    VH_REQUIRE(c, u.ok() == m.ok, m.ok ? "uri-wrongly-rejected" : "uri-wrongly-accepted", "'", s, "'");
    if (!m.ok) { ++rejected; VH_REQUIRE(c, u.status().code() == absl::StatusCode::kInvalidArgument, "uri-error-code", s); continue; }
    ++accepted;
    buf.assign(buf.size(), 'Q');
    VH_REQUIRE(c, u->GetRegName() == m.reg, "uri-reg-name", "'", s, "' -> ", u->GetRegName());
    VH_REQUIRE(c, u->GetAssetName() == m.name, "uri-asset-name", "'", s, "' -> ", u->GetAssetName());
    VH_REQUIRE(c, u->GetRevisionNumber() == m.rev, "uri-revision", "'", s, "' -> ", u->GetRevisionNumber());
    VH_REQUIRE(c, u->GetAssetType() == (m.uninit ? Uri::AssetType::kUninitialized : m.type == "texture" ? Uri::AssetType::kTexture : Uri::AssetType::kBrushFamily), "uri-asset-type", s);
    VH_REQUIRE(c, u->HasInkRegName() == (m.reg == "ink"), "uri-has-ink-reg-name", s);
    std::string norm = u->ToNormalizedString();
    std::string want = m.uninit ? "" : (m.reg == "ink" ? "" : "//" + m.reg) + "/" + m.type + ":" + m.name + (m.rev == 1 ? "" : ":" + std::to_string(m.rev));
    VH_REQUIRE(c, norm == want, "uri-normalized", "'", s, "' -> '", norm, "', want '", want, "'");
    VH_REQUIRE(c, absl::StrCat(*u) == norm, "uri-stringify", s);
    auto back = Uri::Parse(norm);
    VH_REQUIRE(c, back.ok() && *back == *u && back->ToNormalizedString() == norm, "uri-round-trip", s);
    VH_REQUIRE(c, absl::Hash<Uri>()(*back) == absl::Hash<Uri>()(*u), "uri-hash", s);
    good.emplace_back(norm, *u);
    c.Sig(norm);
    last = s;
  }
  for (auto& [n, u] : good)
    for (auto& [n2, u2] : good) {
      VH_REQUIRE(c, (u == u2) == (n == n2) && (u != u2) == (n != n2), "uri-equality", n, " vs ", n2);
      c.Count("pairs compared");
    }
  VH_REQUIRE(c, Uri().ToNormalizedString().empty() && Uri() == *Uri::Parse(""), "uri-default", "");
  c.Count("uris accepted", accepted); c.Count("uris rejected", rejected);
  c.Sample("last accepted: ", last, " (", accepted, " accepted, ", rejected, " rejected)");
  if (accepted && rejected) c.NonTrivial();
}

// ---------------------------------------------------------------- T03
namespace {
struct Tracked {  // counts live objects; owns heap memory
  static inline int live = 0;
  std::vector<int> v;
  Tracked() { ++live; }
  explicit Tracked(std::vector<int> x) : v(std::move(x)) { ++live; }
  Tracked(const Tracked& o) : v(o.v) { ++live; }
  Tracked(Tracked&& o) : v(std::move(o.v)) { ++live; }
  Tracked& operator=(const Tracked&) = default;
  ~Tracked() { --live; }
};
template <int N> void SmallArrayCase(Ctx& c) {
  Rng& r = c.rng;
  using SA = ink::SmallArray<std::string, N>;
  std::vector<std::string> model;
  auto val = [&] { return std::string(r.Below(40), (char)('a' + r.Below(26))); };
  SA a;
  switch (r.Below(4)) {
    case 0: break;
    case 1: { int n = r.Int(0, N); std::string s = val(); a = SA((uint8_t)n, s); model.assign(n, s); break; }
    case 2: { int n = r.Int(0, N); for (int i = 0; i < n; ++i) model.push_back(val()); a = SA(absl::Span<const std::string>(model)); break; }
    case 3: if (N >= 2) { a = SA({"x", "yy"}); model = {"x", "yy"}; } break;
  }
  auto check = [&](const SA& s, const std::vector<std::string>& m) {
    VH_REQUIRE(c, s.Size() == m.size() && s.MaxSize() == N && s.Values().size() == m.size(), "small-array-size", (int)s.Size(), " want ", m.size());
    for (size_t i = 0; i < m.size(); ++i) VH_REQUIRE(c, s[(uint8_t)i] == m[i] && s.Values()[i] == m[i], "small-array-value", i);
  };
  check(a, model);
  int ops = r.Int(3, 12);
  for (int i = 0; i < ops; ++i) {
    int op = r.Int(0, 5);
    if (op == 0) { int n = r.Int(0, N); std::string s = val(); a.Resize((uint8_t)n, s); model.resize(n, s); }
    else if (op == 1) { int n = r.Int(0, N); a.Resize((uint8_t)n); model.resize(n); }
    else if (op == 2 && !model.empty()) { size_t k = r.Below(model.size()); std::string s = val(); a[(uint8_t)k] = s; model[k] = s; }
    else if (op == 3 && !model.empty()) { size_t k = r.Below(model.size()); std::string s = val(); a.Values()[k] = s; model[k] = s; }
    else if (op == 4) {
      SA b = a; check(b, model); VH_REQUIRE(c, b == a, "small-array-eq", "copy differs");
      if (!model.empty()) { b[0] += "!"; VH_REQUIRE(c, !(b == a), "small-array-eq", "differs in element 0"); check(a, model); }
      // Storage past the end never takes part in equality.
      if (model.size() < N) { SA d = a; d.Resize((uint8_t)(model.size() + 1), "tail"); VH_REQUIRE(c, !(d == a) && !(a == d), "small-array-eq", "longer"); d.Resize((uint8_t)model.size()); VH_REQUIRE(c, d == a, "small-array-eq", "shrunk"); d.Resize((uint8_t)(model.size() + 1)); VH_REQUIRE(c, d[(uint8_t)model.size()].empty(), "small-array-shrink-reset", ""); }
    } else if (op == 5) {
      VH_REQUIRE(c, CheckFails([&] { (void)a[(uint8_t)r.Int((int)model.size(), 255)]; }), "small-array-bounds-unchecked", "");
      c.Count("out-of-range accesses refused");
    }
    check(a, model);
    c.Sig(op); c.Sig(model.size());
  }
  // Compared with an array that differs in size or in one element, whichever comes first.
  {
    std::vector<std::string> other(model);
    int k = r.Int(0, 3);
    if (k == 0) other.resize(r.Below(N + 1), "z");
    if (k == 1 && !other.empty()) other[r.Below(other.size())] = val();
    if (k == 2 && !other.empty()) other.back() += "?";
    SA b{absl::Span<const std::string>(other)};
    VH_REQUIRE(c, (a == b) == (model == other) && (b == a) == (model == other), "small-array-eq", "sizes ", (int)model.size(), " and ", (int)other.size());
  }
  // Elements that the array no longer has are let go of.
  {
    auto p = std::make_shared<int>(1), q = std::make_shared<int>(2);
    int n = r.Int(0, N), m = r.Int(0, N), k = r.Int(0, N);
    ink::SmallArray<std::shared_ptr<int>, N> h((uint8_t)n, p);
    VH_REQUIRE(c, p.use_count() == n + 1, "small-array-holds", n);
    h.Resize((uint8_t)m, q);
    VH_REQUIRE(c, p.use_count() == std::min(n, m) + 1 && q.use_count() == std::max(0, m - n) + 1, "small-array-shrink-reset", "from ", n, " to ", m, " held ", (int)p.use_count() - 1, " and ", (int)q.use_count() - 1);
    h.Resize((uint8_t)k);
    VH_REQUIRE(c, p.use_count() + q.use_count() == std::min(m, k) + 2, "small-array-shrink-reset", "from ", m, " to ", k);
    for (int i = m; i < k; ++i) VH_REQUIRE(c, !h[(uint8_t)i], "small-array-grow", i);
  }
}
void CowCase(Ctx& c) {
  Rng& r = c.rng;
  using Cow = ink_internal::CopyOnWrite<Tracked>;
  int before = Tracked::live, shared_writes = 0;
  {
    struct M { bool has = false; std::vector<int> v; int group = -1; };
    std::vector<Cow> cows(r.Int(2, 6));
    std::vector<M> ms(cows.size());
    int next = 0, ops = r.Int(10, 60);
    for (int i = 0; i < ops; ++i) {
      size_t a = r.Below(cows.size()), b = r.Below(cows.size());
      int op = r.Int(0, 7);
      c.Sig(op);
      switch (op) {
        case 0: { std::vector<int> v(r.Below(5), r.Int(0, 9)); cows[a].Emplace(v); ms[a] = {true, v, next++}; break; }
        case 1: cows[a] = cows[b]; ms[a] = ms[b]; break;
        case 2: if (a != b) { cows[a] = std::move(cows[b]); ms[a] = ms[b]; ms[b] = {}; } break;
        case 3: cows[a].Reset(); ms[a] = {}; break;
        case 4: case 5:
          if (!ms[a].has) { VH_REQUIRE(c, CheckFails([&] { cows[a].MutableValue(); }), "cow-empty-access-unchecked", "MutableValue"); VH_REQUIRE(c, CheckFails([&] { (void)cows[a].Value(); }), "cow-empty-access-unchecked", "Value"); break; }
          {
            int others = 0; for (auto& m : ms) others += m.has && m.group == ms[a].group;
            if (others > 1) { ++shared_writes; ms[a].group = next++; }
            int x = r.Int(0, 99); cows[a].MutableValue().v.push_back(x); ms[a].v.push_back(x);
          }
          break;
        case 6: { Cow d(Tracked(std::vector<int>{7})); cows[a] = d; cows[b] = d; ms[a] = {true, {7}, next}; ms[b] = ms[a]; ++next; break; }
        case 7: { Cow d(cows[a]); if (ms[a].has) { d.MutableValue().v.clear(); } break; }
      }
      int groups = 0; std::map<int, int> n;
      for (size_t k = 0; k < ms.size(); ++k) if (ms[k].has) groups += n[ms[k].group]++ == 0;
      for (size_t k = 0; k < cows.size(); ++k) {
        VH_REQUIRE(c, cows[k].HasValue() == ms[k].has, "cow-has-value", k);
        if (!ms[k].has) continue;
        VH_REQUIRE(c, cows[k].Value().v == ms[k].v && cows[k]->v == ms[k].v && (*cows[k]).v == ms[k].v, "cow-isolation", "holder ", k, " changed by an operation on another");
        VH_REQUIRE(c, cows[k].IsShared() == (n[ms[k].group] > 1), "cow-is-shared", k);
      }
      VH_REQUIRE(c, Tracked::live - before == groups, "cow-lifetime", Tracked::live - before, " live objects, want ", groups);
    }
    c.Count("writes to shared values", shared_writes);
  }
  VH_REQUIRE(c, Tracked::live == before, "cow-leak", "");
  if (shared_writes) c.NonTrivial();
}
void DistanceCase(Ctx& c) {
  Rng& r = c.rng;
  float x = AnyFloat(r), y = AnyFloat(r), k = AnyFloat(r);
  auto a = PhysicalDistance::Centimeters(x), b = PhysicalDistance::Centimeters(y);
  auto same = [](PhysicalDistance d, float f) { return SameF(d.ToCentimeters(), f); };
  VH_REQUIRE(c, same(a, x), "distance-cm", x);
  VH_REQUIRE(c, same(a + b, x + y) && same(a - b, x - y) && same(-a, -x) && same(a * k, x * k) && same(k * a, k * x) && same(a / k, x / k) && SameF(a / b, x / y), "distance-arith", x, " ", y, " ", k);
  auto t = a; t += b; VH_REQUIRE(c, same(t, x + y), "distance-arith", "+="); t = a; t -= b; VH_REQUIRE(c, same(t, x - y), "distance-arith", "-=");
  t = a; t *= k; VH_REQUIRE(c, same(t, x * k), "distance-arith", "*="); t = a; t /= k; VH_REQUIRE(c, same(t, x / k), "distance-arith", "/=");
  VH_REQUIRE(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "distance-order", x, " ", y);
  VH_REQUIRE(c, a.IsFinite() == std::isfinite(x), "distance-finite", x);
  auto close = [](double got, double want) { return std::fabs(got - want) <= 5e-7 * std::fabs(want); };
  if (std::fabs(x) > 1e-25 && std::fabs(x) < 1e25) {
    VH_REQUIRE(c, close(a.ToInches(), x / 2.54) && close(a.ToMeters(), x / 100.), "distance-units", x);
    VH_REQUIRE(c, close(PhysicalDistance::Inches(x).ToCentimeters(), x * 2.54) && close(PhysicalDistance::Meters(x).ToCentimeters(), x * 100.), "distance-units", x);
    VH_REQUIRE(c, close(PhysicalDistance::Inches(x).ToInches(), x) && close(PhysicalDistance::Meters(x).ToMeters(), x), "distance-round-trip", x);
    c.Count("unit conversions", 6);
  }
  VH_REQUIRE(c, PhysicalDistance::Zero().ToCentimeters() == 0 && PhysicalDistance().ToMeters() == 0, "distance-zero", "");
}
}  // namespace
VH_PROPERTY(T03) {
  SmallArrayCase<1>(c); SmallArrayCase<2>(c); SmallArrayCase<4>(c); SmallArrayCase<9>(c); SmallArrayCase<255>(c);
  CowCase(c);
  for (int i = 0; i < 8; ++i) DistanceCase(c);
  std::vector<int> v(c.rng.Below(6), 3);
  auto rg = ink::make_range(v.begin(), v.end());
  VH_REQUIRE(c, rg.size() == v.size() && rg.empty() == v.empty() && rg.begin() == v.begin() && rg.end() == v.end(), "iterator-range", v.size());
  c.Sample("case ", c.idx, ": small-array programs of capacity 1,2,4,9,255, one copy-on-write program, 8 distance triples");
}

// ---------------------------------------------------------------- C01
namespace {
using ink::Color;
using ink::ColorSpace;
using Fmt = Color::Format;
constexpr Fmt kFmts[] = {Fmt::kLinear, Fmt::kGammaEncoded, Fmt::kPremultipliedAlpha};
constexpr ColorSpace kSpaces[] = {ColorSpace::kSrgb, ColorSpace::kDisplayP3};
double DecodeD(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
double EncodeD(double v) { return v <= 0.04045 / 12.92 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
// Matrices from the published chromaticities, computed here.
struct M3 { double m[3][3]; };
M3 Inv(const M3& a) {
  M3 o; double d = 0;
  for (int i = 0; i < 3; ++i) d += a.m[0][i] * (a.m[1][(i + 1) % 3] * a.m[2][(i + 2) % 3] - a.m[1][(i + 2) % 3] * a.m[2][(i + 1) % 3]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    o.m[j][i] = (a.m[(i + 1) % 3][(j + 1) % 3] * a.m[(i + 2) % 3][(j + 2) % 3] - a.m[(i + 1) % 3][(j + 2) % 3] * a.m[(i + 2) % 3][(j + 1) % 3]) / d;
  return o;
}
M3 Mul(const M3& a, const M3& b) { M3 o{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) o.m[i][j] += a.m[i][k] * b.m[k][j]; return o; }
M3 ToXyz(ColorSpace s) {
  const double srgb[3][2] = {{.64, .33}, {.30, .60}, {.15, .06}}, p3[3][2] = {{.680, .320}, {.265, .690}, {.150, .060}};
  const double (*p)[2] = s == ColorSpace::kSrgb ? srgb : p3;
  M3 a; for (int i = 0; i < 3; ++i) { a.m[0][i] = p[i][0] / p[i][1]; a.m[1][i] = 1; a.m[2][i] = (1 - p[i][0] - p[i][1]) / p[i][1]; }
  const double w[3] = {.3127 / .3290, 1, (1 - .3127 - .3290) / .3290};
  M3 v = Inv(a); double k[3] = {};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) k[i] += v.m[i][j] * w[j];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] *= k[j];
  return a;
}
std::array<float, 4> Arr(Color::RgbaFloat f) { return {f.r, f.g, f.b, f.a}; }
float Channel(Rng& r) {
  switch (r.Below(6)) {
    case 0: return AnyFloat(r);
    case 1: return r.Of({0.f, 1.f, -0.f, 0.04045f, 0.0031308f, 0.5f, 1.0000001f, -1e-7f, 0.04044999f});
    case 2: return r.F(-.5, 1.5);
    default: return r.F(0, 1);
  }
}
std::string Show(const std::array<float, 4>& a) { return Cat("{", a[0], ",", a[1], ",", a[2], ",", a[3], "}"); }
void Valid(Ctx& c, const Color& col, const char* what) {
  for (Fmt f : kFmts) {
    auto a = Arr(col.AsFloat(f));
    for (float x : a) if (f == Fmt::kLinear || f == Fmt::kPremultipliedAlpha || x == x) VH_REQUIRE(c, !std::isnan(x), "color-nan", what, " format ", (int)f, " ", Show(a));
    // Gamma encoding is only defined on [0, 1]; there it must not give NaN.
    if (f == Fmt::kGammaEncoded) { auto l = Arr(col.AsFloat(Fmt::kLinear)); for (int i = 0; i < 4; ++i) if (l[i] >= 0) VH_REQUIRE(c, !std::isnan(a[i]), "color-nan", what, " gamma ", Show(a)); }
    VH_REQUIRE(c, a[3] >= 0 && a[3] <= 1 && a[3] == col.GetAlphaFloat(), "color-alpha-range", what, " ", Show(a));
  }
}
}  // namespace
VH_PROPERTY(C01) {
  Rng& r = c.rng;
  Fmt f = r.Pick(kFmts);
  ColorSpace sp = r.Pick(kSpaces), other = sp == ColorSpace::kSrgb ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb;
  std::array<float, 4> in{Channel(r), Channel(r), Channel(r), r.Chance(.7) ? r.F(0, 1) : Channel(r)};
  if (r.Chance(.15)) in[3] = r.Of({0.f, 1.f, 1e-3f, 1e-30f});
  if (f == Fmt::kPremultipliedAlpha && r.Chance(.7)) { float al = in[3] == in[3] ? std::min(1.f, std::max(0.f, in[3])) : 0; for (int i = 0; i < 3; ++i) in[i] = in[i] == in[i] && al > 0 ? in[i] * al : 0; for (int i = 0; i < 3; ++i) if (std::isnan(in[i])) in[i] = 0; }
  c.Sample("FromFloat(", Show(in), ", format ", (int)f, ", space ", (int)sp, ")");
  std::array<float, 4> n = in;
  for (float& x : n) if (std::isnan(x)) x = 0;
  n[3] = std::min(1.f, std::max(0.f, n[3]));
  bool fatal = f == Fmt::kPremultipliedAlpha && n[3] == 0 && (n[0] != 0 || n[1] != 0 || n[2] != 0);
  Color col;
  bool threw = CheckFails([&] { col = Color::FromFloat(in[0], in[1], in[2], in[3], f, sp); });
  VH_REQUIRE(c, threw == fatal, "color-premultiplied-zero-alpha", Show(in));
  if (fatal) { c.Count("refused (premultiplied, alpha 0)"); return; }
  VH_REQUIRE(c, col.GetColorSpace() == sp, "color-space-lost", "");
  bool gamma_defined = f != Fmt::kGammaEncoded || (n[0] >= 0 && n[0] <= 1 && n[1] >= 0 && n[1] <= 1 && n[2] >= 0 && n[2] <= 1);
  if (!(f == Fmt::kGammaEncoded && (n[0] < 0 || n[1] < 0 || n[2] < 0)) ) Valid(c, col, "FromFloat");
  auto lin = Arr(col.AsFloat(Fmt::kLinear));
  VH_REQUIRE(c, lin[3] == n[3], "color-alpha", Show(in), " -> ", Show(lin));
  // Linear values against the definition.
  for (int i = 0; i < 3 && gamma_defined; ++i) {
    double want = f == Fmt::kLinear ? n[i] : f == Fmt::kGammaEncoded ? DecodeD(n[i]) : n[3] > 0 ? (double)n[i] / n[3] : 0;
    if (std::fabs(want) > kMax) { VH_REQUIRE(c, std::fabs(lin[i]) >= kMax && std::signbit(lin[i]) == std::signbit(want), "color-linear", want, " got ", lin[i]); continue; }
    VH_REQUIRE(c, std::fabs(lin[i] - want) <= 2e-6 * std::fabs(want) + 1e-37, "color-linear", "channel ", i, " of ", Show(in), " format ", (int)f, " is ", lin[i], ", want ", want);
  }
  // Formats out against the definition.
  auto pre = Arr(col.AsFloat(Fmt::kPremultipliedAlpha)), enc = Arr(col.AsFloat(Fmt::kGammaEncoded));
  bool in_gamut = true, near = true;
  for (int i = 0; i < 3; ++i) {
    double wp = lin[3] == 0 ? 0 : (double)lin[i] * lin[3];
    VH_REQUIRE(c, std::isinf(wp) ? pre[i] == (float)wp : std::fabs(pre[i] - wp) <= 2e-7 * std::fabs(wp) + 1e-37, "color-premultiply", lin[i], "*", lin[3], "=", pre[i]);
    if (lin[i] >= 0 && lin[i] <= 1) VH_REQUIRE(c, std::fabs(enc[i] - EncodeD(lin[i])) <= 1e-5, "color-gamma-encode", lin[i], " -> ", enc[i]);
    in_gamut &= lin[i] >= 0 && lin[i] <= 1;
    near &= lin[i] >= -7e-6 && lin[i] <= 1 + 7e-6;
    if (lin[i] < -1e-5 || lin[i] > 1 + 1e-5) VH_REQUIRE(c, !col.IsNearlyInGamut(), "color-nearly-in-gamut", Show(lin));
  }
  VH_REQUIRE(c, col.IsInGamut() == in_gamut, "color-in-gamut", Show(lin));
  if (near) VH_REQUIRE(c, col.IsNearlyInGamut(), "color-nearly-in-gamut", Show(lin));
  // Round trip through each format.
  bool finite = std::isfinite(lin[0]) && std::isfinite(lin[1]) && std::isfinite(lin[2]);
  for (Fmt g : kFmts) {
    auto a = Arr(col.AsFloat(g));
    if (g == Fmt::kGammaEncoded && !in_gamut) continue;
    if (g == Fmt::kPremultipliedAlpha && (lin[3] < 1e-6 || !finite || std::fabs(lin[0]) > 1e30 || std::fabs(lin[1]) > 1e30 || std::fabs(lin[2]) > 1e30)) continue;
    auto back = Arr(Color::FromFloat(a[0], a[1], a[2], a[3], g, sp).AsFloat(Fmt::kLinear));
    for (int i = 0; i < 4; ++i) VH_REQUIRE(c, SameF(back[i], lin[i]) || std::fabs((double)back[i] - lin[i]) <= 1e-5 * std::max(1e-3, std::fabs((double)lin[i])), "color-format-round-trip", "format ", (int)g, " ", Show(lin), " -> ", Show(back));
    c.Count("format round trips");
  }
  // 8-bit.
  for (Fmt g : kFmts) {
    auto a = Arr(col.AsFloat(g));
    if (std::isnan(a[0]) || std::isnan(a[1]) || std::isnan(a[2])) continue;
    auto u = col.AsUint8(g);
    std::array<uint8_t, 4> ua{u.r, u.g, u.b, u.a};
    for (int i = 0; i < 4; ++i) {
      double w = std::min(255., std::max(0., 255. * (double)a[i]));
      VH_REQUIRE(c, std::fabs(ua[i] - w) <= .50002, "color-uint8", a[i], " -> ", (int)ua[i]);
    }
    VH_REQUIRE(c, col.AsPackedUint32RGBA(g) == ((uint32_t)u.r << 24 | (uint32_t)u.g << 16 | (uint32_t)u.b << 8 | u.a), "color-packed", "");
    VH_REQUIRE(c, ink::PackUint32ARGB(u) == ((uint32_t)u.a << 24 | (uint32_t)u.r << 16 | (uint32_t)u.g << 8 | u.b), "color-argb", "");
    auto ru = ink::UnpackUint32ARGB(ink::PackUint32ARGB(u));
    VH_REQUIRE(c, ru.r == u.r && ru.g == u.g && ru.b == u.b && ru.a == u.a, "color-argb", "round trip");
  }
  // Packed 8-bit values come back exactly.
  {
    uint32_t p = (uint32_t)r();
    if (r.Chance(.2)) p |= 0xff;
    Fmt g = r.Pick(kFmts);
    if (g == Fmt::kPremultipliedAlpha) { uint32_t al = p & 255; uint32_t q = al; for (int s : {8, 16, 24}) q |= std::min(al, (p >> s) & 255) << s; p = q; }
    Color pc = Color::FromPackedUint32RGBA(p, g, sp);
    VH_REQUIRE(c, pc.AsPackedUint32RGBA(g) == p, "color-packed-round-trip", "format ", (int)g, " 0x", p, " -> ", pc.AsPackedUint32RGBA(g));
    VH_REQUIRE(c, pc == Color::FromUint8(p >> 24, p >> 16, p >> 8, p, g, sp), "color-packed", "FromUint8");
    VH_REQUIRE(c, pc.IsInGamut(), "color-packed-gamut", p);
    // The same physical color through the other space.
    Color via = pc.InColorSpace(other).InColorSpace(sp);
    VH_REQUIRE(c, via.NearlyEquals(pc) && pc.NearlyEquals(via), "color-space-round-trip", p);
    VH_REQUIRE(c, via.AsPackedUint32RGBA(Fmt::kLinear) == pc.AsPackedUint32RGBA(Fmt::kLinear) || g != Fmt::kLinear, "color-space-round-trip-8bit", p);
    c.Count("packed round trips");
  }
  // Color spaces.
  VH_REQUIRE(c, col.InColorSpace(sp) == col, "color-same-space", Show(lin));
  {
    Color o = col.InColorSpace(other);
    Valid(c, o, "InColorSpace") ;
    VH_REQUIRE(c, o.GetColorSpace() == other && o.GetAlphaFloat() == col.GetAlphaFloat(), "color-space-alpha", "");
    auto ol = Arr(o.AsFloat(Fmt::kLinear));
    double big = std::max({std::fabs((double)lin[0]), std::fabs((double)lin[1]), std::fabs((double)lin[2])});
    if (finite && big < 1e37) {
      M3 conv = Mul(Inv(ToXyz(other)), ToXyz(sp));
      for (int i = 0; i < 3; ++i) {
        double w = 0; for (int j = 0; j < 3; ++j) w += conv.m[i][j] * lin[j];
        VH_REQUIRE(c, std::fabs(w - ol[i]) <= 1e-4 * big + 1e-37, "color-space-conversion", Show(lin), " -> ", Show(ol), " want channel ", i, " = ", w);
      }
      auto bl = Arr(o.InColorSpace(sp).AsFloat(Fmt::kLinear));
      for (int i = 0; i < 3; ++i) VH_REQUIRE(c, std::fabs((double)bl[i] - lin[i]) <= 2e-6 * big + 1e-37, "color-space-round-trip", Show(lin), " -> ", Show(bl));
      if (big <= 1) VH_REQUIRE(c, col.NearlyEquals(o) && o.NearlyEquals(col), "color-nearly-equals", Show(lin));
      // A change of a single channel by clearly more, or clearly less, than half a step of 16 bits.
      if (big <= 1) {
        std::array<float, 4> ch = {lin[0], lin[1], lin[2], lin[3]};
        int k = (int)r.Below(4);
        double d = r.Of({1., 1.05, 1.3, 4., 100.}) * r.Of({.95, 1.05}) / 131070;
        ch[k] += (float)((ch[k] > .5f ? -1 : 1) * d);
        double got = std::fabs((double)ch[k] - lin[k]) * 131070;
        Color q = Color::FromFloat(ch[0], ch[1], ch[2], ch[3], Fmt::kLinear, sp);
        if (got > 1.01) VH_REQUIRE(c, !col.NearlyEquals(q) && !q.NearlyEquals(col), "color-nearly-equals-different", "channel ", k, " changed by ", got, " half steps ", Show(lin));
        if (got < .99) VH_REQUIRE(c, col.NearlyEquals(q) && q.NearlyEquals(col) && col.NearlyEquals(col), "color-nearly-equals-close", "channel ", k, " changed by ", got, " half steps ", Show(lin));
      }
    }
  }
  // Gamut mapping.
  {
    Color cl = col.ClampedToGamut(), sc = col.ScaledToGamut();
    Valid(c, cl, "ClampedToGamut");
    auto a = Arr(cl.AsFloat(Fmt::kLinear));
    for (int i = 0; i < 3; ++i) VH_REQUIRE(c, a[i] == std::min(1.f, std::max(0.f, lin[i])), "color-clamp", Show(lin), " -> ", Show(a));
    Valid(c, sc, "ScaledToGamut");
    auto s = Arr(sc.AsFloat(Fmt::kLinear));
    VH_REQUIRE(c, a[3] == lin[3] && s[3] == lin[3] && cl.GetColorSpace() == sp && sc.GetColorSpace() == sp, "color-gamut-alpha", "");
    float mx = std::max({0.f, lin[0], lin[1], lin[2]});
    for (int i = 0; i < 3; ++i) {
      VH_REQUIRE(c, s[i] >= 0 && s[i] <= 1, "color-scale-range", Show(lin), " -> ", Show(s));
      if (std::isfinite(mx)) {
        double w = std::max(0.f, lin[i]) / (mx > 1 ? (double)mx : 1.);
        VH_REQUIRE(c, std::fabs(s[i] - w) <= 3e-7 * w + 1e-37, "color-scale", Show(lin), " -> ", Show(s));
      }
    }
    VH_REQUIRE(c, cl.IsInGamut() && sc.IsInGamut() && cl.IsNearlyInGamut(), "color-gamut-result", Show(s));
    if (in_gamut) VH_REQUIRE(c, cl == col && sc == col, "color-gamut-identity", Show(lin));
  }
  {
    float al = Channel(r);
    Color w = col.WithAlphaFloat(al);
    auto wl = Arr(w.AsFloat(Fmt::kLinear));
    VH_REQUIRE(c, wl[3] == (std::isnan(al) ? 0.f : std::min(1.f, std::max(0.f, al))) && w.GetColorSpace() == sp, "color-with-alpha", al, " -> ", wl[3]);
    for (int i = 0; i < 3; ++i) VH_REQUIRE(c, wl[i] == lin[i], "color-with-alpha", Show(lin), " -> ", Show(wl));
    VH_REQUIRE(c, (w == col) == (wl[3] == lin[3]), "color-equality", "");
    VH_REQUIRE(c, !(col == Color::FromFloat(lin[0], lin[1], lin[2], lin[3], Fmt::kLinear, other)), "color-equality", "other space");
  }
  // What is published for shaders agrees with what the functions do.
  for (ColorSpace s : kSpaces) {
    auto p = ink::GetGammaDecodingParameters(s);
    float x = r.F(0, 1);
    double w = x < p[3] ? p[2] * (double)x : std::pow((double)p[0] * x + p[1], (double)p[4]);
    VH_REQUIRE(c, std::fabs(w - ink::GammaDecode(x, s)) < 2e-5, "color-gamma-parameters", x);
    VH_REQUIRE(c, std::fabs(DecodeD(x) - ink::GammaDecode(x, s)) < 1e-6, "color-gamma-decode", x);
    VH_REQUIRE(c, std::fabs(ink::GammaEncode(ink::GammaDecode(x, s), s) - x) < 1e-6, "color-gamma-round-trip", x);
    M3 ref = ToXyz(s), inv = Inv(ref);
    for (auto lay : {ink::MatrixLayout::kColumnMajor, ink::MatrixLayout::kRowMajor}) {
      auto t = ink::GetColorSpaceToXyzD65Matrix(s, lay), b = ink::GetXyzD65ToColorSpaceMatrix(s, lay);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        int at = lay == ink::MatrixLayout::kRowMajor ? i * 3 + j : j * 3 + i;
        VH_REQUIRE(c, std::fabs(t[at] - ref.m[i][j]) < 3e-4 && std::fabs(b[at] - inv.m[i][j]) < 1e-3, "color-matrix", i, ",", j, " ", t[at], " ", ref.m[i][j], " ", b[at], " ", inv.m[i][j]);
      }
    }
  }
  for (float x : lin) c.Sig(x);
  if (!in_gamut || lin[3] < 1) c.NonTrivial();
  if (!in_gamut) c.Count("out of gamut");
  if (!finite) c.Count("infinite channels");
}
