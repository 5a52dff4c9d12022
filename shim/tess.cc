// Stand-in for libtess2: the same C API, connected-triangle output, interior
// chosen by winding rule. The plane is cut into horizontal slabs at every
// vertex and every crossing; each slab's interior trapezoids become triangles.
// When the polygon is simple, triangles come from ear clipping instead, so that
// no vertex is added that the input does not have.
#include "libtess2/tesselator.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <vector>
namespace { struct P { double x, y; }; }
struct TESStesselator {
  std::vector<std::vector<P>> contours;
  std::vector<TESSreal> verts;
  std::vector<TESSindex> vidx, elems;
};
TESStesselator* tessNewTess(TESSalloc*) { return new TESStesselator; }
void tessDeleteTess(TESStesselator* t) { delete t; }
void tessAddContour(TESStesselator* t, int size, const void* p, int stride, int count) {
  std::vector<P> c;
  const char* b = static_cast<const char*>(p);
  for (int i = 0; i < count; ++i) {
    float xy[2] = {0, 0};
    std::memcpy(xy, b + (size_t)i * stride, sizeof(float) * std::min(size, 2));
    c.push_back({xy[0], xy[1]});
  }
  t->contours.push_back(c);
}
namespace {
double Cr(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
bool Same(P a, P b) { return a.x == b.x && a.y == b.y; }
bool OnSeg(P a, P b, P p) {
  return Cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
bool Touch(P a, P b, P c, P d) {
  double d1 = Cr(a, b, c), d2 = Cr(a, b, d), d3 = Cr(c, d, a), d4 = Cr(c, d, b);
  if (((d1 > 0) != (d2 > 0)) && d1 != 0 && d2 != 0 && ((d3 > 0) != (d4 > 0)) && d3 != 0 && d4 != 0) return true;
  return OnSeg(a, b, c) || OnSeg(a, b, d) || OnSeg(c, d, a) || OnSeg(c, d, b);
}
bool Simple(const std::vector<P>& c) {
  size_t n = c.size();
  for (size_t i = 0; i < n; ++i) {
    if (Same(c[i], c[(i + 1) % n])) return false;
    for (size_t j = i + 1; j < n; ++j) {
      if (j == i + 1 || (i == 0 && j == n - 1)) {
        // Adjacent edges may only share their common vertex.
        size_t e = (j == i + 1) ? i : j, f = (e + 1) % n;
        P a = c[e], m = c[f], b = c[(f + 1) % n];
        if (n > 2 && Cr(a, m, b) == 0 && ((a.x - m.x) * (b.x - m.x) + (a.y - m.y) * (b.y - m.y)) > 0) return false;
        continue;
      }
      if (Touch(c[i], c[(i + 1) % n], c[j], c[(j + 1) % n])) return false;
    }
  }
  return true;
}
bool EarClip(const std::vector<P>& c, std::vector<std::array<int, 3>>& out) {
  std::vector<int> v;
  double area = 0;
  for (size_t i = 0; i < c.size(); ++i) { v.push_back(i); P a = c[i], b = c[(i + 1) % c.size()]; area += a.x * b.y - b.x * a.y; }
  if (area == 0) return true;
  if (area < 0) std::reverse(v.begin(), v.end());
  while (v.size() > 3) {
    bool cut = false;
    size_t n = v.size();
    for (size_t i = 0; i < n && !cut; ++i) {
      int ia = v[(i + n - 1) % n], ib = v[i], ic = v[(i + 1) % n];
      P a = c[ia], b = c[ib], d = c[ic];
      double cr = Cr(a, b, d);
      if (cr < 0) continue;
      if (cr == 0) { v.erase(v.begin() + i); cut = true; break; }
      bool bad = false;
      for (int k : v) {
        if (k == ia || k == ib || k == ic) continue;
        P p = c[k];
        if (Cr(a, b, p) >= 0 && Cr(b, d, p) >= 0 && Cr(d, a, p) >= 0) { bad = true; break; }
      }
      if (bad) continue;
      out.push_back({ia, ib, ic});
      v.erase(v.begin() + i);
      cut = true;
    }
    if (!cut) return false;
  }
  if (Cr(c[v[0]], c[v[1]], c[v[2]]) > 0) out.push_back({v[0], v[1], v[2]});
  return true;
}
}  // namespace
int tessTesselate(TESStesselator* t, int rule, int, int polySize, int vertexSize, const TESSreal*) {
  if (polySize != 3 || vertexSize != 2) return 0;
  for (auto& c : t->contours) for (P p : c) if (!std::isfinite(p.x) || !std::isfinite(p.y)) return 0;
  std::vector<P> all;
  for (auto& c : t->contours) all.insert(all.end(), c.begin(), c.end());
  std::vector<P> vs;
  std::vector<int> vi;
  std::vector<std::array<int, 3>> tris;
  bool done = true;  // nothing to fill if all points are on a line
  if (!all.empty()) {
    P far = all[0];
    for (P p : all) if (std::hypot(p.x - all[0].x, p.y - all[0].y) > std::hypot(far.x - all[0].x, far.y - all[0].y)) far = p;
    for (P p : all) done = done && Cr(all[0], far, p) == 0;
  }
  bool by_sign = rule == TESS_WINDING_ODD || rule == TESS_WINDING_NONZERO;
  if (!done && t->contours.size() == 1 && by_sign && all.size() >= 3 && Simple(all)) {
    if (EarClip(all, tris)) { vs = all; for (size_t i = 0; i < all.size(); ++i) vi.push_back(i); done = true; }
    else tris.clear();
  }
  if (!done) {
    struct E { P a, b; int w; };  // a.y < b.y
    std::vector<E> es;
    std::vector<double> ys;
    for (auto& c : t->contours)
      for (size_t i = 0; i < c.size(); ++i) {
        P a = c[i], b = c[(i + 1) % c.size()];
        ys.push_back(a.y);
        if (a.y == b.y) continue;
        if (a.y < b.y) es.push_back({a, b, 1}); else es.push_back({b, a, -1});
      }
    std::map<std::pair<float, float>, int> ids;
    for (size_t i = 0; i < all.size(); ++i) ids.emplace(std::make_pair((float)all[i].x, (float)all[i].y), i);
    std::vector<P> xs;
    for (size_t i = 0; i < es.size(); ++i)
      for (size_t j = i + 1; j < es.size(); ++j) {
        P r{es[i].b.x - es[i].a.x, es[i].b.y - es[i].a.y}, s{es[j].b.x - es[j].a.x, es[j].b.y - es[j].a.y};
        double den = r.x * s.y - r.y * s.x;
        if (den == 0) continue;
        P q{es[j].a.x - es[i].a.x, es[j].a.y - es[i].a.y};
        double u = (q.x * s.y - q.y * s.x) / den, v = (q.x * r.y - q.y * r.x) / den;
        if (u > 0 && u < 1 && v > 0 && v < 1) { double y = es[i].a.y + u * r.y; ys.push_back(y); }
      }
    std::sort(ys.begin(), ys.end());
    ys.erase(std::unique(ys.begin(), ys.end()), ys.end());
    std::map<std::pair<float, float>, int> out;
    auto vert = [&](double x, double y) {
      std::pair<float, float> k{(float)x, (float)y};
      auto [it, fresh] = out.emplace(k, (int)vs.size());
      if (fresh) { vs.push_back({k.first, k.second}); auto f = ids.find(k); vi.push_back(f == ids.end() ? TESS_UNDEF : f->second); }
      return it->second;
    };
    auto inside = [&](int w) {
      switch (rule) {
        case TESS_WINDING_ODD: return (w & 1) != 0;
        case TESS_WINDING_NONZERO: return w != 0;
        case TESS_WINDING_POSITIVE: return w > 0;
        case TESS_WINDING_NEGATIVE: return w < 0;
        default: return w >= 2 || w <= -2;
      }
    };
    for (size_t k = 0; k + 1 < ys.size(); ++k) {
      double y0 = ys[k], y1 = ys[k + 1], ym = (y0 + y1) / 2;
      std::vector<std::pair<double, const E*>> cut;
      auto at = [](const E& e, double y) { return y == e.a.y ? e.a.x : y == e.b.y ? e.b.x : e.a.x + (e.b.x - e.a.x) * ((y - e.a.y) / (e.b.y - e.a.y)); };
      for (auto& e : es) if (e.a.y <= y0 && e.b.y >= y1) cut.push_back({at(e, ym), &e});
      std::sort(cut.begin(), cut.end(), [](auto& a, auto& b) { return a.first < b.first; });
      int w = 0;
      for (size_t i = 0; i + 1 < cut.size(); ++i) {
        w += cut[i].second->w;
        // Merge adjacent interior cells into one trapezoid.
        if (!inside(w)) continue;
        size_t j = i + 1;
        int w2 = w;
        while (j + 1 < cut.size() && inside(w2 + cut[j].second->w)) { w2 += cut[j].second->w; ++j; }
        int a = vert(at(*cut[i].second, y0), y0), b = vert(at(*cut[j].second, y0), y0);
        int c = vert(at(*cut[j].second, y1), y1), d = vert(at(*cut[i].second, y1), y1);
        auto add = [&](int p, int q, int r) { if (p != q && q != r && p != r && Cr(vs[p], vs[q], vs[r]) > 0) tris.push_back({p, q, r}); };
        add(a, b, c);
        add(a, c, d);
        w = w2;
        i = j - 1;
      }
    }
  }
  t->verts.clear(); t->vidx = vi; t->elems.clear();
  for (P p : vs) { t->verts.push_back((float)p.x); t->verts.push_back((float)p.y); }
  // As libtess2 does with no normal given: triangles turn the way the input does.
  double area = 0;
  for (auto& c : t->contours) for (size_t i = 0; i < c.size(); ++i) { P a = c[i], b = c[(i + 1) % c.size()]; area += a.x * b.y - b.x * a.y; }
  if (area < 0) for (auto& tr : tris) std::swap(tr[1], tr[2]);
  std::map<std::pair<int, int>, int> edge;
  for (size_t i = 0; i < tris.size(); ++i) for (int k = 0; k < 3; ++k) edge[{tris[i][k], tris[i][(k + 1) % 3]}] = i;
  for (auto& tr : tris) {
    for (int k = 0; k < 3; ++k) t->elems.push_back(tr[k]);
    for (int k = 0; k < 3; ++k) { auto f = edge.find({tr[(k + 1) % 3], tr[k]}); t->elems.push_back(f == edge.end() ? TESS_UNDEF : f->second); }
  }
  return 1;
}
int tessGetVertexCount(TESStesselator* t) { return t->verts.size() / 2; }
const TESSreal* tessGetVertices(TESStesselator* t) { return t->verts.data(); }
const TESSindex* tessGetVertexIndices(TESStesselator* t) { return t->vidx.data(); }
int tessGetElementCount(TESStesselator* t) { return t->elems.size() / 6; }
const TESSindex* tessGetElements(TESStesselator* t) { return t->elems.data(); }
