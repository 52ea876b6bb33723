// C04: support polygons are exactly the convex hull of the given points.
// needs: convexpolygon
#include <vh.h>
#include <algorithm>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/convexpolygon.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  typedef std::pair<long, long> P;  // (x, y) in grid units
  long cross(const P& o, const P& a, const P& b)
  { return (a.first - o.first)*(b.second - o.second) - (a.second - o.second)*(b.first - o.first); }

  // strictly convex hull, counter-clockwise, exact
  std::vector<P> hull(std::vector<P> p)
  {
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3) { return p; }
    std::vector<P> h(2*p.size());
    size_t k = 0;
    for (size_t i = 0; i < p.size(); ++i) { while (k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for (size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k - 1);
    return h;
  }

  template <typename R> struct Tp { typedef typename Type<R>::Vector2 V2; typedef typename Type<R>::vectorOfVector2 VV; };

  // signed excess of a point over the published description: <= 0 inside
  template <typename R>
  L excess(const ConvexPolygon<R>& q, L x, L y)
  {
    L e = std::max(std::max(q.getXInfBound() - x, x - q.getXSupBound()), std::max(q.getYInfBound() - y, y - q.getYSupBound()));
    for (int i = 0; i < q.getNbGeneralConstraints(); ++i)
    {
      const L a = q.getGeneralConstraintsMatrixCoefsForX()(i), b = q.getGeneralConstraintsMatrixCoefsForY()(i), k = q.getGeneralConstraintsConstantPart()(i);
      e = std::max(e, (a*x + b*y + k)/std::sqrt(a*a + b*b));
    }
    return e;
  }
  // distance from a point to the hull (0 inside); long double
  L distTo(const std::vector<std::pair<L, L> >& h, L x, L y)
  {
    const size_t n = h.size();
    bool in = n >= 3; L best = 1e30L;
    for (size_t i = 0; i < n; ++i)
    {
      const L ax = h[i].first, ay = h[i].second, bx = h[(i + 1)%n].first, by = h[(i + 1)%n].second;
      const L dx = bx - ax, dy = by - ay, l2 = dx*dx + dy*dy;
      if (dx*(y - ay) - dy*(x - ax) < 0) { in = false; }
      L t = l2 > 0 ? ((x - ax)*dx + (y - ay)*dy)/l2 : 0;
      t = std::min((L)1, std::max((L)0, t));
      best = std::min(best, (L)std::hypot((double)(x - ax - t*dx), (double)(y - ay - t*dy)));
    }
    return in ? 0 : best;
  }

  template <typename R>
  void description(Case& c, const ConvexPolygon<R>& q, const std::vector<std::pair<L, L> >& h, const typename Tp<R>::VV& pts, L ext, L mag, L edgeTol)
  {
    const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
    // rounding of A.x+b relative to the edge length; degenerate edges do not exist
    L minEdge = 1e30L;
    const size_t n = h.size();
    for (size_t i = 0; i < n && n > 1; ++i)
      minEdge = std::min(minEdge, (L)std::hypot((double)(h[(i + 1)%n].first - h[i].first), (double)(h[(i + 1)%n].second - h[i].second)));
    if (n == 1) { minEdge = 1; }
    const L tol = 20*eps*(mag + ext)*(1 + (mag + ext)/minEdge)*(ext > 0 ? 1 : 1) + edgeTol;
    for (size_t i = 0; i < pts.size(); ++i)
      if (!(excess<R>(q, pts[i](0), pts[i](1)) <= tol))
        c.fail("description:point", "an input point violates the half-planes or bounds by " + num(excess<R>(q, pts[i](0), pts[i](1))));
    for (int k = 0; k < 40; ++k)
    {
      L x, y;
      if (k%2 && n) { const std::pair<L, L>& v = h[c.r.i(0, (int)n - 1)]; x = v.first + c.r.u(-0.1, 0.1)*(ext + 0.1); y = v.second + c.r.u(-0.1, 0.1)*(ext + 0.1); }
      else { x = h[0].first + c.r.u(-1.5, 1.5)*(ext + 0.1); y = h[0].second + c.r.u(-1.5, 1.5)*(ext + 0.1); }
      const L d = distTo(h, x, y), e = excess<R>(q, x, y);
      if (d == 0 && !(e <= tol)) c.fail("description:inside", "a point of the hull violates the description by " + num(e));
      if (d == 0) { c.count("probes_inside"); }
      if (d > 100*tol + 1e-3L*ext + 1e-6L)
      {
        c.count("probes_outside");
        if (!(e > tol)) c.fail("description:outside", "point (" + num(x) + "," + num(y) + ") at " + num(d) + " from the hull satisfies the description");
      }
    }
  }

  std::vector<P> gridSet(Case& c, std::string& kind)
  {
    std::vector<P> p;
    const int t = c.r.i(0, 8), ext = c.r.pick(std::vector<int>{1, 2, 3, 5, 10, 30, 45});
    const int n = c.r.i(1, c.r.p(0.2) ? 40 : 10);
    switch (t)
    {
      case 0: case 1: case 2: case 3: kind = "random"; for (int i = 0; i < n; ++i) p.push_back(P(c.r.i(0, ext), c.r.i(0, ext))); break;
      case 4: { kind = "collinear"; const int e = 1 + ext/8; const int dx = c.r.i(-4, 4), dy = c.r.i(-4, 4);
                for (int i = 0; i < n; ++i) { const int k = c.r.i(0, e); p.push_back(P(k*dx, k*dy)); } break; }
      case 5: { kind = "edges"; const P a(0, 0), b(c.r.i(1, 4), c.r.i(-1, 1)), d(c.r.i(-1, 2), c.r.i(1, 4)); const int m = 1 + ext/10;
                for (int i = 0; i < n + 3; ++i) { int u = c.r.i(0, m), v = c.r.i(0, m); if (c.r.p(0.6)) { if (c.r.p(0.5)) u = c.r.p(0.5) ? 0 : m; else v = c.r.p(0.5) ? 0 : m; }
                  p.push_back(P(u*b.first + v*d.first, u*b.second + v*d.second)); } break; }
      case 6: kind = "copies"; p.assign(n, P(c.r.i(0, 5), c.r.i(0, 5))); break;
      case 7: { kind = "two feet"; const int w = c.r.i(2, 8), l = c.r.i(2, 8), ox = c.r.i(-20, 20), oy = c.r.i(-20, 20);
                for (int k = 0; k < 2; ++k) { p.push_back(P(k*ox, k*oy)); p.push_back(P(k*ox + l, k*oy)); p.push_back(P(k*ox + l, k*oy + w)); p.push_back(P(k*ox, k*oy + w)); } break; }
      default: kind = "full grid"; { const int a = c.r.i(1, 5), b = c.r.i(1, 5); for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) p.push_back(P(i, j)); }
    }
    if (c.r.p(0.4)) { const int m = c.r.i(1, 5); for (int i = 0; i < m; ++i) { const P q = p[c.r.i(0, (int)p.size() - 1)]; p.push_back(q); } }
    for (size_t i = p.size(); i > 1; --i) { std::swap(p[i - 1], p[c.r.i(0, (int)i - 1)]); }
    return p;
  }

  template <typename R>
  void grid(Case& c)
  {
    typedef typename Tp<R>::V2 V2;
    const bool flt = sizeof(R) == 4;
    std::string kind;
    const std::vector<P> g = gridSet(c, kind);
    const std::vector<P> h = hull(g);
    const double step = c.r.pick(flt ? std::vector<double>{0.0625, 0.03125, 0.125, 1, 8} : std::vector<double>{0.0625, 0.01, 0.005, 0.1, 1, 10, 0.3});
    double tx = 0, ty = 0;
    if (c.r.p(0.6)) { const double m = c.r.pick(flt ? std::vector<double>{1, 100} : std::vector<double>{0.5, 10, 1000}); tx = flt ? (double)c.r.i(-(int)m, (int)m) : c.r.u(-m, m); ty = flt ? (double)c.r.i(-(int)m, (int)m) : c.r.u(-m, m); }
    typename Tp<R>::VV pts;
    for (size_t i = 0; i < g.size(); ++i) { pts.push_back(V2(static_cast<R>(tx + step*g[i].first), static_cast<R>(ty + step*g[i].second))); }
    c.desc << kind << " n=" << g.size() << " hull=" << h.size() << " step=" << step << " at (" << tx << "," << ty << "):";
    for (size_t i = 0; i < g.size() && i < 20; ++i) { c.desc << " " << g[i].first << "," << g[i].second; }
    const ConvexPolygon<R> q(pts);
    const typename Tp<R>::VV ext = ConvexPolygon<R>::extractVertices(pts);
    const typename Tp<R>::VV& v = q.getVertices();
    if (q.getNbVertices() != (int)v.size() || ext.size() != v.size()) c.fail("vertices:count", "vertex counts disagree");
    for (size_t i = 0; i < v.size(); ++i) { if (!(ext[i] == v[i])) c.fail("vertices", "extractVertices differs from the polygon"); }
    if (v.size() != h.size()) c.fail("vertices:number", std::to_string(v.size()) + " vertices instead of " + std::to_string(h.size()));
    // each vertex is an input point: find its grid coordinates
    std::vector<P> got;
    for (size_t i = 0; i < v.size(); ++i)
    {
      size_t k = 0;
      while (k < pts.size() && !(pts[k] == v[i])) { ++k; }
      if (k == pts.size()) c.fail("vertices:input", "a vertex is not an input point");
      got.push_back(g[k]);
    }
    size_t r = 0;
    while (r < h.size() && !(h[r] == got[0])) { ++r; }
    for (size_t i = 0; i < got.size(); ++i)
      if (r == h.size() || !(got[i] == h[(r + i)%h.size()])) c.fail("vertices:order", "vertex " + std::to_string(i) + " is not the next extreme point counter-clockwise");
    std::vector<std::pair<L, L> > hl;
    L mag = 0, e = 0;
    for (size_t i = 0; i < h.size(); ++i)
    {
      size_t k = 0; while (!(g[k] == h[i])) ++k;
      hl.push_back(std::make_pair((L)pts[k](0), (L)pts[k](1)));
      mag = std::max(mag, std::max(std::fabs(hl.back().first), std::fabs(hl.back().second)));
      e = std::max(e, std::max(std::fabs(hl.back().first - hl[0].first), std::fabs(hl.back().second - hl[0].second)));
    }
    description<R>(c, q, hl, pts, e, mag, 0);
    c.count(h.size() == 1 ? "hull_point" : h.size() == 2 ? "hull_segment" : "hull_polygon");
    c.max("hull_vertices", (long)h.size());
    for (size_t i = 0; i < g.size(); ++i) { c.h(g[i].first*1000 + g[i].second); }
    c.h(h.size());
    c.state(h.size()*100 + g.size());
  }

  // points in general position, regular polygons, rotated collinear points: judged up to the resolution
  template <typename R>
  void cont(Case& c)
  {
    typedef typename Tp<R>::V2 V2;
    const bool flt = sizeof(R) == 4;
    typename Tp<R>::VV pts;
    const int t = c.r.i(0, 4), n = c.r.i(3, 40);
    const double sc = c.r.pick(std::vector<double>{0.1, 1, 5}), tx = c.r.u(-2, 2), ty = c.r.u(-2, 2), ph = c.r.p(0.3) ? M_PI/2*c.r.i(0, 3) + (c.r.p(0.5) ? 1 : -1)*std::pow(10, -c.r.u(2, 7)) : c.r.u(0, 6.3);
    if (t == 0) { for (int i = 0; i < n; ++i) pts.push_back(V2(static_cast<R>(tx + c.r.u(-sc, sc)), static_cast<R>(ty + c.r.u(-sc, sc)))); }
    else if (t == 1) { for (int i = 0; i < n; ++i) pts.push_back(V2(static_cast<R>(tx + sc*std::cos(ph + 2*M_PI*i/n)), static_cast<R>(ty + sc*std::sin(ph + 2*M_PI*i/n)))); }
    else if (t == 2)
    { // a rotated rectangle with points on its edges
      const double w = c.r.u(0.3, 1)*sc, l = c.r.u(0.3, 1)*sc;
      for (int i = 0; i < n + 4; ++i)
      {
        double u = i < 4 ? (i == 0 || i == 3 ? 0 : 1) : 0.05*c.r.i(1, 19), v = i < 4 ? (i < 2 ? 0 : 1) : 0.05*c.r.i(1, 19);
        if (i >= 4) { if (c.r.p(0.5)) u = c.r.i(0, 1); else v = c.r.i(0, 1); }
        pts.push_back(V2(static_cast<R>(tx + u*w*std::cos(ph) - v*l*std::sin(ph)), static_cast<R>(ty + u*w*std::sin(ph) + v*l*std::cos(ph))));
      }
    }
    else if (t == 4)
    { // a round shape whose corners are cut by short edges nearly along an axis
      const int m = c.r.i(3, 8);
      for (int i = 0; i < m; ++i) { const double a = 2*M_PI*(i + c.r.u(0, 0.5))/m; pts.push_back(V2(static_cast<R>(tx + sc*std::cos(a)), static_cast<R>(ty + sc*std::sin(a)))); }
      for (int i = c.r.i(1, 3); i > 0; --i)
      {
        const V2 b = pts[c.r.i(0, m - 1)]; const double l = (c.r.p(0.5) ? 1 : -1)*c.r.u(2e-3, 2e-2)*(c.r.p(0.5) ? 1 : 5), w = c.r.u(-2e-4, 2e-4);
        pts.push_back(c.r.p(0.5) ? V2(b(0) + static_cast<R>(l), b(1) + static_cast<R>(w)) : V2(b(0) + static_cast<R>(w), b(1) + static_cast<R>(l)));
      }
    }
    else { for (int i = 0; i < n; ++i) { const double a = c.r.u(0, 6.3), q = sc*std::sqrt(c.r.u()); pts.push_back(V2(static_cast<R>(tx + q*std::cos(a)), static_cast<R>(ty + q*std::sin(a)))); } }
    for (size_t i = pts.size(); i > 1; --i) { std::swap(pts[i - 1], pts[c.r.i(0, (int)i - 1)]); }
    // keep the points apart
    for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < i; ++j) if (!(pts[i] == pts[j]) && (pts[i] - pts[j]).norm() < 2e-3) throw Skip("close points");
    const ConvexPolygon<R> q(pts);
    const typename Tp<R>::VV& v = q.getVertices();
    c.desc << "continuous kind " << t << " n=" << pts.size() << " hull=" << v.size();
    std::vector<std::pair<L, L> > hl;
    const L tol = 4e-4L*sc;
    if (v.size() < 3) c.fail("vertices:number", "degenerate hull of a full set");
    if (t == 1 && (int)v.size() != n) c.fail("vertices:number", "regular polygon: " + std::to_string(v.size()) + " vertices instead of " + std::to_string(n));
    if (t == 2 && v.size() != 4) c.fail("vertices:number", "rectangle: " + std::to_string(v.size()) + " vertices");
    for (size_t i = 0; i < v.size(); ++i)
    {
      size_t k = 0; while (k < pts.size() && !(pts[k] == v[i])) ++k;
      if (k == pts.size()) c.fail("vertices:input", "a vertex is not an input point");
      for (size_t j = 0; j < i; ++j) if (v[i] == v[j]) c.fail("vertices:once", "a vertex appears twice");
      hl.push_back(std::make_pair((L)v[i](0), (L)v[i](1)));
    }
    // counter-clockwise and strictly convex (up to the resolution), winding exactly once
    L turn = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
      const size_t n2 = v.size();
      const L ax = hl[(i + 1)%n2].first - hl[i].first, ay = hl[(i + 1)%n2].second - hl[i].second, bx = hl[(i + 2)%n2].first - hl[(i + 1)%n2].first, by = hl[(i + 2)%n2].second - hl[(i + 1)%n2].second;
      const L an = std::atan2(ax*by - ay*bx, ax*bx + ay*by);
      turn += an;
      if (an < -3e-4L) c.fail("vertices:order", "clockwise turn");
    }
    if (std::fabs(turn - 2*M_PIl) > 1e-3L) c.fail("vertices:order", "the vertices turn by " + num(turn));
    for (size_t i = 0; i < pts.size(); ++i) if (distTo(hl, pts[i](0), pts[i](1)) > tol) c.fail("vertices:cover", "an input point is outside the hull");
    description<R>(c, q, hl, pts, 2*sc, 2 + sc, 2*tol);
    for (size_t i = 0; i < pts.size(); ++i) { c.h((uint64_t)(long)(1e6*pts[i](0))); }
    c.count("continuous_sets"); c.count("continuous_kind" + std::to_string(t));
  }
  template <typename R> void empty(Case& c)
  {
    const typename Tp<R>::VV none;
    const ConvexPolygon<R> a, b(none);
    if (a.getNbVertices() || b.getNbVertices() || a.getNbGeneralConstraints() || b.getNbGeneralConstraints()) c.fail("empty", "a polygon without points has vertices or constraints");
    // assignment replaces everything
    typename Tp<R>::VV p; p.push_back(typename Tp<R>::V2(0, 0)); p.push_back(typename Tp<R>::V2(1, 0)); p.push_back(typename Tp<R>::V2(0, 1));
    ConvexPolygon<R> d(p), e(a);
    e = d; d = a;
    if (e.getNbVertices() != 3 || d.getNbVertices() != 0 || d.getNbGeneralConstraints() != 0) c.fail("assign", "assigned polygon");
  }
  template <typename R> void one(Case& c) { if (c.r.p(0.75)) grid<R>(c); else cont<R>(c); if (c.idx%50 == 0) empty<R>(c); c.nontrivial = true; }
  void fn(Case& c) { if (c.r.p(0.35)) one<float>(c); else one<double>(c); }
}
VH_MAIN(fn)
