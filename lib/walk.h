// Reference schedule of the walk, in whole feedback periods (ticks), and reference foot motion.
#pragma once
#include <ref.h>
#include <mpc-walkgen/convexpolygon.h>

namespace vh
{
  struct Sample { int phase, type, col; };  // phase 0: the current one; col: landing it stands on (-1: current support)

  struct Walk
  {
    enum { DS = 0, LEFT = 1, RIGHT = 2 };
    int N, k, s, d;         // samples, ticks per sample, step period and double support length in samples
    bool move;
    int type; long rem, dur;
    int nextType; long nextDur; bool planned;
    std::vector<Sample> samples;
    std::vector<int> landings;  // supporting foot (LEFT/RIGHT) of the phase which ends with each landing
    long popped;

    Walk(int N_, int k_) : N(N_), k(k_), s(2), d(2), move(false), type(DS), rem(2L*k_), dur(2L*k_), nextType(DS), nextDur(2L*k_), planned(false), popped(0) {}
    int follow(int t) const { return t == DS ? (move ? LEFT : DS) : !move ? DS : t == LEFT ? RIGHT : LEFT; }
    long length(int t) const { return (long)(t == DS ? d : s)*k; }
    bool boundary() const { return rem == 0; }
    void setStep(int n) { if (type != DS) { rem += (long)(n - s)*k; dur += (long)(n - s)*k; } s = n; }
    void setDs(int n) { if (type == DS) { rem += (long)(n - d)*k; dur += (long)(n - d)*k; } d = n; }
    bool canStep(int n) const { return !boundary() && (type == DS || (rem > dur - k && rem + (long)(n - s)*k > 0)); }
    bool canDs(int n) const { return !boundary() && (type != DS || rem + (long)(n - d)*k > 0); }
    // another feedback period, at an instant both of them meet
    bool canTick(int n) const { return rem*n%k == 0 && dur*n%k == 0 && nextDur*n%k == 0; }
    void setTick(int n) { rem = rem*n/k; dur = dur*n/k; nextDur = nextDur*n/k; k = n; }
    // ticks to the first sample, in 1..k
    long first() const { return (rem - 1)%k + 1; }
    bool inAir() const { return type != DS && rem <= dur - k; }

    bool update()
    {
      bool changed = false;
      if (rem == 0) { type = nextType; dur = rem = nextDur; ++popped; changed = true; }
      samples.clear(); landings.clear();
      nextType = follow(type); nextDur = length(nextType);
      int phase = 0, t = type, nland = 0; long end = rem;
      for (int i = 0; i < N; ++i)
      {
        const long at = first() + (long)i*k;
        while (end <= at)
        {
          if (t != DS) { landings.push_back(t); ++nland; }
          t = follow(t); end += length(t); ++phase;
        }
        Sample q; q.phase = phase; q.type = t; q.col = nland - 1;
        samples.push_back(q);
      }
      return changed;
    }
    void tick() { --rem; }
    int supportFoot() const { return type == RIGHT ? RIGHT : type == LEFT ? LEFT : move ? LEFT : 0; }  // 0: middle of the feet
    uint64_t key() const { return ((((uint64_t)type*7 + (uint64_t)move)*101 + (uint64_t)rem)*101 + (uint64_t)dur)*31 + (uint64_t)N; }
  };

  typedef std::vector<std::pair<L, L> > Pts;
  inline L crossOf(const std::pair<L, L>& o, const std::pair<L, L>& a, const std::pair<L, L>& b)
  { return (a.first - o.first)*(b.second - o.second) - (a.second - o.second)*(b.first - o.first); }
  // counter-clockwise hull (monotone chain, extended precision)
  inline Pts hullOf(Pts p)
  {
    std::sort(p.begin(), p.end());
    Pts h(2*p.size()); size_t n = 0;
    for (size_t i = 0; i < p.size(); ++i) { while (n >= 2 && crossOf(h[n - 2], h[n - 1], p[i]) <= 1e-14L) --n; h[n++] = p[i]; }
    for (size_t i = p.size() - 1, t = n + 1; i-- > 0;) { while (n >= t && crossOf(h[n - 2], h[n - 1], p[i]) <= 1e-14L) --n; h[n++] = p[i]; }
    h.resize(n - 1); return h;
  }
  // the library's resolution (1e-4 in length and angle) must not decide what the hull of these points is
  inline bool clearHull(const Pts& p, L eps = 1e-3L)
  {
    const Pts h = hullOf(p);
    if (h.size() < 3) { return false; }
    for (size_t i = 0; i < h.size(); ++i)
    {
      const std::pair<L, L>&a = h[i], &b = h[(i + 1)%h.size()], &c = h[(i + 2)%h.size()];
      const L l1 = hypotl(b.first - a.first, b.second - a.second), l2 = hypotl(c.first - b.first, c.second - b.second);
      if (l1 < 2*eps) { return false; }
      const L m = std::max(std::max(l1, l2), hypotl(c.first - a.first, c.second - a.second));
      if (crossOf(a, b, c) < eps*m*m) { return false; }   // a clear turn as seen from every one of the three
      const L ex = std::fabs(b.first - a.first), ey = std::fabs(b.second - a.second);
      if ((ex > 0 && ex < eps) || (ey > 0 && ey < eps)) { return false; }
    }
    for (size_t i = 0; i < p.size(); ++i)
    {
      bool vertex = false; L in = 1e30L;
      for (size_t j = 0; j < h.size(); ++j)
      {
        if (hypotl(p[i].first - h[j].first, p[i].second - h[j].second) < 1e-12L) { vertex = true; }
        const std::pair<L, L>&a = h[j], &b = h[(j + 1)%h.size()];
        in = std::min(in, crossOf(a, b, p[i])/hypotl(b.first - a.first, b.second - a.second));
      }
      if (!vertex && in < eps) { return false; }
    }
    return true;
  }
  inline Pts shifted(const Pts& p, L x, L y) { Pts q(p); for (size_t i = 0; i < q.size(); ++i) { q[i].first += x; q[i].second += y; } return q; }
  inline L insideOf(const Pts& h, L x, L y)
  {
    L m = 1e30L;
    for (size_t i = 0; i < h.size(); ++i)
    {
      const std::pair<L, L>&a = h[i], &b = h[(i + 1)%h.size()];
      m = std::min(m, crossOf(a, b, std::make_pair(x, y))/hypotl(b.first - a.first, b.second - a.second));
    }
    return m;
  }
  template <typename R>
  MPCWalkgen::ConvexPolygon<R> polyOf(const Pts& p)
  {
    typename Type<R>::vectorOfVector2 v;
    for (size_t i = 0; i < p.size(); ++i) v.push_back(typename Type<R>::Vector2((R)p[i].first, (R)p[i].second));
    return MPCWalkgen::ConvexPolygon<R>(v);
  }
  template <typename R> Pts rounded(Pts p) { for (size_t i = 0; i < p.size(); ++i) { p[i].first = likeFloat() ? (R)(float)p[i].first : (R)p[i].first; p[i].second = likeFloat() ? (R)(float)p[i].second : (R)p[i].second; } return p; }

  // a random convex polygon: kind 0 no edge along an axis, 1 box, 2 anything
  template <typename R>
  Pts rndPoly(Case& c, int kind, L cx, L cy, L hx, L hy, int maxV = 7)
  {
    for (int t = 0; t < 200; ++t)
    {
      Pts p; const int k = kind == 2 ? c.r.i(0, 1) : kind;
      if (k == 1)
      {
        p.push_back(std::make_pair(cx - hx, cy - hy)); p.push_back(std::make_pair(cx + hx, cy - hy));
        p.push_back(std::make_pair(cx + hx, cy + hy)); p.push_back(std::make_pair(cx - hx, cy + hy));
        if (kind == 2 && c.r.p(0.5)) { p[c.r.i(0, 3)] = std::make_pair(cx + hx*c.r.u(-0.9, 0.9), cy + hy*c.r.u(1.2, 1.5)); }
      }
      else
      {
        const int n = c.r.i(3, maxV); const double a0 = c.r.u(0, 6.283);
        for (int i = 0; i < n; ++i) { const double a = a0 + 6.283185307179586*(i + (n > 3 ? c.r.u(-0.3, 0.3) : 0.))/n; p.push_back(std::make_pair(cx + hx*cosl(a), cy + hy*sinl(a))); }
      }
      p = rounded<R>(p);
      if (!clearHull(p)) { continue; }
      const Pts h = hullOf(p);
      if (k == 0)
      {
        bool axis = false;
        for (size_t i = 0; i < h.size(); ++i)
        { const std::pair<L, L>&a = h[i], &b = h[(i + 1)%h.size()]; if (std::fabs(a.first - b.first) < 2e-3L || std::fabs(a.second - b.second) < 2e-3L) axis = true; }
        if (axis) { continue; }
      }
      return h;
    }
    throw Skip("no polygon found");
  }

  // Another polygon: usually any (the given one); sometimes the present one again, or a variant which shares vertices, the extent,
  // the size or the number of sides with it. Always the same number of draws.
  template <typename R>
  Pts nearPoly(Case& c, const Pts& cur, const Pts& fresh, int kind = 2)
  {
    const double z = c.r.u(); Rng q(c.r.next());
    if (cur.size() < 3 || z < 0.6) { return fresh; }
    if (z < 0.64) { return cur; }
    for (int t = 0; t < 20; ++t)
    {
      Pts p(cur); const size_t n = p.size(), a = kind == 1 ? 0 : q.i(0, (int)n - 1); const int how = kind == 1 ? q.i(0, 2) : q.i(0, 6);
      const std::pair<L, L> o = p[a];
      L x0 = o.first, x1 = x0, y0 = o.second, y1 = y0;
      for (size_t i = 0; i < n; ++i) { x0 = std::min(x0, p[i].first); x1 = std::max(x1, p[i].first); y0 = std::min(y0, p[i].second); y1 = std::max(y1, p[i].second); }
      const L kx = q.u(0.8, 1.3), ky = q.p(0.3) ? 1.L : q.u(0.8, 1.3), dx = (x1 - x0)*q.u(-0.2, 0.2), dy = (y1 - y0)*q.u(-0.2, 0.2);
      switch (how)
      {
        case 0: for (size_t i = 0; i < n; ++i) { p[i].first += dx; p[i].second += dy; } break;                    // moved
        case 1: case 2: for (size_t i = 0; i < n; ++i) { p[i].first = o.first + kx*(p[i].first - o.first); p[i].second = o.second + ky*(p[i].second - o.second); } break;   // one vertex kept
        case 3: p[a].first += dx; p[a].second += dy; break;                                                       // one vertex moved
        case 4: if (n > 3) p.erase(p.begin() + a); break;                                                         // one less
        case 5: p.push_back(std::make_pair((o.first + p[(a + 1)%n].first)/2 + dx, (o.second + p[(a + 1)%n].second)/2 + dy)); break;   // one more
        default: for (size_t i = 0; i < n; ++i) p[i].first = x0 + x1 - p[i].first;         // mirrored within the same extent
      }
      p = rounded<R>(p);
      if (!clearHull(p)) { continue; }
      const Pts h = hullOf(p); bool axis = false;
      for (size_t i = 0; i < h.size(); ++i)
      { const std::pair<L, L>&e = h[i], &b = h[(i + 1)%h.size()]; if (std::fabs(e.first - b.first) < 2e-3L || std::fabs(e.second - b.second) < 2e-3L) axis = true; }
      if (kind == 0 && axis) { continue; }
      return h;
    }
    return fresh;
  }

  // the motion of three equal thirds with constant jerks from a state to another one in T
  struct Third
  {
    Mot s; L j[3], T;
    Third(const Mot& a, const Mot& b, L T_) : s(a), T(T_)
    {
      L A[3][4];
      for (int k = 0; k < 3; ++k)
      {
        Mot m = {0, 0, 0};
        for (int i = 0; i < 3; ++i) { m = step(m, i == k, T/3); }
        A[0][k] = m.p/(T*T*T); A[1][k] = m.v/(T*T); A[2][k] = m.a/T;
      }
      const Mot f = step(a, 0, T);
      A[0][3] = (b.p - f.p)/(T*T*T); A[1][3] = (b.v - f.v)/(T*T); A[2][3] = (b.a - f.a)/T;
      for (int k = 0; k < 3; ++k)
      {
        int pv = k; for (int i = k + 1; i < 3; ++i) if (std::fabs(A[i][k]) > std::fabs(A[pv][k])) pv = i;
        for (int q = 0; q < 4; ++q) std::swap(A[k][q], A[pv][q]);
        for (int i = 0; i < 3; ++i) if (i != k) { const L f2 = A[i][k]/A[k][k]; for (int q = k; q < 4; ++q) A[i][q] -= f2*A[k][q]; }
      }
      for (int k = 0; k < 3; ++k) { j[k] = A[k][3]/A[k][k]; }
    }
    Mot at(L t) const
    {
      Mot m = s; const L h = T/3;
      for (int i = 0; i < 3; ++i) { const L q = std::min(std::max(t - i*h, (L)0), h); m = step(m, j[i], q); }
      return m;
    }
  };

  // jerks of the motion whose centre of pressure is z at every sample (S, then every T)
  inline Vec jerksOf(const Mot& m0, const Vec& z, L S, L T, L h, L gx, L gz)
  {
    Vec j; Mot m = m0;
    for (size_t i = 0; i < z.size(); ++i)
    {
      const L t = i ? T : S;
      const Mot a = step(m, 0, t), b = step(m, 1, t);
      const L z0 = copOf(a, h, gx, gz), z1 = copOf(b, h, gx, gz);
      j.push_back((z[i] - z0)/(z1 - z0));
      m = step(m, j.back(), t);
    }
    return j;
  }
}
