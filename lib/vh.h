// Common part of the monitor programs: deterministic case generation, verdicts,
// coverage counters, and small extended-precision linear algebra.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vh
{
  typedef long double L;
  typedef std::vector<L> Vec;

  inline uint64_t mix(uint64_t z)
  {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27))*0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }

  struct Rng
  {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    double u() { return static_cast<double>(next() >> 11)*(1.0/9007199254740992.0); }
    double u(double a, double b) { return a + (b - a)*u(); }
    // mostly in a..b, now and then in b+1..c
    int tail(int a, int b, int c, double q = 0.04) { return p(q) ? i(b + 1, c) : i(a, b); }
    int i(int a, int b) { return a + static_cast<int>(next()%static_cast<uint64_t>(b - a + 1)); }
    bool p(double q) { return u() < q; }
    // values on a coarse grid (exactly representable, many ties)
    double grid(int a, int b, double step) { return i(a, b)*step; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[next()%v.size()]; }
  };

  struct Fail
  {
    std::string key, msg;
    Fail(const std::string& k, const std::string& m) : key(k), msg(m) {}
  };
  struct Skip { std::string why; explicit Skip(const std::string& w) : why(w) {} };

  struct Case
  {
    uint64_t seed; long idx; Rng r;
    std::ostringstream desc;
    uint64_t sig; bool nontrivial;
    std::map<std::string, long>* cnt;
    std::set<uint64_t>* states;
    bool verbose;
    Case(uint64_t s, long i) : seed(s), idx(i), r(mix(s*0x1234567ull + 77) ^ mix(static_cast<uint64_t>(i) + 0xABCDEFull)),
                               sig(0), nontrivial(false), cnt(0), states(0), verbose(false) { desc.precision(17); }
    void count(const std::string& k, long n = 1) { (*cnt)[k] += n; }
    void max(const std::string& k, long v) { long& x = (*cnt)["max_" + k]; if (v > x) { x = v; } }
    void h(uint64_t v) { sig = mix(sig ^ mix(v)); }
    void state(uint64_t v) { states->insert(v); }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }
  };

  inline std::string num(L v) { char b[64]; snprintf(b, sizeof b, "%.12Lg", v); return b; }

  // |a-b| <= tol*scale, NaN never accepted
  inline bool close(L a, L b, L tol, L scale = 1) { return std::fabs(a - b) <= tol*scale; }

  inline void checkClose(Case& c, L got, L want, L absTol, const std::string& key, const std::string& where)
  {
    if (!(std::fabs(got - want) <= absTol))
      c.fail(key, where + ": got " + num(got) + ", expected " + num(want) + " (tolerance " + num(absTol) + ")");
    // observed error as a fraction of the tolerance, in 1e-6
    if (absTol > 0) { c.max("err_ppm_of_tol", static_cast<long>(1e6L*std::fabs(got - want)/absTol)); }
  }

  inline std::string jstr(const std::string& s)
  {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
      const unsigned char ch = s[i];
      if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
      else if (ch == '\n') { o += "\\n"; }
      else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else { o += ch; }
    }
    return o + "\"";
  }

  typedef void (*CaseFn)(Case&);

  // usage: prog --seed S --from A --step K --count N --out FILE --cur FILE [--case I] [--verbose]
  inline int run(int argc, char** argv, CaseFn fn)
  {
    uint64_t seed = 1; long from = 0, step = 1, count = 1, one = -1; bool verbose = false; long maxFail = 20;
    std::string out, cur;
    for (int i = 1; i < argc; ++i)
    {
      const std::string a = argv[i];
      if (a == "--verbose") { verbose = true; continue; }
      if (i + 1 >= argc) { break; }
      const char* v = argv[++i];
      if (a == "--seed") { seed = strtoull(v, 0, 10); }
      else if (a == "--from") { from = atol(v); }
      else if (a == "--step") { step = atol(v); }
      else if (a == "--count") { count = atol(v); }
      else if (a == "--out") { out = v; }
      else if (a == "--cur") { cur = v; }
      else if (a == "--case") { one = atol(v); }
      else if (a == "--maxfail") { maxFail = atol(v); }
    }
    if (one >= 0) { from = one; step = 1; count = 1; }
    std::map<std::string, long> cnt;
    std::set<uint64_t> sigs, states;
    std::ostringstream fails, samples;
    long nfail = 0, nskip = 0, nrun = 0, nsample = 0;
    const int fd = cur.empty() ? -1 : open(cur.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    for (long k = 0; k < count && nfail < maxFail; ++k)
    {
      const long idx = from + k*step;
      if (fd >= 0)
      {
        char b[32]; const int n = snprintf(b, sizeof b, "%020ld\n", idx);
        if (pwrite(fd, b, n, 0) != n) { perror("pwrite"); return 3; }
      }
      Case c(seed, idx);
      c.cnt = &cnt; c.states = &states; c.verbose = verbose;
      ++nrun;
      try { fn(c); }
      catch (const Skip& s) { ++nskip; cnt["skip:" + s.why] += 1; if (verbose) { printf("SKIP %s\n%s\n", s.why.c_str(), c.desc.str().c_str()); } continue; }
      catch (const Fail& f)
      {
        if (nfail) { fails << ","; }
        ++nfail;
        fails << "{\"case\":" << idx << ",\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg) << ",\"desc\":" << jstr(c.desc.str().substr(0, 6000)) << "}";
        if (verbose || out.empty()) { printf("FAIL case %ld [%s] %s\n%s\n", idx, f.key.c_str(), f.msg.c_str(), c.desc.str().c_str()); }
        continue;
      }
      if (c.nontrivial) { sigs.insert(c.sig); }
      if (verbose) { printf("OK case %ld\n%s\n", idx, c.desc.str().c_str()); }
      if (nsample < 2 && c.nontrivial)
      {
        if (nsample) { samples << ","; }
        ++nsample;
        samples << jstr(("case " + std::to_string(idx) + ": " + c.desc.str()).substr(0, 900));
      }
    }
    std::ostringstream o;
    o << "{\"run\":" << nrun << ",\"skipped\":" << nskip << ",\"fails\":[" << fails.str() << "],\"samples\":[" << samples.str() << "],\"counters\":{";
    bool first = true;
    for (std::map<std::string, long>::const_iterator it = cnt.begin(); it != cnt.end(); ++it)
    { if (!first) { o << ","; } first = false; o << jstr(it->first) << ":" << it->second; }
    o << "},\"sigs\":[";
    first = true;
    for (std::set<uint64_t>::const_iterator it = sigs.begin(); it != sigs.end(); ++it) { if (!first) { o << ","; } first = false; o << *it; }
    o << "],\"states\":[";
    first = true;
    for (std::set<uint64_t>::const_iterator it = states.begin(); it != states.end(); ++it) { if (!first) { o << ","; } first = false; o << *it; }
    o << "]}\n";
    if (!out.empty())
    {
      FILE* f = fopen(out.c_str(), "w");
      if (!f) { perror("out"); return 3; }
      fputs(o.str().c_str(), f); fclose(f);
    }
    else
    {
      printf("run %ld skipped %ld fails %ld distinct %zu states %zu\n", nrun, nskip, nfail, sigs.size(), states.size());
      for (std::map<std::string, long>::const_iterator it = cnt.begin(); it != cnt.end(); ++it) { printf("  %s = %ld\n", it->first.c_str(), it->second); }
    }
    return nfail ? 10 : 0;
  }

  // ---- reference motion: exact integration of a piecewise constant jerk ----
  struct Mot { L p, v, a; };
  inline Mot step(const Mot& m, L j, L t)
  {
    // integrate the derivatives from the top: a(t)=a+jt, v(t)=v+int a, p(t)=p+int v
    Mot o;
    o.a = m.a + j*t;
    o.v = m.v + t*(m.a + o.a)/2;
    o.p = m.p + m.v*t + t*t*(2*m.a + o.a)/6;
    return o;
  }
  // motion at samples 0..N-1: first after S, then every T; jerk j[0] over S, j[i] over the i-th T
  inline std::vector<Mot> preview(const Mot& m0, const Vec& j, L S, L T)
  {
    std::vector<Mot> r; Mot m = m0;
    for (size_t i = 0; i < j.size(); ++i) { m = step(m, j[i], i ? T : S); r.push_back(m); }
    return r;
  }
}

#define VH_MAIN(fn) int main(int argc, char** argv) { return vh::run(argc, argv, fn); }
