#include "common.hpp"
#include "parameter.hpp"
#include "etc.hpp"
#include <memory>
using namespace vf;
void vf::setup(Ctx &) {}
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; std::string fn = c.path("p.yml");
   { std::ofstream o(fn); o << "keep:\n  me: 12\n  too: [1.5, 2.5]\nother: text\npre:\n  existing: 3.25\n"; }
   InputParser ip(fn);
   std::string key = r.pick<std::string>({"new", "new/deep/key", "pre/existing", "pre/sibling", "single_run/poisson0/k"});
   int kind = r.i(0, 2); // double, int, file
   auto untouched = [&](const char *w)
   {
      bool ok = ip.GetRequiredOption<int>("keep/me") == 12 && ip.GetRequiredOption<std::string>("other") == "text" && ip.GetRequiredOption<std::vector<double>>("keep/too") == std::vector<double>({1.5, 2.5});
      if (key != "pre/existing") { ok = ok && ip.GetRequiredOption<double>("pre/existing") == 3.25; }
      c.check(ok, "other-options-untouched", std::string(w) + " key " + key);
   };
   YAML::Node opt; opt["key"] = key;
   if (kind == 0)
   {
      bool lg = r.b(); double lo, hi;
      if (lg) { lo = std::pow(10.0, r.u(-6, 2)); hi = lo * (r.b(0.1) ? 1.0 : std::pow(10.0, r.u(0.01, r.b(0.1) ? 20 : 6))); }
      else { lo = r.u(-10, 10); hi = lo + (r.b(0.1) ? 0.0 : r.u(0, 20)); if (r.b(0.15)) { double s = std::pow(10.0, r.i(-14, 14)); lo *= s; hi *= s; } else if (r.b(0.1)) { lo = r.pick<double>({0.0, 1.0, 100.0, -1.0, -100.0, 1000.0}); hi = lo + r.pick<double>({1.0, 0.5, 10.0, 99.0, 1000.0, 1e6}); } }
      opt["minimum"] = lo; opt["maximum"] = hi; bool lgkey = lg || r.b(); if (lgkey) { opt["log_scale"] = lg; }
      lo = opt["minimum"].as<double>(); hi = opt["maximum"].as<double>();
      DoubleParam p(key, opt); c.check(p.GetKey() == key, "key");
      int n = r.b(0.06) ? r.pick<int>({34, 50, 64, 65, 99, 100, 101, 128, 129, 256, 257, 500}) : r.pick<int>({1, 2, 3, 4, 5, 7, 10, 16, 33}); p.SetSize(n); c.check(p.GetSize() == n, "size"); double sc = std::max(std::fabs(lo), std::fabs(hi));
      double prev = 0;
      for (int q = 0; q < n; q++)
      {
         int k = q; p.SetParam(k, ip); double v = ip.GetRequiredOption<double>(key);
         double t = n == 1 ? 0.0 : k / (double)(n - 1); double ex = lg ? std::exp((1 - t) * std::log(lo) + t * std::log(hi)) : (1 - t) * lo + t * hi;
         c.close(v, ex, lg ? ex : sc, 1e-11, lg ? "log-spaced-value" : "linear-spaced-value", fmt("min %g max %g n %d index %d", lo, hi, n, k));
         if (k == 0) { c.close(v, lo, sc, 1e-13, "first-is-minimum"); } if (k == n - 1 && n > 1) { c.close(v, hi, std::fabs(hi), 1e-11, "last-is-maximum"); }
         if (k) { c.check(v >= prev * (1 - 1e-12 * (prev > 0 ? 1 : -1)) - 1e-300, "monotone"); } prev = v; c.event("indexed real samples");
      }
      // random order gives the same values as ordered
      if (n > 1) { int k = r.i(0, n - 1); p.SetParam(k, ip); double a = ip.GetRequiredOption<double>(key); p.SetParam(n - 1 - k, ip); p.SetParam(k, ip); c.check(biteq(a, ip.GetRequiredOption<double>(key)), "index-determines-value"); }
      double mn = 1e300, mx = -1e300; for (int k = 0; k < 40; k++) { p.SetRandomParam(ip); double v = ip.GetRequiredOption<double>(key); c.check(v >= lo - 1e-12 * sc && v <= hi + 1e-12 * sc, "random-in-range", fmt("%.17g not in [%.17g,%.17g] log %d", v, lo, hi, lg)); mn = std::min(mn, v); mx = std::max(mx, v); c.event("random real samples"); }
      if (hi > lo)
      { // 40 draws: all in one half has probability 2^-39
         double mid = lg ? std::sqrt(lo * hi) : 0.5 * (lo + hi); c.check(mn < mid && mx > mid, "random-covers-range", fmt("min %g max %g in [%g,%g] log %d", mn, mx, lo, hi, lg)); }
      c.sig(fmt("double|log%d|n%d|%s|deg%d", lg, n, key.c_str(), hi == lo)); c.sample(fmt("real %s [%g,%g] log=%d n=%d", key.c_str(), lo, hi, lg, n));
   }
   else
   {
      int lo = r.b(0.2) ? -r.i(1, 50) : r.i(0, 100), hi = lo + r.i(0, 30); bool wide = r.b(0.1); if (wide) { lo = r.pick<int>({0, 1, -1, 5, 99, 1000, -1000, 99999, 100000, 1000000}); hi = lo + r.pick<int>({31, 63, 64, 99, 100, 128, 255, 256, 500, 700}); } opt["minimum"] = lo; opt["maximum"] = hi;
      std::string format = r.pick<std::string>({"file_%05d.h5", "dir/%d/x.mesh", "%08d", "a%db"}); if (r.b(0.1)) { format = std::string(r.pick<int>({16, 32, 64, 100, 128, 150}), 'q') + format; } if (kind == 2) { opt["format"] = format; }
      std::unique_ptr<IntegerParam> p; if (kind == 1) { p.reset(new IntegerParam(key, opt)); } else { p.reset(new FilenameParam(key, opt)); }
      auto decode = [&](int &v) -> bool
      {
         if (kind == 1) { v = ip.GetRequiredOption<int>(key); return true; }
         std::string s = ip.GetRequiredOption<std::string>(key); for (int k = lo; k <= hi; k++) { char b[400]; snprintf(b, sizeof b, format.c_str(), k); if (s == b) { v = k; return true; } } c.fail("file-name-outside-family", s); return false; };
      int n = r.b(wide ? 0.5 : 0.03) ? r.pick<int>({20, 31, 32, 33, 64, 65, 100, 101, 257}) : r.pick<int>({1, 2, 3, 4, 5, 6, 11}); 
      bool maxi = hi > lo && r.b(0.2); if (maxi) { p->SetMaximumSize(); n = p->GetSize(); c.check(n >= 1 && n <= hi - lo + 1, "maximum-size"); } else { p->SetSize(n); }
      int step = (n == 1) ? 0 : (hi - lo) / (n - 1); int prev = 0, d0 = 0; std::set<int> seen;
      for (int k = 0; k < n; k++)
      {
         p->SetParam(k, ip); int v; if (!decode(v)) { break; } c.event(kind == 1 ? "indexed integer samples" : "indexed file samples");
         c.check(v >= lo && v <= hi, "indexed-in-range", fmt("%d not in [%d,%d]", v, lo, hi));
         if (k == 0) { c.check(v == lo, "first-is-minimum"); } if (k == 1) { d0 = v - prev; } if (k >= 1) { c.check(v - prev == d0, "equal-spacing"); } prev = v; seen.insert(v);
         if (!maxi) { c.check(v == lo + k * step, "integer-spaced-value", fmt("[%d,%d] n %d index %d got %d expected %d", lo, hi, n, k, v, lo + k * step)); }
      }
      if (n > 1 && (hi - lo) % (n - 1) == 0 && !maxi) { c.check(prev == hi, "last-is-maximum", fmt("[%d,%d] n %d last %d", lo, hi, n, prev)); }
      if (step >= 1) { c.check((int)seen.size() == n, "distinct-samples"); }
      std::set<int> rs; int draws = hi - lo <= 2 ? 200 : 60; for (int k = 0; k < draws; k++) { p->SetRandomParam(ip); int v; if (!decode(v)) { break; } c.check(v >= lo && v <= hi, "random-in-range", fmt("%d not in [%d,%d]", v, lo, hi)); rs.insert(v); c.event("random integer samples"); }
      if (hi - lo <= 2) { c.check((int)rs.size() == hi - lo + 1, "random-covers-range", fmt("%zu of %d values drawn", rs.size(), hi - lo + 1)); }
      if (kind == 2) { std::vector<std::string> fs; if (r.b()) { fs.push_back("first"); } size_t base = fs.size(); static_cast<FilenameParam *>(p.get())->ParseFilenames(fs);
         bool ok = fs.size() == base + (hi - lo + 1); for (int k = lo; ok && k <= hi; k++) { char b[400]; snprintf(b, sizeof b, format.c_str(), k); ok = fs[base + k - lo] == b; } c.check(ok && (!base || fs[0] == "first"), "file-family-complete", format); c.event("file families listed"); }
      c.sig(fmt("%s|n%d|range%d|%s", kind == 1 ? "int" : "file", n, hi - lo > 8 ? 9 : hi - lo, key.c_str())); c.sample(fmt("%s %s [%d,%d] n=%d", kind == 1 ? "integer" : "file", key.c_str(), lo, hi, n));
   }
   untouched("end");
   // out-of-range index must stop
   if (c.kase % 50 == 7) { int rc = forked([&]() { YAML::Node o; o["minimum"] = 1; o["maximum"] = 5; IntegerParam q("z", o); q.SetSize(3); q.SetParam(r.b() ? 3 : -1, ip); return 0; }); c.check(rc == 1, "index-out-of-range-stops", fmt("outcome %d", rc)); c.event("out-of-range index"); }
}
VF_MAIN(4000, 100000)
