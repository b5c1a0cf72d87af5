// P25: parameter sweeps - index <-> tuple, division over processes, the values put into the configuration, file names.
#include "common.hpp"
#include "etc.hpp"
#include "sample_generator.hpp"
#include "random_sample_generator.hpp"
#include <memory>
using namespace vf;
void vf::setup(Ctx &) {}
struct SG : SampleGenerator { SG() : SampleGenerator(MPI_COMM_SELF) {} void as(int n, int k) { num_procs = n; proc_rank = k; DistributeSamples(); } };
struct RG : RandomSampleGenerator { RG() : RandomSampleGenerator(MPI_COMM_SELF) {} void as(int n, int k) { num_procs = n; proc_rank = k; DistributeSamples(); } };
struct Par { int kind, size, lo, hi; bool lg; double a, b; std::string key, format; };
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int np = r.b(0.06) ? r.i(5, 6) : r.i(1, 4), total = 1; bool random = r.b(0.35); std::vector<Par> P; std::vector<std::string> keys = {"a", "deep/b", "deep/c/d", "single_run/p/k", "other/x", "z"};
   std::string y = "keep: {me: 12}\n", dirn = r.b(0.5) ? "" : r.pick<std::string>({"out", "/tmp/not/made", "."}), pre = r.b(0.5) ? "" : "my_prefix", prob = r.b(0.6) ? "poisson0" : ""; int off = r.b(0.4) ? r.i(1, r.b(0.1) ? 2000000 : 500) : 0; bool withoff = off > 0, wf = !dirn.empty() || !pre.empty() || withoff;
   if (!prob.empty()) { y += "parameterized_problem: {name: " + prob + "}\n"; } y += "sample_generation:\n"; if (random || r.b(0.3)) { y += std::string("  type: ") + (random ? "random" : "base") + "\n"; }
   if (wf) { y += "  file_path:\n"; if (!dirn.empty()) { y += "    directory: " + dirn + "\n"; } if (!pre.empty()) { y += "    prefix: " + pre + "\n"; } if (withoff) { y += fmt("    offset: %d\n", off); } }
   int nrand = r.b(0.05) ? r.i(31, 500) : r.i(1, 30); if (random) { y += fmt("  random_sample_generator: {number_of_samples: %d}\n", nrand); } y += "  parameters:\n";
   for (int k = 0; k < np; k++)
   {
      Par p; p.kind = r.i(0, 2); p.size = np > 4 ? r.i(1, 3) : np <= 2 && r.b(0.06) ? r.i(8, 30) : r.pick<int>({1, 1, 2, 3, 4, 5, 7}); int at = r.i(0, (int)keys.size() - 1); p.key = keys[at]; keys.erase(keys.begin() + at); p.lg = r.b(0.3); p.a = p.lg ? r.u(0.01, 1) : r.u(-5, 5); p.b = p.a + r.u(0.1, 10); if (r.b(0.06)) { double f = r.pick<double>({1e-8, 1e6, 1e-3}); p.a *= f; p.b *= f; } p.lo = r.b(0.1) ? r.i(-50, 2000) : r.i(0, 9); p.hi = p.lo + (r.b(0.05) ? r.i(41, 5000) : r.i(0, 40)); p.format = r.pick<std::string>({"f%03d.h5", "x/%d"});
      p.a = atof(fmt("%.17g", p.a).c_str()); y += fmt("    - key: %s\n      type: %s\n", p.key.c_str(), p.kind == 0 ? "double" : p.kind == 1 ? "integer" : "filename"); if (!random || r.b()) { y += fmt("      sample_size: %d\n", p.size); }
      if (p.kind == 0) { y += fmt("      minimum: %.17g\n      maximum: %.17g\n", p.a, p.b); if (p.lg) { y += "      log_scale: true\n"; } } else { y += fmt("      minimum: %d\n      maximum: %d\n", p.lo, p.hi); if (p.kind == 2) { y += "      format: \"" + p.format + "\"\n"; } }
      total *= p.size; P.push_back(p);
   }
   if (random) { total = nrand; } { std::ofstream o(c.path("c.yml")); o << y; } config = InputParser(c.path("c.yml"));
   SG *sg = nullptr; RG *rg = nullptr; if (random) { rg = new RG; } else { sg = new SG; } std::unique_ptr<SampleGenerator> g(random ? (SampleGenerator *)rg : sg);
   g->SetParamSpaceSizes(); c.check(g->GetNumSampleParams() == np && g->GetTotalSampleSize() == total, "total-is-the-product", fmt("%d expected %d", g->GetTotalSampleSize(), total)); c.check(g->GetType() == (random ? RANDOM : BASE), "generator-kind"); c.check(g->GetFileOffset() == off, "file-offset");
   { Array<int> sz = g->GetSampleSizes(); bool ok = sz.Size() == np; for (int k = 0; ok && k < np; k++) { ok = sz[k] == (random ? total : P[k].size); } c.check(ok, "sizes"); }
   c.sig(fmt("%s|params%d|total%s", random ? "random" : "grid", np, total == 1 ? "1" : total < 10 ? "<10" : total < 100 ? "<100" : "big"));
   auto value = [&](int k, int idx, std::string &err) -> bool
   { // the value parameter k must have at grid index idx (random: any value of its range)
      Par &p = P[k];
      if (p.kind == 0)
      {
         double v = config.GetRequiredOption<double>(p.key), sc = std::max(std::fabs(p.a), std::fabs(p.b)); if (random) { err = fmt("%g not in [%g,%g]", v, p.a, p.b); return v >= p.a - 1e-12 * sc && v <= p.b + 1e-12 * sc; }
         double t = p.size == 1 ? 0 : idx / (double)(p.size - 1), e = p.lg ? p.a * std::pow(p.b / p.a, t) : p.a + t * (p.b - p.a); err = fmt("%s %.17g expected %.17g", p.key.c_str(), v, e); return std::fabs(v - e) <= 1e-11 * sc;
      }
      auto is = [&](int q) { return p.kind == 1 ? config.GetRequiredOption<int>(p.key) == q : config.GetRequiredOption<std::string>(p.key) == string_format(p.format, q); };
      if (random) { for (int q = p.lo; q <= p.hi; q++) if (is(q)) { return true; } err = "outside its range"; return false; } int q = p.lo + (p.size == 1 ? 0 : idx * ((p.hi - p.lo) / (p.size - 1))); err = fmt("%s not %d", p.key.c_str(), q); return is(q); };
   std::vector<int> visit(total, 0); int step = total > 400 ? 1 + total / 400 : 1; std::set<std::string> paths; std::set<std::vector<int>> tuples;
   for (int s = 0; s < total; s += step)
   {
      Array<int> t = g->GetSampleIndex(s); bool ok = t.Size() == np; int q = s; std::vector<int> e(np); if (random) { for (int k = 0; k < np; k++) { e[k] = s; } } else for (int k = np - 1; k >= 0; k--) { e[k] = q % P[k].size; q /= P[k].size; } // last parameter fastest
      std::string txt; for (int k = 0; ok && k < np; k++) { ok = t[k] == e[k]; txt += fmt("%d ", t[k]); } c.check(ok, "index-to-tuple", fmt("sample %d of %d -> %s", s, total, txt.c_str())); if (ok) { tuples.insert(e); }
      Array<int> ta(np); for (int k = 0; k < np; k++) { ta[k] = e[k]; } c.check(g->GetSampleIndex(ta) == s, "tuple-to-index", fmt("%d expected %d", g->GetSampleIndex(ta), s));
      int o2 = r.i(0, total - 1); if (r.b(0.3)) { g->SetSampleParams(o2); } if (r.b()) { g->SetSampleParams(s); } else { g->SetSampleParams(ta); }
      for (int k = 0; k < np; k++) { std::string err; bool v = value(k, e[k], err); c.check(v, random ? "random-value-in-range" : "value-of-the-tuple", fmt("sample %d of %d, parameter %d: %s", s, total, k, err.c_str())); } c.check(config.GetRequiredOption<int>("keep/me") == 12, "other-options-untouched"); c.event("samples set");
      std::string pth = g->GetSamplePath(s + off, r.b() ? "" : "visual"); paths.insert(g->GetSamplePath(s + off)); bool isv = pth.find("visual") != std::string::npos; std::string pe = (dirn.empty() ? "." : dirn) + "/sample" + std::to_string(s + off) + "_" + (isv ? "visual" : !pre.empty() ? pre : prob.empty() ? "sample" : prob); c.check(pth == pe, "sample-path", pth + " expected " + pe);
   }
   c.check((int)paths.size() == (total + step - 1) / step, "sample-paths-distinct"); c.check((int)tuples.size() == (total + step - 1) / step, "tuples-distinct");
   c.check(g->GetSamplePrefix() == (dirn.empty() ? "." : dirn) + "/" + (!pre.empty() ? pre : prob.empty() ? "sample" : prob) + "_sample", "sample-prefix", g->GetSamplePrefix());
   for (int n : {1, 2, 3, total, total + 3, r.i(1, 40)})
   {
      std::fill(visit.begin(), visit.end(), 0); int mn = 1e9, mx = 0; for (int k = 0; k < n; k++) { if (random) { rg->as(n, k); } else { sg->as(n, k); } int q = 0; for (int s = 0; s < total; s++) { bool mine = g->IsMyJob(s); if (mine) { visit[s]++; q++; } if (s % 7 == 0) { c.check(g->IsMyJob(g->GetSampleIndex(s)) == mine, "job-by-tuple"); } } c.check(!g->IsMyJob(total) && !g->IsMyJob(-1), "job-outside"); mn = std::min(mn, q); mx = std::max(mx, q); }
      bool once = true; for (int v : visit) { once = once && v == 1; } c.check(once, "every-sample-on-one-process", fmt("%d samples over %d processes", total, n)); c.check(mx - mn <= 1, "samples-balanced", fmt("%d samples over %d processes: between %d and %d", total, n, mn, mx)); c.event("divisions"); c.sig(fmt("divide|%s|%s", n == 1 ? "1" : n < total ? "few" : n == total ? "equal" : "more", total % n ? "uneven" : "even"));
   }
   if (c.kase % 40 == 3)
   {
      int k = r.i(0, 3), rc = forked([&]() { if (k == 0) { YAML::Node d = YAML::Load("sample_generation: {file_path: {prefix: x}}"); config.dict_ = d; SG z; } else if (k == 1) { std::string q = y; size_t a = q.find("type: double"); if (a == std::string::npos) { a = q.find("type: integer"); } if (a == std::string::npos) { a = q.find("type: filename"); } q.replace(a, 10, "type: odd#"); config.dict_ = YAML::Load(q); SG z; } else if (k == 2) { Array<int> t(np + 1); t = 0; g->GetSampleIndex(t); } else { Array<int> t(np); t = total + 5; g->GetSampleIndex(t); } return 0; });
      c.check(rc == 1, "unusable-request-stops", fmt("kind %d outcome %d", k, rc)); c.event("unusable requests");
   }
   c.sample(fmt("%s sweep of %d samples over %d parameters", random ? "random" : "grid", total, np));
}
VF_MAIN(1200, 30000)
