// P23: runs on several MPI processes: the configuration, the timing report and the division of samples seen by every process.
// The monitoring process starts mpirun jobs of this same program (--job) and judges what each process recorded.
#include "common.hpp"
#include "etc.hpp"
#include "sample_generator.hpp"
#include "random_sample_generator.hpp"
#include <chrono>
#include <fcntl.h>
using namespace vf;
void vf::setup(Ctx &) {}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct CapOut { int saved; std::string f; CapOut(const std::string &fn) : f(fn) { fflush(stdout); saved = dup(1); int h = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(h, 1); close(h); } std::string done() { fflush(stdout); dup2(saved, 1); close(saved); std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); } };

struct Busy { double lo = 0, hi = 0; int calls = 0; };
static int job(const std::string &dir, uint64_t seed, int nscen)
{
   int rank, np; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
   std::ofstream rec(dir + fmt("/rank%d", rank)); rec.precision(17);
   for (int s = 0; s < nscen; s++)
   {
      Rng sh(seed * 7919 + s), own(seed * 104729 + 31 * s + rank + 1); sh.next(); own.next(); int kind = s % 3;
      if (kind == 0)
      { // configuration: only the first process can read the file
         std::string f = dir + fmt("/cfg%d.yml", s); std::ifstream o(dir + fmt("/ovr%d", s)); std::stringstream b; b << o.rdbuf();
         InputParser p(rank == 0 ? f : "/nonexistent/not-on-this-node.yml", b.str()); std::string d = YAML::Dump(p.dict_); rec << "config " << s << " " << d.size() << "\n" << d << "\n";
      }
      else if (kind == 1)
      { // time profile, on all processes or on a part of them
         int colour = 0; MPI_Comm comm = MPI_COMM_WORLD; bool split = sh.b(0.4); if (split) { colour = sh.b() ? rank % 2 : (rank + 1) / 2; MPI_Comm_split(MPI_COMM_WORLD, colour, sh.b() ? -rank : rank, &comm); }
         int cr, cn; MPI_Comm_rank(comm, &cr); MPI_Comm_size(comm, &cn); std::string title = fmt("Title%d", s); bool enabled = sh.b(); config.dict_ = YAML::Load(sh.b(0.7) ? fmt("time_profile:\n  %s: %s\n  Other: true\n", title.c_str(), enabled ? "true" : "false") : enabled ? fmt("time_profile: {%s: true}\n", title.c_str()) : std::string("a: b\n"));
         int nf = sh.b(0.1) ? sh.i(6, 24) : sh.i(1, 5); std::vector<std::string> names; for (int k = 0; k < nf; k++) { names.push_back(fmt("%s%d", sh.b() ? "Mult" : "a-function-with-a-long-name-", k)); } std::vector<Busy> B(nf); bool sum = sh.b(); int rounds = sh.i(1, 3), given_title = sh.i(0, 1);
         auto report = [&](const std::string &what, const std::string &out)
         { rec << what << " " << s << " " << colour << " " << cr << " " << cn << " " << nf << " " << sum << " " << enabled << "\n"; for (int k = 0; k < nf; k++) { rec << names[k] << " " << B[k].lo << " " << B[k].hi << " " << B[k].calls << "\n"; } rec << out.size() << "\n" << out << "\n"; };
         std::string of = dir + fmt("/out%d.%d", rank, s);
         {
            std::unique_ptr<TimeProfiler> t(new TimeProfiler(given_title ? title : "before", comm)); if (!given_title) { t->SetTitle(title); }
            for (int q = 0; q < rounds; q++)
            {
               for (int k = 0; k < nf; k++)
               { // the same functions on every process, called and taking as long as it happens
                  int nc = own.i(1, 4); for (int z = 0; z < nc; z++) { double a = now(); t->Start(names[k]); double b = now(); if (own.b(0.4)) { usleep(own.i(0, 3000)); } double c = now(); t->Stop(names[k]); double d = now(); B[k].lo += c - b; B[k].hi += d - a; B[k].calls++; }
               }
               if (sh.b(0.7)) { CapOut o(of); t->Print("Report", sum); report("print", o.done()); }
               if (sh.b(0.3)) { CapOut o(of); t->Print("Report", sum); report("print", o.done()); }
            }
            CapOut o(of); t.reset(); report("destroy", o.done());
         }
         unlink(of.c_str()); if (split) { MPI_Comm_free(&comm); }
      }
      else
      { // division of the samples
         int n = sh.b(0.1) ? sh.i(4, 6) : sh.i(1, 3); bool random = sh.b(0.3); std::string y = "parameterized_problem: {name: p}\nsample_generation:\n"; int total = 1; if (random) { total = sh.b(0.1) ? sh.i(18, 300) : sh.i(1, 17); y += fmt("  random_sample_generator: {number_of_samples: %d}\n", total); } y += "  parameters:\n";
         for (int k = 0; k < n; k++) { int z = sh.i(1, 4); if (!random) { total *= z; } y += fmt("    - {key: q%d, type: integer, sample_size: %d, minimum: 1, maximum: 40}\n", k, z); }
         config.dict_ = YAML::Load(y); std::unique_ptr<SampleGenerator> g(random ? new RandomSampleGenerator(MPI_COMM_WORLD) : new SampleGenerator(MPI_COMM_WORLD)); g->SetParamSpaceSizes();
         rec << "samples " << s << " " << total << " " << g->GetTotalSampleSize() << " " << g->GetProcRank(); for (int k = 0; k < total; k++) if (g->IsMyJob(k)) { rec << " " << k; } rec << " -1\n";
      }
      rec.flush();
   }
   rec << "end\n"; rec.close(); MPI_Barrier(MPI_COMM_WORLD); return 0;
}
static int launch(int np, const std::string &dir, uint64_t seed, int nscen, std::string &log)
{
   fflush(stdout); fflush(stderr); std::string lf = dir + "/log"; pid_t p = fork();
   if (!p)
   {
      setpgid(0, 0); int f = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0); char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n] = 0;
      for (char **e = environ; *e;) { std::string v(*e); std::string k = v.substr(0, v.find('=')); if (k.find("PMIX") == 0 || k.find("OMPI_COMM") == 0 || k == "OMPI_MCA_plm" || k.find("OMPI_MCA_ess") == 0) { unsetenv(k.c_str()); e = environ; } else { e++; } }
      setenv("OMPI_MCA_rmaps_base_oversubscribe", "1", 1); setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1); setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 1); setenv("PRTE_ALLOW_RUN_AS_ROOT", "1", 1);
      std::string a = fmt("%d", np), b = fmt("%llu", (unsigned long long)seed), c = fmt("%d", nscen); execlp("mpirun", "mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-np", a.c_str(), exe, "--job", dir.c_str(), b.c_str(), c.c_str(), nullptr); _exit(77);
   }
   double t0 = now(); int st; for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) { break; } if (now() - t0 > 70) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); st = -1; break; } usleep(5000); }
   std::ifstream i(lf); std::stringstream o; o << i.rdbuf(); log = o.str(); return st == -1 ? 3 : WIFEXITED(st) ? WEXITSTATUS(st) : 2;
}
struct ProfTable { std::vector<std::string> name; std::vector<double> tot, per; std::vector<long> calls; bool ok = true; std::string title; };
static ProfTable parse(const std::string &s)
{
   ProfTable t; std::istringstream i(s); std::string l; int n = 0; while (std::getline(i, l)) { n++; if (n == 1) { t.title = l; continue; } if (l.empty() || l[0] == '=') { continue; } if (l.find("Function") != std::string::npos && n == 3) { continue; }
      size_t p[4] = {0}; std::vector<std::string> f; std::stringstream q(l); std::string x; while (std::getline(q, x, '\t')) { size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' '); f.push_back(a == std::string::npos ? "" : x.substr(a, b - a + 1)); } (void)p;
      if (f.size() != 4) { t.ok = false; continue; } t.name.push_back(f[0]); t.tot.push_back(atof(f[1].c_str())); t.calls.push_back(atol(f[2].c_str())); t.per.push_back(atof(f[3].c_str())); }
   return t;
}
struct Rep { std::string what, out; int s, colour, cr, cn, nf, sum, en; std::vector<std::string> names; std::vector<Busy> b; };
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int np = c.kase < 4 ? c.kase + 1 : r.pick<int>({1, 2, 2, 3, 3, 4, 5}), nscen = 30; uint64_t seed = r.next() % 1000000007ULL; std::string dir = c.path(fmt("j%d", c.kase)); mkdir(dir.c_str(), 0700); std::map<int, std::string> want;
   static const std::vector<std::string> vals = {"1", "-3.5", "true", "text", "'a b c'", "[1, 2, 3]", "{x: 1, y: [a, b]}", "1e-12", "''"};
   for (int s = 0; s < nscen; s += 3)
   { // short, medium and large inputs
      std::string y; int n = r.pick<int>({1, 1, 2, 5, 30, 400}); for (int k = 0; k < n; k++) { y += fmt("%s%d: %s\n", r.pick<std::string>({"k", "key", "a-rather-long-key-"}).c_str(), k, r.pick(vals).c_str()); if (r.b(0.2)) { y += fmt("m%d:\n  sub: %s\n  deep:\n    er: %s\n", k, r.pick(vals).c_str(), r.pick(vals).c_str()); } } if (r.b(0.1)) { y = "a: 1"; }
      std::string f = dir + fmt("/cfg%d.yml", s), ov; int no = r.b(0.5) ? 0 : r.i(1, 3); for (int k = 0; k < no; k++) { ov += (k ? ":" : "") + r.pick<std::string>({"k0", "new/deep/key", "main/solver", "m1/sub"}) + "=" + r.pick<std::string>({"7", "abc", "0.25", "[4, 5]"}); }
      { std::ofstream o(f); o << y; } { std::ofstream o(dir + fmt("/ovr%d", s)); o << ov; } InputParser p(f, ov); want[s] = YAML::Dump(p.dict_);
   }
   std::string log; int rc = launch(np, dir, seed, nscen, log); c.event("parallel jobs"); c.event(fmt("jobs on %d processes", np));
   if (rc != 0) { std::string l2; rc = launch(np, dir, seed, nscen, log); c.event("jobs started again"); if (rc != 0 && system("mpirun --allow-run-as-root --oversubscribe -np 2 true > /dev/null 2>&1")) { c.event("mpirun cannot be used here"); return; } }
   bool all = rc == 0; std::vector<std::vector<Rep>> R(np); std::map<int, std::vector<std::vector<int>>> S; std::map<int, int> tot;
   for (int q = 0; q < np && all; q++)
   {
      std::ifstream i(dir + fmt("/rank%d", q)); std::string w; bool end = false;
      while (i >> w)
      {
         if (w == "end") { end = true; break; }
         int s; i >> s;
         if (w == "config") { size_t n; i >> n; i.get(); std::string d(n, 0); i.read(&d[0], n); c.check(d == want[s], "configuration-same-on-every-process", fmt("process %d of %d: %zu characters, expected %zu", q, np, d.size(), want[s].size())); c.event("configurations compared"); c.sig(fmt("config|np%d|rank%d|%s", np, q == 0 ? 0 : q == np - 1 ? 2 : 1, d.size() < 16 ? "tiny" : d.size() < 40 ? "small" : d.size() < 1000 ? "medium" : "large")); }
         else if (w == "samples") { int t0, t1, pr, k; i >> t0 >> t1 >> pr; c.check(t0 == t1 && pr == q, "sample-total", fmt("%d expected %d", t1, t0)); tot[s] = t0; S[s].resize(np); while (i >> k && k >= 0) { S[s][q].push_back(k); } }
         else { Rep p; p.what = w; p.s = s; i >> p.colour >> p.cr >> p.cn >> p.nf >> p.sum >> p.en; for (int k = 0; k < p.nf; k++) { std::string n; Busy b; i >> n >> b.lo >> b.hi >> b.calls; p.names.push_back(n); p.b.push_back(b); } size_t n; i >> n; i.get(); p.out.resize(n); i.read(&p.out[0], n); R[q].push_back(p); }
      }
      all = all && end;
   }
   if (!c.check(all, "parallel-run-completes", fmt("%d processes: outcome %d\n%s", np, rc, log.substr(0, 1200).c_str()))) { return; }
   for (auto &x : S)
   {
      std::vector<int> seen(tot[x.first], 0); bool contiguous = true; size_t mn = 1e9, mx = 0; for (auto &v : x.second) { for (int k : v) { seen[k]++; } mn = std::min(mn, v.size()); mx = std::max(mx, v.size()); } (void)contiguous;
      bool once = true; for (int k : seen) { once = once && k == 1; } c.check(once, "every-sample-on-one-process", fmt("%d samples on %d processes", tot[x.first], np)); c.check(mx - mn <= 1, "samples-balanced"); c.event("sample divisions"); c.sig(fmt("samples|np%d|%s", np, tot[x.first] < np ? "fewer" : tot[x.first] % np ? "uneven" : "even"));
   }
   size_t n = R[0].size(); for (int q = 0; q < np; q++) { n = std::min(n, R[q].size()); }
   for (size_t k = 0; k < n; k++)
   {
      for (int q = 0; q < np; q++)
      {
         Rep &p = R[q][k]; bool quiet = p.what == "destroy" && !p.en; c.event("timing reports"); c.sig(fmt("time|np%d|of%d|%s%d|sum%d|f%d|%s", np, p.cn, p.what.c_str(), p.en, p.sum, p.nf, p.cr == 0 ? "root" : "other"));
         if (p.cr != 0 || quiet) { c.check(p.out.empty(), quiet ? "silent-unless-enabled" : "only-the-first-process-reports", fmt("process %d of %d wrote '%s'", p.cr, p.cn, p.out.substr(0, 80).c_str())); continue; }
         ProfTable t = parse(p.out); bool sum = p.what == "print" && p.sum; if (!c.check(t.ok && (int)t.name.size() == p.nf + sum, "report-rows", p.out)) { continue; } c.check(t.title == (p.what == "print" ? "Report" : fmt("Title%d", p.s)), "report-title", t.title);
         double T = 0; for (int f = 0; f < p.nf; f++)
         {
            double lo = 0, hi = 0; long calls = 0; for (int z = 0; z < np; z++) if (R[z][k].colour == p.colour) { lo += R[z][k].b[f].lo; hi += R[z][k].b[f].hi; calls += R[z][k].b[f].calls; }
            c.check(t.name[f] == p.names[f].substr(0, 200), "report-name", t.name[f]); c.check(t.calls[f] == calls, "calls-summed-over-processes", fmt("%s: %ld expected %ld (%d processes, report %zu)", t.name[f].c_str(), t.calls[f], calls, p.cn, k));
            c.check(t.tot[f] >= lo * 0.999 - 1e-6 * calls && t.tot[f] <= hi * 1.001 + 1e-6 * calls, "time-summed-over-processes", fmt("%s: %g not in [%g, %g] (%ld calls)", t.name[f].c_str(), t.tot[f], lo, hi, calls)); c.close(t.per[f], t.tot[f] / t.calls[f], t.tot[f] / t.calls[f] + 1e-12, 2e-5, "time-per-call"); T += t.tot[f];
         }
         if (sum) { c.close(t.tot[p.nf], T, T + 1e-12, 1e-4, "total-time-is-the-sum-of-the-rows", fmt("%d processes", p.cn)); }
      }
   }
   c.sample(fmt("%d processes, %zu timing reports, %zu sample divisions, %zu configurations", np, n, S.size(), want.size()));
   std::string cmd = "rm -rf '" + dir + "'"; if (dir.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
}
int vf::num_cases(const std::string &t) { return t == "thorough" ? 400 : 24; }
int main(int argc, char **argv)
{
   if (argc > 4 && std::string(argv[1]) == "--job")
   {
      MPI_Init(&argc, &argv); int rc = job(argv[2], std::stoull(argv[3]), atoi(argv[4])); MPI_Finalize(); fflush(stdout); _exit(rc);
   }
   int rc = vf::driver_main(argc, argv); fflush(stdout); fflush(stderr); _exit(rc);
}
