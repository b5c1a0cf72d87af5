// Shared runtime-monitoring scaffold: deterministic workload RNG, monitor context, case loop.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mfem.hpp"
#include <hdf5.h>
#include "input_parser.hpp"
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// Stand-in for MPI_Abort: ends only this process (a forked child of an MPI process must not run the real one).
extern "C" int MPI_Abort(MPI_Comm, int code)
{
   fprintf(stderr, "MPI_Abort stand-in: code %d\n", code); fflush(stderr); _exit(code ? (code & 127) | 1 : 1);
}

namespace vf {

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(seed) {}
   uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
   int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }   // inclusive
   double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
   double u(double a, double b) { return a + (b - a) * u(); }
   double n() { double t = 0; for (int k = 0; k < 6; k++) { t += u(-1, 1); } return t; }
   bool b(double p = 0.5) { return u() < p; }
   template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
   void fill(mfem::Vector &v, double lo = -1, double hi = 1) { for (int k = 0; k < v.Size(); k++) { v(k) = u(lo, hi); } }
   void fill(mfem::DenseMatrix &m, double lo = -1, double hi = 1)
   { for (int j = 0; j < m.Width(); j++) for (int k = 0; k < m.Height(); k++) { m(k, j) = u(lo, hi); } }
};

inline std::string fmt(const char *f, ...)
{
   char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

struct Violation { int kase; std::string key, detail; };

struct Ctx {
   uint64_t seed = 1; int kase = 0; std::string tier = "quick"; std::string dir; // dir: private scratch directory
   Rng rng;
   long evaluations = 0;
   std::set<std::string> sigs;
   std::map<std::string, long> events;
   std::vector<std::string> samples;
   std::vector<Violation> viols;
   std::map<std::string, double> maxima;

   void sig(const std::string &s) { sigs.insert(s); }
   void event(const std::string &s, long n = 1) { events[s] += n; }
   void sample(const std::string &s) { if (samples.size() < 6) { samples.push_back(fmt("case %d: ", kase) + s); } }
   void fail(const std::string &key, const std::string &detail)
   {
      if (viols.size() < 200) { viols.push_back({kase, key, detail}); }
      fprintf(stderr, "MONITOR case %d key=%s %s\n", kase, key.c_str(), detail.c_str());
   }
   bool check(bool ok, const std::string &key, const std::string &detail = "")
   { evaluations++; if (!ok) { fail(key, detail); } return ok; }
   // |a-b| <= tol*scale ; NaN fails
   bool close(double a, double b, double scale, double tol, const std::string &key, const std::string &what = "")
   {
      evaluations++;
      double err = std::fabs(a - b), bound = tol * scale;
      if (a == b) { return true; }
      if (!(err <= bound)) { fail(key, fmt("%s got %.17g expected %.17g err %.3g bound %.3g", what.c_str(), a, b, err, bound)); return false; }
      if (scale > 0) { double &m = maxima[key]; m = std::max(m, err / scale); }
      return true;
   }
   bool closeVec(const mfem::Vector &a, const mfem::Vector &b, double tol, const std::string &key, const std::string &what = "", double minscale = 1e-300)
   {
      evaluations++;
      if (a.Size() != b.Size()) { fail(key, fmt("%s size %d vs %d", what.c_str(), a.Size(), b.Size())); return false; }
      double sc = minscale; for (int k = 0; k < b.Size(); k++) { sc = std::max(sc, std::max(std::fabs(b(k)), std::isfinite(a(k)) ? 0.0 : 0.0)); }
      for (int k = 0; k < b.Size(); k++)
      {
         double err = std::fabs(a(k) - b(k));
         if (!(err <= tol * sc)) { fail(key, fmt("%s entry %d/%d got %.17g expected %.17g (scale %.3g tol %.1g)", what.c_str(), k, b.Size(), a(k), b(k), sc, tol)); return false; }
         double &m = maxima[key]; m = std::max(m, err / sc);
      }
      return true;
   }
   bool closeMat(const mfem::DenseMatrix &a, const mfem::DenseMatrix &b, double tol, const std::string &key, const std::string &what = "", double minscale = 1e-300)
   {
      evaluations++;
      if (a.Height() != b.Height() || a.Width() != b.Width())
      { fail(key, fmt("%s size %dx%d vs %dx%d", what.c_str(), a.Height(), a.Width(), b.Height(), b.Width())); return false; }
      double sc = minscale;
      for (int j = 0; j < b.Width(); j++) for (int k = 0; k < b.Height(); k++) { sc = std::max(sc, std::fabs(b(k, j))); }
      for (int j = 0; j < b.Width(); j++) for (int k = 0; k < b.Height(); k++)
         {
            double err = std::fabs(a(k, j) - b(k, j));
            if (!(err <= tol * sc)) { fail(key, fmt("%s entry (%d,%d) of %dx%d got %.17g expected %.17g (scale %.3g tol %.1g)", what.c_str(), k, j, b.Height(), b.Width(), a(k, j), b(k, j), sc, tol)); return false; }
            double &m = maxima[key]; m = std::max(m, err / sc);
         }
      return true;
   }
   std::string path(const std::string &name) const { return dir + "/" + name; }
};

inline bool biteq(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

inline std::string jesc(const std::string &s)
{
   std::string o;
   for (unsigned char c : s)
   {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { o += fmt("\\u%04x", c); }
      else { o += c; }
   }
   return o;
}

// Run f in a forked child. Returns: 0 child returned normally (its return value in *ret), 1 non-zero exit / abort (loud failure),
// 2 memory error or other signal, 3 timed out. stderr/stdout of the child are discarded; memory errors are seen by exit code 99.
inline int forked(const std::function<int()> &f, int *ret = nullptr, int secs = 60, std::string *log = nullptr)
{
   fflush(stdout); fflush(stderr);
   int p[2]; if (pipe(p)) { abort(); }
   char tmpl[] = "/tmp/vfXXXXXX"; int lf = mkstemp(tmpl); unlink(tmpl);
   pid_t pid = fork();
   if (pid == 0)
   {
      close(p[0]); dup2(lf, 1); dup2(lf, 2); alarm(secs);
      int r = 0; try { r = f(); } catch (...) { _exit(1); }
      if (write(p[1], &r, sizeof r) != sizeof r) { _exit(1); }
      _exit(0);
   }
   close(p[1]); int r = 0; bool got = read(p[0], &r, sizeof r) == sizeof r; close(p[0]);
   int st; waitpid(pid, &st, 0);
   std::string out;
   { lseek(lf, 0, SEEK_SET); char buf[4096]; ssize_t n; while ((n = read(lf, buf, sizeof buf)) > 0 && out.size() < 20000) { out.append(buf, n); } close(lf); }
   if (log) { *log = out; }
   if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && got) { if (ret) { *ret = r; } return 0; }
   if (out.find("AddressSanitizer") != std::string::npos || out.find("runtime error:") != std::string::npos) { return 2; }
   if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { return 3; }
   if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { return 1; }
   if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { return 1; }
   return 2;
}

void run_case(Ctx &c);            // provided by each driver
int num_cases(const std::string &tier);
void setup(Ctx &c);

// Heap accounting for the leak monitor: while on, every block allocated and not yet released is known with the place it came from.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __asan_get_alloc_stack(void *, void **, size_t, int *);
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
struct Heap
{
   struct E { const volatile void *p; size_t n; int epoch; }; static E *&tab() { static E *t = nullptr; return t; } static size_t cap() { return 1u << 22; }
   static int &epoch() { static int e = 0; return e; } static long &count() { static long n = 0; return n; } static long &held() { static long n = 0; return n; } static bool &busy() { static bool b = false; return b; }
   static size_t slot(const volatile void *p) { return ((uint64_t)p * 0x9E3779B97F4A7C15ULL) >> 42; }
   static void on_malloc(const volatile void *p, size_t n) { if (!epoch() || !p || busy() || held() > (long)cap() / 2) { return; } E *t = tab(); size_t k = slot(p); while (t[k].p && t[k].p != (void *)1 && t[k].p != p) { k = (k + 1) & (cap() - 1); } if (t[k].p != p) { held()++; } t[k] = {p, n, epoch()}; count()++; }
   static void on_free(const volatile void *p) { if (!p || busy() || !tab()) { return; } E *t = tab(); for (size_t k = slot(p); t[k].p; k = (k + 1) & (cap() - 1)) { if (t[k].p == p) { t[k].p = (void *)1; t[k].epoch = 0; held()--; return; } } }
   static void start() { if (!tab()) { tab() = (E *)mmap(nullptr, cap() * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } memset((void *)tab(), 0, cap() * sizeof(E)); held() = 0; epoch() = 1; }
   // HDF5 objects that are open: what the library counts for files (files, groups, sets, attributes, named types), and the data spaces and types, counted here as they come and go
   static long &spaces() { static long n = 0; return n; } static long &types() { static long n = 0; return n; }
   static long handles() { return H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) + spaces() + types(); }
   static long files() { long n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) { n++; } closedir(d); } return n; }
   struct Site { long n[8] = {0}; size_t bytes = 0; std::string key, stack; };
   // blocks still held, by the innermost function of the code under test that asked for them
   static std::map<std::string, Site> left()
   {
      int was = epoch(); epoch() = 0; busy() = true; std::map<std::string, Site> o; std::map<std::vector<void *>, std::vector<E>> by;
      for (size_t k = 0; k < cap(); k++) { E &e = tab()[k]; if (!e.p || e.p == (void *)1) { continue; } void *pc[40]; int th; size_t d = __asan_get_alloc_stack((void *)e.p, pc, 40, &th); by[std::vector<void *>(pc, pc + d)].push_back(e); }
      std::string repo = std::string(getenv("VF_REPO") ? getenv("VF_REPO") : "/repo") + "/";
      for (auto &b : by)
      {
         std::string key, by_driver, st; bool lib = false; for (void *a : b.first) { char buf[1024]; memset(buf, 0, sizeof buf); __sanitizer_symbolize_pc(a, "%f|%s:%l", buf, sizeof buf - 1); std::string f(buf); size_t bar = f.rfind('|'); std::string file = f.substr(bar + 1), fn = f.substr(0, f.find('(')); st += fn + " " + file.substr(file.rfind('/') + 1) + " < "; if (key.empty() && fn.compare(0, 2, "H5") == 0) { lib = true; } if (key.empty() && file.find(repo) == 0) { key = fn; } if (by_driver.empty() && file.find("/drivers/") != std::string::npos) { by_driver = "handed over by " + file.substr(file.rfind('/') + 1); } }
         if (key.empty()) { key = by_driver; }
         if (getenv("VF_ALL") && key.empty()) { fprintf(stderr, "HELD %zu %s\n", b.second.size(), st.substr(0, 400).c_str()); } if (key.empty() || lib) { continue; } Site &z = o[key]; z.key = key; if (z.stack.empty()) { z.stack = st.substr(0, 700); } for (auto &e : b.second) { z.n[e.epoch & 7]++; z.bytes += e.n; }
      }
      busy() = false; epoch() = was; return o;
   }
};

// Stand-ins that count data spaces and types and pass the call on.
template <class F> F real_h5(F, const char *name) { void *p = dlsym(RTLD_NEXT, name); if (!p) { fprintf(stderr, "no %s\n", name); abort(); } return (F)p; }
#define VF_H5(NAME, ARGS, PASS, COUNT) extern "C" hid_t NAME ARGS { static auto f = real_h5(&NAME, #NAME); hid_t r = f PASS; if (r >= 0) { Heap::COUNT()++; } return r; }
VF_H5(H5Dget_space, (hid_t a), (a), spaces) VF_H5(H5Aget_space, (hid_t a), (a), spaces) VF_H5(H5Scopy, (hid_t a), (a), spaces) VF_H5(H5Screate, (H5S_class_t a), (a), spaces)
VF_H5(H5Screate_simple, (int a, const hsize_t b[], const hsize_t d[]), (a, b, d), spaces)
VF_H5(H5Dget_type, (hid_t a), (a), types) VF_H5(H5Aget_type, (hid_t a), (a), types) VF_H5(H5Tcopy, (hid_t a), (a), types) VF_H5(H5Tcreate, (H5T_class_t a, size_t b), (a, b), types) VF_H5(H5Tget_native_type, (hid_t a, H5T_direction_t b), (a, b), types)
#undef VF_H5
extern "C" herr_t H5Sclose(hid_t a) { static auto f = real_h5(&H5Sclose, "H5Sclose"); herr_t r = f(a); if (r >= 0) { Heap::spaces()--; } return r; }
extern "C" herr_t H5Tclose(hid_t a) { static auto f = real_h5(&H5Tclose, "H5Tclose"); herr_t r = f(a); if (r >= 0) { Heap::types()--; } return r; }

// Silence the code's own stdout chatter: stdout goes to /dev/null while cases run.
inline int driver_main(int argc, char **argv)
{
   std::string out = "/dev/stdout", tier = "quick"; uint64_t seed = 1; int from = 0, to = -1, step = 1; bool list = false, verbose = false, leaks = false;
   std::set<int> skip;
   for (int a = 1; a < argc; a++)
   {
      std::string s = argv[a]; auto nx = [&]() { return std::string(argv[++a]); };
      if (s == "--seed") { seed = std::stoull(nx()); }
      else if (s == "--tier") { tier = nx(); }
      else if (s == "--from") { from = std::stoi(nx()); }
      else if (s == "--to") { to = std::stoi(nx()); }
      else if (s == "--step") { step = std::stoi(nx()); }
      else if (s == "--case") { from = std::stoi(nx()); to = from + 1; step = 1; verbose = true; }
      else if (s == "--out") { out = nx(); }
      else if (s == "--skip") { skip.insert(std::stoi(nx())); }
      else if (s == "--leaks") { leaks = true; }
      else if (s == "--list") { list = true; }
   }
   int n = num_cases(tier);
   if (list) { printf("%d\n", n); return 0; }
   if (to < 0 || to > n) { to = n; }
   Ctx c; c.seed = seed; c.tier = tier;
   std::string base = getenv("VF_WORK") ? getenv("VF_WORK") : "/tmp"; base += "/vfcase.XXXXXX";
   std::vector<char> tmpl(base.begin(), base.end()); tmpl.push_back(0);
   if (!mkdtemp(tmpl.data())) { return 3; }
   c.dir = tmpl.data();
   if (!verbose) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }
   if (chdir(c.dir.c_str())) { return 3; }
   setup(c);
   std::string prog = out + ".progress";
   bool wp = out != "/dev/stdout";
   for (int k = from; k < to; k += step)
   {
      if (skip.count(k)) { continue; }
      if (wp) { FILE *f = fopen(prog.c_str(), "w"); fprintf(f, "%d\n", k); fclose(f); }
      c.kase = k; c.rng = Rng(seed * 1000003ULL + 7919ULL * (uint64_t)k + 12345ULL); c.rng.next(); c.rng.next();
      alarm(tier == "quick" ? 120 : 400);
      auto once = [&](Ctx &x) { try { run_case(x); } catch (const std::exception &e) { x.fail("exception", e.what()); } };
      if (!leaks) { once(c); }
      else
      {  // the same work four times: the first fills caches; what the second and third take must be gone when all is done
         std::string sg; long open[4], fds[4];
         for (int rep = 0; rep < 4; rep++)
         {
            alarm(tier == "quick" ? 120 : 400); std::string d = c.dir + fmt("/r%d", rep); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) { return 3; }
            if (rep == 1) { Heap::start(); } if (rep) { Heap::epoch() = rep; } { Ctx x; x.seed = c.seed; x.kase = k; x.tier = c.tier; x.dir = d; x.rng = c.rng; once(x); H5garbage_collect(); open[rep] = Heap::handles(); fds[rep] = Heap::files(); config.dict_.reset(YAML::Node()); if (sg.empty() && x.sigs.size()) { sg = *x.sigs.begin(); } } Heap::epoch() = 0;
            if (chdir(c.dir.c_str())) { return 3; } std::string cmd = "rm -rf '" + d + "'"; if (d.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
         }
         c.check(open[3] <= open[2] || open[2] <= open[1] || open[1] <= open[0], "open-handles", fmt("HDF5 objects open after each of four equal runs: %ld %ld %ld %ld", open[0], open[1], open[2], open[3]));
         c.check(fds[3] <= fds[2] || fds[2] <= fds[1] || fds[1] <= fds[0], "open-files", fmt("files open after each of four equal runs: %ld %ld %ld %ld", fds[0], fds[1], fds[2], fds[3]));
         for (auto &z : Heap::left()) { Heap::Site &t = z.second; c.evaluations++; if (t.n[1] && t.n[2]) { c.fail("leak:" + t.key, fmt("%ld, %ld and %ld blocks (%zu bytes) of three equal runs are still held; from %s", t.n[1], t.n[2], t.n[3], t.bytes, t.stack.c_str())); } }
         c.evaluations += Heap::count(); c.event("allocations followed", Heap::count()); Heap::count() = 0; c.event("cases repeated"); c.sig(sg); if (k % 7 == 0) { c.sample(sg); }
      }
      alarm(0);
   }
   if (wp) { FILE *f = fopen(prog.c_str(), "w"); fprintf(f, "done\n"); fclose(f); }
   FILE *f = wp ? fopen(out.c_str(), "w") : stderr;
   fprintf(f, "{\"evaluations\": %ld, \"sigs\": [", c.evaluations);
   bool first = true; for (auto &s : c.sigs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
   fprintf(f, "], \"events\": {"); first = true;
   for (auto &e : c.events) { fprintf(f, "%s\"%s\": %ld", first ? "" : ",", jesc(e.first).c_str(), e.second); first = false; }
   fprintf(f, "}, \"maxima\": {"); first = true;
   for (auto &e : c.maxima) { fprintf(f, "%s\"%s\": %.3g", first ? "" : ",", jesc(e.first).c_str(), e.second); first = false; }
   fprintf(f, "}, \"samples\": ["); first = true;
   for (auto &s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
   fprintf(f, "], \"violations\": ["); first = true;
   for (auto &v : c.viols) { fprintf(f, "%s{\"case\": %d, \"key\": \"%s\", \"detail\": \"%s\"}", first ? "" : ",", v.kase, jesc(v.key).c_str(), jesc(v.detail).c_str()); first = false; }
   fprintf(f, "]}\n"); if (wp) { fclose(f); }
   if (chdir("/")) {}
   std::string cmd = "rm -rf '" + c.dir + "'";
   if (c.dir.find("/vfcase.") != std::string::npos) { if (system(cmd.c_str())) {} }
   return 0;
}
} // namespace vf

#define VF_MAIN(NCASES_QUICK, NCASES_THOROUGH) \
   int vf::num_cases(const std::string &t) { return t == "thorough" ? (NCASES_THOROUGH) : (NCASES_QUICK); } \
   int main(int argc, char **argv) { for (int a = 1; a < argc; a++) if (std::string(argv[a]) == "--list") return vf::driver_main(argc, argv); \
      MPI_Init(&argc, &argv); int rc = vf::driver_main(argc, argv); fflush(stderr); _exit(rc); }
#endif
