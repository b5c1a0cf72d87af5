// P32: the configuration scripts (utils/python) run as they are; the files they write are read back, judged against the domain that was asked for, and loaded by the real component topology.
#include "common.hpp"
#include "topo_gen.hpp"
#include <dirent.h>
#include <fcntl.h>
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
typedef std::vector<std::string> VS;
// 0 ok, otherwise the script failed
static int script(const std::string &cwd, const VS &req, std::string &log)
{
   static std::string gen = std::string(__FILE__).substr(0, std::string(__FILE__).rfind("/drivers/")) + "/py/gen.py"; const char *repo = getenv("VF_REPO");
   fflush(stdout); fflush(stderr); std::string lf = cwd + ".log"; pid_t p = fork();
   if (!p)
   {
      if (chdir(cwd.c_str())) { _exit(120); } int f = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); alarm(100); setenv("OMP_NUM_THREADS", "1", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1);
      std::vector<char *> a; std::string r = repo ? repo : "/repo"; a.push_back((char *)"python3-vt"); a.push_back((char *)gen.c_str()); a.push_back((char *)r.c_str()); for (auto &s : req) { a.push_back((char *)s.c_str()); } a.push_back(nullptr);
      execvp("python3-vt", a.data()); _exit(121);
   }
   int st; waitpid(p, &st, 0); std::ifstream i(lf); std::stringstream b; b << i.rdbuf(); log = b.str(); unlink(lf.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
}
static std::string tail(const std::string &s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }
static VS files(const std::string &d) { VS v; DIR *h = opendir(d.c_str()); while (dirent *e = readdir(h)) { std::string s = e->d_name; if (s != "." && s != "..") { v.push_back(s); } } closedir(h); std::sort(v.begin(), v.end()); return v; }
static void wipe(const std::string &d) { for (auto &s : files(d)) { unlink((d + "/" + s).c_str()); } }

// ---- what a file says, read with the C library only
struct Port { bool dict = false; std::string c1, c2; int a1 = 0, a2 = 0; std::vector<double> cf; };
struct Conf { bool ok = false; std::string why; VS comp; std::vector<int> mesh; std::vector<std::array<double, 6>> cf; VS pname; std::vector<Port> port; std::vector<std::array<int, 5>> iface; std::vector<std::array<int, 3>> bdr; bool flat_iface = false, flat_bdr = false; };
static std::string attr_s(hid_t g, const std::string &n) { if (H5Aexists(g, n.c_str()) <= 0) { return "?"; } hid_t a = H5Aopen(g, n.c_str(), H5P_DEFAULT), t = H5Aget_type(a); std::string s = "?"; if (H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t) > 0) { char *p = nullptr; if (H5Aread(a, t, &p) >= 0 && p) { s = p; H5free_memory(p); } } H5Tclose(t); H5Aclose(a); return s; }
static int attr_i(hid_t g, const std::string &n) { if (H5Aexists(g, n.c_str()) <= 0) { return -777; } hid_t a = H5Aopen(g, n.c_str(), H5P_DEFAULT); int v = -777; H5Aread(a, H5T_NATIVE_INT, &v); H5Aclose(a); return v; }
static bool h5data(hid_t g, const char *n, std::vector<double> &v, std::vector<hsize_t> &dim)
{ if (H5Lexists(g, n, H5P_DEFAULT) <= 0) { return false; } hid_t d = H5Dopen(g, n, H5P_DEFAULT), s = H5Dget_space(d); int k = H5Sget_simple_extent_ndims(s); dim.assign(std::max(k, 0), 0); if (k > 0) { H5Sget_simple_extent_dims(s, dim.data(), nullptr); } size_t t = 1; for (auto x : dim) { t *= x; } v.assign(t, 0); herr_t e = t ? H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) : 0; H5Sclose(s); H5Dclose(d); return e >= 0; }
template <size_t N> static bool rows(hid_t g, const char *n, std::vector<std::array<int, N>> &out, bool &flat)
{ std::vector<double> v; std::vector<hsize_t> d; if (!h5data(g, n, v, d)) { return false; } if (v.empty()) { flat = d.size() != 2; return true; } if (d.size() != 2 || d[1] != N) { return false; } for (size_t k = 0; k < d[0]; k++) { std::array<int, N> a; for (size_t j = 0; j < N; j++) { a[j] = (int)v[k * N + j]; if (a[j] != v[k * N + j]) { return false; } } out.push_back(a); } return true; }
static Conf read_conf(const std::string &f)
{
   Conf q; if (access(f.c_str(), R_OK)) { q.why = "no file " + f; return q; } hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) { q.why = "not HDF5"; return q; } std::vector<double> v; std::vector<hsize_t> d;
   auto done = [&](const char *w) { q.why = w; H5Fclose(h); return q; };
   if (H5Lexists(h, "components", H5P_DEFAULT) <= 0 || H5Lexists(h, "ports", H5P_DEFAULT) <= 0) { return done("groups"); }
   hid_t g = H5Gopen(h, "components", H5P_DEFAULT); int n = attr_i(g, "number_of_components"); for (int k = 0; k < n && k < 1000; k++) { q.comp.push_back(attr_s(g, std::to_string(k))); }
   bool a = h5data(g, "meshes", v, d) && d.size() == 1; for (double x : v) { q.mesh.push_back((int)x); a = a && x == (int)x; } bool b = h5data(g, "configuration", v, d) && d.size() == 2 && d[1] == 6 && d[0] == q.mesh.size(); if (b) for (size_t k = 0; k < d[0]; k++) { std::array<double, 6> c; for (int j = 0; j < 6; j++) { c[j] = v[6 * k + j]; } q.cf.push_back(c); }
   H5Gclose(g); if (n < 1 || !a || !b) { return done("components"); } for (int m : q.mesh) if (m < 0 || m >= n) { return done("component index"); }
   g = H5Gopen(h, "ports", H5P_DEFAULT); n = attr_i(g, "number_of_references"); for (int k = 0; k < n && k < 10000; k++) { std::string s = attr_s(g, std::to_string(k)); q.pname.push_back(s); Port p; if (H5Lexists(g, s.c_str(), H5P_DEFAULT) > 0) { p.dict = true; hid_t e = H5Gopen(g, s.c_str(), H5P_DEFAULT); p.c1 = attr_s(e, "comp1"); p.c2 = attr_s(e, "comp2"); p.a1 = attr_i(e, "attr1"); p.a2 = attr_i(e, "attr2"); h5data(e, "comp2_configuration", p.cf, d); H5Gclose(e); } q.port.push_back(p); }
   a = n >= 0 && rows<5>(g, "interface", q.iface, q.flat_iface); H5Gclose(g); if (!a) { return done("interface"); } if (!rows<3>(h, "boundary", q.bdr, q.flat_bdr)) { return done("boundary"); } q.ok = true; H5Fclose(h); return q;
}

// ---- what was asked for: boxes at places, sides by attribute
struct Box { std::string name; double x[3], w[3]; int hole = 0; std::map<int, int> bdr; };           // bdr: the global attribute of a side if that side is free (-1: walls, one each of 1 and 3)
struct Want { int dim = 2; std::vector<Box> box; double period[3] = {0, 0, 0}; bool chain = false, used_only = false, ordered = false, dicts = true; };
static const int S2[][3] = {{1, 1, -1}, {2, 0, 1}, {3, 1, 1}, {4, 0, -1}}, S3[][3] = {{1, 2, -1}, {2, 1, -1}, {3, 0, 1}, {4, 1, 1}, {5, 0, -1}, {6, 2, 1}};
static int opposite(int a, int dim) { const int (*S)[3] = dim == 2 ? S2 : S3; for (int k = 0; k < 2 * dim; k++) if (S[k][1] == S[a - 1][1] && S[k][2] == -S[a - 1][2]) { return S[k][0]; } return 0; }
// the displacement of b from a when side s of a lies on the opposite side of b, periodic images included
static bool touch(const Want &W, const Box &a, const Box &b, int s, double *disp)
{
   const int (*S)[3] = W.dim == 2 ? S2 : S3; int ax = S[s - 1][1], dr = S[s - 1][2];
   for (int img = -1; img <= 1; img++)
   {
      if (img && W.period[ax] == 0) { continue; } bool ok = true; for (int d = 0; d < W.dim; d++) { double o = b.x[d] - a.x[d] + (d == ax ? img * W.period[ax] : 0); disp[d] = o; double want = d == ax ? (dr > 0 ? a.w[d] : -b.w[d]) : 0; ok = ok && std::fabs(o - want) < 1e-9 && (d == ax || std::fabs(a.w[d] - b.w[d]) < 1e-9); }
      if (ok) { return true; }
   }
   return false;
}
typedef std::pair<int, int> PI; typedef std::pair<PI, PI> PP;
// Judge the file; returns per instance of the file the box it stands for (empty if unusable).
static std::vector<int> judge(Ctx &c, const Conf &q, const Want &W, const std::string &what)
{
   std::vector<int> at; if (!c.check(q.ok, "file-readable", what + ": " + q.why)) { return at; } c.event("files judged"); const int nb = W.box.size(); const int (*S)[3] = W.dim == 2 ? S2 : S3;
   if (!c.check((int)q.mesh.size() == nb, "instances", what + fmt(": %d of %d", (int)q.mesh.size(), nb))) { return at; }
   std::vector<char> taken(nb, 0); std::set<int> used; for (int m = 0; m < nb; m++)
   { int f = -1; for (int k = 0; k < nb && f < 0; k++) { const Box &b = W.box[k]; double e = 0; for (int d = 0; d < 6; d++) { e = std::max(e, std::fabs(q.cf[m][d] - (d < W.dim ? b.x[d] : 0))); } if (e < 1e-9 && !taken[k]) { f = k; } } if (!c.check(f >= 0, "instance-placed", what + fmt(": instance %d at (%g, %g, %g)", m, q.cf[m][0], q.cf[m][1], q.cf[m][2]))) { return {}; } taken[f] = 1; at.push_back(f); used.insert(q.mesh[m]);
      const std::string &nm = q.comp[q.mesh[m]]; c.check(W.box[f].name.empty() ? true : nm == W.box[f].name, "instance-component", what + fmt(": instance %d is %s, asked for %s", m, nm.c_str(), W.box[f].name.c_str())); c.event("instances"); if (W.ordered) { c.check(f == m, "instance-order", what); } }
   c.check(std::set<std::string>(q.comp.begin(), q.comp.end()).size() == q.comp.size(), "component-names-differ", what); if (W.used_only) { c.check(used.size() == q.comp.size(), "only-used-components", what); }
   c.check(std::set<std::string>(q.pname.begin(), q.pname.end()).size() == q.pname.size() && !std::count(q.pname.begin(), q.pname.end(), "?"), "port-names-differ", what);
   // interfaces: every pair of coinciding sides once
   std::map<PP, std::array<double, 3>> want; auto key = [](PI a, PI b) { return a < b ? PP(a, b) : PP(b, a); }; std::map<PP, PI> first;
   for (int m = 0; m < nb; m++) for (int n = 0; n < nb; n++) for (int s = 1; s <= 2 * W.dim; s++) { if (W.chain && std::abs(at[m] - at[n]) != 1) { continue; } double d[3] = {0, 0, 0}; if (touch(W, W.box[at[m]], W.box[at[n]], s, d)) { want[key({m, s}, {n, opposite(s, W.dim)})] = {d[0], d[1], d[2]}; } }
   std::map<PP, int> got; std::map<int, std::array<std::string, 4>> uses;
   for (auto &i : q.iface)
   {
      c.event("interfaces"); if (!c.check(i[0] >= 0 && i[1] >= 0 && i[0] < nb && i[1] < nb && i[4] >= 0 && i[4] < (int)q.port.size(), "interface-indices", what)) { continue; } PP k = key({i[0], i[2]}, {i[1], i[3]}); got[k]++;
      const std::string &n1 = q.comp[q.mesh[i[0]]], &n2 = q.comp[q.mesh[i[1]]]; std::array<std::string, 4> u = {n1, n2, std::to_string(i[2]), std::to_string(i[3])}; if (uses.count(i[4])) { c.check(uses[i[4]] == u, "one-port-one-kind", what + fmt(": port %d", i[4])); } uses[i[4]] = u;
      double d[3] = {0, 0, 0}; if (!c.check(want.count(k) && i[2] >= 1 && i[2] <= 2 * W.dim && touch(W, W.box[at[i[0]]], W.box[at[i[1]]], i[2], d), "interface-sides-coincide", what + fmt(": %d side %d, %d side %d", i[0], i[2], i[1], i[3]))) { continue; }
      const Port &p = q.port[i[4]]; if (W.dicts) { c.check(p.dict && p.c1 == n1 && p.c2 == n2 && p.a1 == i[2] && p.a2 == i[3], "port-describes-interface", what + fmt(": %s-%s %d-%d, port %s-%s %d-%d", n1.c_str(), n2.c_str(), i[2], i[3], p.c1.c_str(), p.c2.c_str(), p.a1, p.a2)); double e = p.cf.size() == 6 ? 0 : 1; for (size_t k2 = 0; k2 < p.cf.size() && k2 < 6; k2++) { e = std::max(e, std::fabs(p.cf[k2] - ((int)k2 < W.dim ? d[k2] : 0))); } c.check(e < 1e-9, "port-placement", what + fmt(": port %d off by %g", i[4], e)); }
   }
   for (auto &k : want) { c.check(got[k.first] == 1, "interface-once", what + fmt(": %d side %d, %d side %d listed %d times", k.first.first.first, k.first.first.second, k.first.second.first, k.first.second.second, got[k.first])); }
   if (W.dicts) { std::set<std::array<std::string, 4>> seen; for (auto &p : q.port) { c.check(p.dict && seen.insert({p.c1, p.c2, std::to_string(p.a1), std::to_string(p.a2)}).second, "ports-differ", what); c.event("ports"); } }
   // every side that is not joined is on the boundary once, under the right global attribute
   std::set<PI> joined; for (auto &k : want) { joined.insert(k.first.first); joined.insert(k.first.second); } std::map<PI, std::vector<int>> b; for (auto &x : q.bdr) { b[{x[1], x[2]}].push_back(x[0]); c.event("boundary records"); if (!(x[1] >= 0 && x[1] < nb)) { c.check(false, "boundary-instance", what); return {}; } c.check((x[2] >= 1 && x[2] <= 2 * W.dim && !joined.count({x[1], x[2]})) || (x[2] == 2 * W.dim + 1 && W.box[at[x[1]]].hole), "boundary-side-is-free", what + fmt(": instance %d side %d", x[1], x[2])); }
   for (int m = 0; m < nb; m++)
   {
      const Box &B = W.box[at[m]]; std::vector<int> walls; for (int s = 1; s <= 2 * W.dim + (B.hole ? 1 : 0); s++) { if (joined.count({m, s})) { continue; } auto &v = b[{m, s}]; if (!c.check(v.size() == 1, "boundary-once", what + fmt(": instance %d side %d listed %d times", m, s, (int)v.size()))) { continue; } int e = s == 2 * W.dim + 1 ? B.hole : B.bdr.count(s) ? B.bdr.at(s) : s; if (e < 0) { walls.push_back(v[0]); } else { c.check(v[0] == e, "boundary-attribute", what + fmt(": instance %d side %d is %d, not %d", m, s, v[0], e)); } }
      if (walls.size()) { std::sort(walls.begin(), walls.end()); c.check(walls == std::vector<int>({1, 3}), "walls", what + fmt(": instance %d", m)); }
   }
   (void)S; return at;
}
// ---- the file in the hands of the component topology
static std::string component(Ctx &c, const std::string &name, double w, double h, bool hole)
{
   const int n = 3; Mesh m(2, (n + 1) * (n + 1), n * n - hole, 4 * n + (hole ? 4 : 0)); for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) { m.AddVertex(w * i / n, h * j / n); } auto v = [&](int i, int j) { return i + (n + 1) * j; };
   for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { if (hole && i == 1 && j == 1) { continue; } m.AddQuad(v(i, j), v(i + 1, j), v(i + 1, j + 1), v(i, j + 1)); }
   for (int i = 0; i < n; i++) { m.AddBdrSegment(v(i, 0), v(i + 1, 0), 1); m.AddBdrSegment(v(n, i), v(n, i + 1), 2); m.AddBdrSegment(v(i + 1, n), v(i, n), 3); m.AddBdrSegment(v(0, i + 1), v(0, i), 4); }
   if (hole) { m.AddBdrSegment(v(1, 1), v(2, 1), 5); m.AddBdrSegment(v(2, 1), v(2, 2), 5); m.AddBdrSegment(v(2, 2), v(1, 2), 5); m.AddBdrSegment(v(1, 2), v(1, 1), 5); }
   m.FinalizeQuadMesh(1, 0, true); m.SetCurvature(1); std::string f = c.path("comp-" + name + ".mesh"); std::ofstream o(f); o.precision(17); m.Print(o); return f;
}
static void load(Ctx &c, const std::string &file, const Conf &q, const Want &W, const std::vector<int> &at, const std::string &what)
{
   if (at.empty() || q.bdr.empty() || W.dim != 2) { return; } std::map<std::string, int> rep; for (size_t m = 0; m < at.size(); m++) { rep[q.comp[q.mesh[m]]] = at[m]; if (std::count_if(q.iface.begin(), q.iface.end(), [&](const std::array<int, 5> &i) { return i[0] == i[1]; })) { return; } }
   std::string y = "mesh:\n  type: component-wise\n  component-wise:\n    global_config: \"" + file + "\"\n    components:\n"; for (auto &n : q.comp) { double w = 1, h = 1; bool hole = false; if (rep.count(n)) { const Box &B = W.box[rep[n]]; w = B.w[0]; h = B.w[1]; hole = B.hole; } y += "      - name: \"" + n + "\"\n        file: \"" + component(c, n, w, h, hole) + "\"\n"; }
   load_config(c.path("load.yml"), y); ComponentTopologyHandler H; c.event("files loaded"); Array<Mesh *> ms; TopologyData td; H.ExportInfo(ms, td); if (!c.check(ms.Size() == (int)at.size() && H.GetNumPorts() == (int)q.iface.size(), "loaded-counts", what)) { return; }
   std::set<int> glob; for (auto &b : q.bdr) { glob.insert(b[0]); } std::map<PI, int> g; for (auto &b : q.bdr) { g[{b[1], b[2]}] = b[0]; } for (int p = 0; p < H.GetNumPorts(); p++) { const PortInfo *I = H.GetPortInfo(p); g[{I->Mesh1, I->Attr1}] = g[{I->Mesh2, I->Attr2}] = I->PortAttr; c.check(!glob.count(I->PortAttr), "loaded-port-attribute", what); c.check(H.GetInterfaceInfos(p)->Size() == 3, "loaded-interface-pairs", what + fmt(": %d", H.GetInterfaceInfos(p)->Size())); c.event("loaded interfaces"); }
   for (int m = 0; m < ms.Size(); m++)
   {
      const Box &B = W.box[at[m]]; double vol = 0; for (int e = 0; e < ms[m]->GetNE(); e++) { vol += ms[m]->GetElementVolume(e); } c.close(vol, B.w[0] * B.w[1] * (B.hole ? 8.0 / 9 : 1), 1, 1e-10, "loaded-size", what);
      for (int b = 0; b < ms[m]->GetNBE(); b++) { ElementTransformation *T = ms[m]->GetBdrElementTransformation(b); Vector x(2); T->Transform(Geometries.GetCenter(T->GetGeometryType()), x); int s = 5; for (int k = 0; k < 4; k++) { double d = S2[k][2] > 0 ? x(S2[k][1]) - B.x[S2[k][1]] - B.w[S2[k][1]] : x(S2[k][1]) - B.x[S2[k][1]]; if (std::fabs(d) < 1e-9) { s = k + 1; } } c.check(ms[m]->GetBdrAttribute(b) == (g[{m, s}]), "loaded-boundary", what + fmt(": instance %d side %d is %d, not %d", m, s, ms[m]->GetBdrAttribute(b), (g[{m, s}]))); c.event("loaded boundary elements"); }
   }
}
static int hole(const std::string &n) { return n == "empty" || n == "square" || n == "cube" ? 0 : 5; }
static Box unit(const std::string &n, double x, double y, double L = 1) { Box b; b.name = n; b.x[0] = x; b.x[1] = y; b.x[2] = 0; b.w[0] = b.w[1] = b.w[2] = L; b.hole = hole(n); return b; }
static std::string joined_names(const VS &v) { std::string s; for (auto &x : v) { s += (s.empty() ? "" : ",") + x; } return s; }
static VS names(Rng &r, int n) { VS all = {"empty", "square-circle", "square-square", "square-triangle", "star", "pipe-hub", "a b"}; for (int k = all.size() - 1; k > 0; k--) { std::swap(all[k], all[r.i(0, k)]); } all.resize(n); return all; }
static Want lattice(int nx, int ny, double wh, double wv, double lh, double lv, const VS &n, int variant)
{
   Want W; auto put = [&](int t, double x, double y, double w, double h, int i, int j) { Box b; b.name = n[t]; b.x[0] = x; b.x[1] = y; b.w[0] = w; b.w[1] = h; b.hole = 0; auto out = [&](int a) { return (a - 1 - variant + 8) % 4 + 1; }; for (int s = 1; s <= 4; s++) { bool outer = (s == 1 && j == 0 && t != 2) || (s == 3 && j == ny && t != 2) || (s == 4 && i == 0 && t != 1) || (s == 2 && i == nx && t != 1); b.bdr[s] = outer ? out(s) : 5; } W.box.push_back(b); };
   for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { double x = i * (lh + wv), y = j * (lv + wh); put(0, x, y, wv, wh, i, j); if (i < nx) { put(1, x + wv, y, lh, wh, i, j); } if (j < ny) { put(2, x, y + wh, wv, lv, i, j); } } return W;
}
static long walks(std::vector<PI> &p, int left) { if (!left) { return 1; } long n = 0; static const int D[][2] = {{0, -1}, {1, 0}, {0, 1}, {-1, 0}}; for (int k = 0; k < 4; k++) { if (p.size() == 1 && k == 3) { continue; } PI q(p.back().first + D[k][0], p.back().second + D[k][1]); if (std::count(p.begin(), p.end(), q)) { continue; } p.push_back(q); n += walks(p, left - 1); p.pop_back(); } return n; }
// the expectation of a chain is read off the places in the file: consecutive instances must be neighbours and never share a place
static bool chain_want(Ctx &c, const Conf &q, const std::string &start, int ext, Want &W, const std::string &what)
{
   if (!c.check(q.ok && (int)q.mesh.size() == ext + 1, "instances", what)) { return false; } W.chain = true; W.ordered = true; std::set<PI> seen;
   for (int m = 0; m <= ext; m++) { Box b = unit(start, q.cf[m][0], q.cf[m][1]); b.hole = start == "pipe-hub" ? 5 : 0; for (int s = 1; s <= 4; s++) { b.bdr[s] = -1; } W.box.push_back(b); if (!c.check(seen.insert({(int)std::lround(b.x[0]), (int)std::lround(b.x[1])}).second, "places-differ", what)) { return false; } }
   bool ok = W.box[0].x[0] == 0 && W.box[0].x[1] == 0; std::vector<int> in(ext + 1, 4); for (int m = 1; m <= ext; m++) { int f = 0; for (int s = 1; s <= 4; s++) { double d[3]; Want N; if (touch(N, W.box[m - 1], W.box[m], s, d)) { f = s; } } ok = ok && f && !(m == 1 && f == 4); if (f) { in[m] = opposite(f, 2); } } if (!c.check(ok, "chain-connected", what)) { return false; }
   W.box[0].bdr[4] = 4; W.box[ext].bdr[opposite(in[ext], 2)] = 2; return true;
}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; std::string w = c.path("w"); mkdir(w.c_str(), 0700); wipe(w); std::string log; static const char *kinds[] = {"box", "random box", "all boxes", "chain", "random chain", "all chains", "lattice", "ports", "grid", "lattice program", "boundary variants", "results", "samples", "component file"}; const int kind = c.kase % 14; VS req;
   auto go = [&](const VS &q, const std::string &what) { int e = script(w, q, log); if (e == 121 || e == 120) { fprintf(stderr, "python3-vt cannot be started\n"); exit(3); } c.event("scripts run"); return c.check(e == 0 && log.find("DONE") != std::string::npos, "script-ends", what + ": " + tail(log)); };
   if (kind <= 2)
   {
      const bool all = kind == 2; int nx = r.i(1, all ? 3 : r.b(0.1) ? 12 : 5), ny = r.i(1, all ? (nx == 1 ? 4 : nx == 2 ? 2 : 1) : 5); bool px = r.b(0.3), py = r.b(0.3); int nc = r.i(1, all ? (nx * ny > 3 ? 2 : 3) : 5); VS nm = names(r, nc); VS base = {std::to_string(nx), std::to_string(ny), px ? "1" : "0", py ? "1" : "0", joined_names(nm)}; std::string what = fmt("%s %dx%d%s%s of %s", kinds[kind], nx, ny, px ? " px" : "", py ? " py" : "", joined_names(nm).c_str());
      Want W0; W0.used_only = true; W0.period[0] = px ? nx : 0; W0.period[1] = py ? ny : 0; c.sig(fmt("%s|%dx%d|%d%d|%d", kinds[kind], std::min(nx, 3), std::min(ny, 3), px, py, nc)); c.sample(what);
      auto grid = [&](const Conf &q) { Want W = W0; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { std::string n = "?"; if (q.ok) for (size_t m = 0; m < q.mesh.size(); m++) if (std::fabs(q.cf[m][0] - i) < 1e-9 && std::fabs(q.cf[m][1] - j) < 1e-9) { n = q.comp[q.mesh[m]]; } if (q.ok) { c.check(std::count(nm.begin(), nm.end(), n), "location-filled", what + ": " + n); } W.box.push_back(unit(n, i, j)); } return W; };
      if (kind == 0)
      { // placed one by one at chosen locations of those left
         std::vector<PI> left; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { left.push_back({i, j}); } std::string seq; Want W = W0; W.ordered = true; while (left.size()) { int t = r.i(0, nc - 1), l = r.b() ? 0 : r.i(0, left.size() - 1); seq += (seq.empty() ? "" : ",") + fmt("%d:%d", t, l); W.box.push_back(unit(nm[t], left[l].first, left[l].second)); left.erase(left.begin() + l); }
         req = {"box"}; req.insert(req.end(), base.begin(), base.end()); req.push_back(seq); req.push_back("out.h5"); req.push_back("1"); if (!go(req, what)) { return; }
         for (const char *f : {"out.h5", "out.h5.again"}) { Conf q = read_conf(w + "/" + f); std::vector<int> at = judge(c, q, W, what + " " + f); load(c, w + "/" + f, q, W, at, what); }
      }
      else if (kind == 1)
      {
         req = {"boxrand"}; req.insert(req.end(), base.begin(), base.end()); req.push_back(std::to_string(r.i(0, 99999))); req.push_back("3"); req.push_back("out"); if (!go(req, what)) { return; } std::set<std::string> types; for (int k = 0; k < 3; k++) { std::string f = w + fmt("/out.%d", k); Conf q = read_conf(f); Want W = grid(q); std::vector<int> at = judge(c, q, W, what); if (k == 0 || r.b(0.4)) { load(c, f, q, W, at, what); } for (auto &n : q.comp) { types.insert(n); } }
      }
      else
      {
         int off = r.b() ? 0 : r.i(1, 500); req = {"boxall"}; req.insert(req.end(), base.begin(), base.end()); req.push_back("cfg"); req.push_back(std::to_string(off)); if (!go(req, what)) { return; } long n = std::lround(std::pow(nc, nx * ny)); std::set<VS> seen; c.check((long)files(w).size() == n && log.find(fmt("COUNT %ld\n", n)) != std::string::npos, "all-assignments-counted", what + fmt(": %d files", (int)files(w).size())); for (long k = 0; k < n; k++) { std::string f = w + fmt("/cfg-%05ld.h5", off + k); Conf q = read_conf(f); Want W = grid(q); std::vector<int> at = judge(c, q, W, what); VS v; for (auto &b : W.box) { v.push_back(b.name); } c.check(seen.insert(v).second, "assignments-differ", what); if (k % 7 == 0) { load(c, f, q, W, at, what); } }
      }
   }
   else if (kind <= 5)
   {
      std::string start = r.b() ? "empty" : "pipe-hub"; int ext = kind == 5 ? r.i(1, 4) : r.i(1, 7); std::string what = fmt("%s %s %d", kinds[kind], start.c_str(), ext); c.sig(fmt("%s|%s|%d", kinds[kind], start.c_str(), ext)); c.sample(what); VS out; int off = r.b() ? 0 : r.i(1, 300);
      if (kind == 3) { std::string ch; for (int k = 0; k < ext; k++) { ch += (k ? "," : "") + std::to_string(r.i(0, 11)); } req = {"chain", start, ch, "out.h5"}; out = {"out.h5"}; } else if (kind == 4) { req = {"chainrand", start, std::to_string(ext), std::to_string(r.i(0, 99999)), "4", "out"}; out = {"out.0", "out.1", "out.2", "out.3"}; } else { req = {"chainall", start, std::to_string(ext), "cfg", std::to_string(off)}; }
      if (!go(req, what)) { return; } std::vector<PI> p = {{0, 0}}; long n = walks(p, ext); if (kind == 5) { for (long k = 0; k < n; k++) { out.push_back(fmt("cfg-%05ld.h5", off + k)); } c.check((long)files(w).size() == n && log.find(fmt("COUNT %ld\n", n)) != std::string::npos, "all-chains-counted", what + fmt(": %d files of %ld", (int)files(w).size(), n)); }
      std::set<std::vector<PI>> seen; int k = 0; for (auto &f : out) { Conf q = read_conf(w + "/" + f); Want W; if (!c.check(q.ok, "file-readable", what + ": " + q.why) || !chain_want(c, q, start, ext, W, what)) { continue; } std::vector<int> at = judge(c, q, W, what); std::vector<PI> path; for (auto &b : W.box) { path.push_back({(int)std::lround(b.x[0]), (int)std::lround(b.x[1])}); } if (kind == 5) { c.check(seen.insert(path).second, "chains-differ", what); } if (k++ % 5 == 0) { load(c, w + "/" + f, q, W, at, what); } }
   }
   else if (kind == 6)
   {
      static const char *forms[] = {"nu_mxn", "nu_1x1", "mxn", "1x1"}; int form = r.b(0.6) ? 0 : r.i(0, 3), nx = r.i(1, 4), ny = r.i(1, 4); if (form & 1) { nx = ny = 1; } double wh = r.u(0.2, 2), wv = r.u(0.2, 2), lh = r.u(0.5, 6), lv = r.u(0.5, 6); int var = r.b() ? r.i(0, 3) : -1; VS n = {"joint", "rodH", "rodV"}; if (r.b()) { n = {"J", "beam", "col"}; }
      req = {"lattice", forms[form], std::to_string(nx), std::to_string(ny), fmt("%.17g", wh), fmt("%.17g", wv), fmt("%.17g", lh), fmt("%.17g", lv), joined_names(n), "out.h5"}; if (var >= 0) { req.push_back(std::to_string(var)); } if (form >= 2) { wv = wh; lv = lh; } std::string what = fmt("lattice %s %dx%d wh %.3g wv %.3g lh %.3g lv %.3g variant %d", forms[form], nx, ny, wh, wv, lh, lv, var); c.sig(fmt("lattice|%s|%dx%d|%d", forms[form], std::min(nx, 3), std::min(ny, 3), var)); c.sample(what);
      if (!go(req, what)) { return; } Conf q = read_conf(w + "/out.h5"); Want W = lattice(nx, ny, wh, wv, lh, lv, n, std::max(var, 0)); std::vector<int> at = judge(c, q, W, what); load(c, w + "/out.h5", q, W, at, what);
   }
   else if (kind == 7)
   { // reference ports by hand: numbered in order of first use, the same seen from either side
      VS nm = names(r, r.i(1, 4)); req = {"ports", joined_names(nm)}; struct Q { std::string a, b; int f, g; }; std::vector<Q> qs; int n = r.i(3, 30); for (int k = 0; k < n; k++) { int f = r.i(1, 4); Q x = {nm[r.i(0, nm.size() - 1)], nm[r.i(0, nm.size() - 1)], f, opposite(f, 2)}; qs.push_back(x); req.insert(req.end(), {x.a, x.b, std::to_string(x.f), std::to_string(x.g)}); } c.sig(fmt("ports|%d|%d", (int)nm.size(), n / 8)); if (!go(req, "ports")) { return; }
      std::map<std::array<std::string, 2>, std::map<int, int>> id; int next = 0; std::istringstream in(log); std::string l; size_t k = 0; while (std::getline(in, l)) { int a, b, t; if (sscanf(l.c_str(), "PORT %d %d %d", &a, &b, &t) != 3 || k >= qs.size()) { continue; } Q x = qs[k++]; if (x.f > x.g) { std::swap(x.a, x.b); std::swap(x.f, x.g); } auto &m = id[{x.a, x.b}]; if (!m.count(x.f)) { m[x.f] = next++; } c.check(a == m[x.f] && b == a && t == next, "port-number", fmt("%s-%s %d: %d and %d, not %d", x.a.c_str(), x.b.c_str(), x.f, a, b, m[x.f])); c.event("port look-ups"); } c.check(k == qs.size(), "port-answers");
   }
   else if (kind == 8)
   {
      int n = r.i(1, 9), f = c.kase / 14 % 7 + 3; VS fn; Want W; W.dicts = false; W.ordered = true; std::string out;
      if (f <= 5) { n = r.i(2, 9); req = {"sample", "ConfigScaleUp", std::to_string(n), "--", "sample", "Config2D"}; out = fmt("scaleup.global.%d.h5", n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { W.box.push_back(unit("square", i, j)); } }
      else if (f == 6) { req = {"sample", "Config2D"}; out = "global.h5"; for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) { W.box.push_back(unit("square", i, j)); } }
      else if (f == 7) { req = {"sample", "Config3D"}; out = "global.h5"; W.dim = 3; for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) { Box b = unit("cube", i * 0.5, j * 0.5, 0.5); b.x[2] = k * 0.5; W.box.push_back(b); } }
      else if (f == 8) { req = {"sample", "ConfigChannelFlow"}; out = "stokes.channel.h5"; static const char *t[] = {"empty", "circle", "square", "triangle"}; for (int k = 0; k < 4; k++) { Box b = unit(t[k], k % 2, k / 2); b.hole = k ? 5 : 0; W.box.push_back(b); } }
      else { req = {"sample", "ConfigTestMultiComponent"}; out = "test.multi_comp.h5"; W.box = {unit("empty", 0, 0), unit("circle", 1, 0), unit("circle", 0, 1)}; }
      std::string what = joined_names(req); c.sig(fmt("grid|%s|%d", out.substr(0, 10).c_str(), n)); c.sample(what); if (!go(req, what)) { return; } Conf q = read_conf(w + "/" + out); judge(c, q, W, what);
      if (f <= 6 && q.ok) for (int k = 0; k < 2; k++) { std::string pf = w + fmt("/port%d.h5", k + 1); hid_t h = H5Fopen(pf.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (!c.check(h >= 0, "port-file", what)) { continue; } hid_t g = H5Gopen(h, "0", H5P_DEFAULT); std::string nm = attr_s(g, "name"), c1 = attr_s(g, "component1"), c2 = attr_s(g, "component2"); int a1 = attr_i(g, "bdr_attr1"), a2 = attr_i(g, "bdr_attr2"), np = attr_i(h, "number_of_ports"), ref = -1; H5Gclose(g); H5Fclose(h); for (size_t j = 0; j < q.pname.size(); j++) if (q.pname[j] == nm) { ref = j; } c.check(np == 1 && ref >= 0 && c1 == "square" && c2 == "square", "port-file", what + nm); for (auto &i : q.iface) if (i[4] == ref) { c.check(i[2] == a1 && i[3] == a2, "port-file-sides", what + fmt(": port %s joins %d-%d, its file %d-%d", nm.c_str(), i[2], i[3], a1, a2)); c.event("interfaces by port file"); } }
   }
   else if (kind == 9)
   {
      int f = c.kase / 14 % 7; Want W; VS jn = {"joint2D", "rod2D_H", "rod2D_V"}, on = {"optjoint", "optbeam", "optcol"}; auto some = [&](const std::string &nm, int nv, std::function<Want(int)> mk, const std::string &what) { for (int v = 0; v < nv; v++) { std::string fn = nv == 1 ? nm : nm + std::to_string(v) + ".h5"; Conf q = read_conf(w + "/" + fn); Want X = mk(v); std::vector<int> at = judge(c, q, X, what + " " + fn); load(c, w + "/" + fn, q, X, at, what); } }; std::string what;
      if (f <= 1) { int nx = r.i(1, 4), ny = r.i(1, 4); what = fmt("lattice_cantilever %d %d", nx, ny); c.sample(what); if (!go({"program", "linelast_comp.py", "lattice_cantilever", std::to_string(nx), std::to_string(ny)}, what)) { return; } some("linelast.lattice.h5", 1, [&](int) { return lattice(nx, ny, 1, 1, 4, 4, jn, 0); }, what); c.sig(fmt("cantilever|%d|%d", nx, ny)); return; }
      static const char *pr[] = {"cwtrain_1x1", "cwtrain_2x2", "cwtrain_optROM", "cwtrain_optFOM"}; if (f <= 5) { int k = f - 2; what = pr[k]; c.sample(what); if (!go({"program", "linelast_cwtrain.py", pr[k]}, what)) { return; } if (k == 3) { some("linelast.optfom.h5", 1, [&](int) { return lattice(3, 3, 0.2, 0.2, 6, 4, on, 0); }, what); } else { some("linelast.comp_train", 4, [&](int v) { return k == 0 ? lattice(1, 1, 1, 1, 4, 4, jn, v) : k == 1 ? lattice(2, 2, 1, 1, 4, 4, jn, v) : lattice(1, 1, 0.2, 0.2, 6, 4, on, v); }, what); } c.sig("lattice program|" + what); return; }
      what = "simple_l"; VS q0 = {"program", "linelast_comp.py"}; if (r.b()) { q0.push_back("simple_l"); } if (!go(q0, what)) { return; } W.ordered = true; for (int k = 0; k < 3; k++) { Box b = unit(jn[k], k == 1, k == 2); b.hole = 0; for (int s = 1; s <= 4; s++) { b.bdr[s] = k == 1 && s == 2 ? 1 : k == 2 && s == 3 ? 2 : 3; } W.box.push_back(b); } Conf q = read_conf(w + "/linelast.simpleL.h5"); std::vector<int> at = judge(c, q, W, what); load(c, w + "/linelast.simpleL.h5", q, W, at, what); c.sig("lattice program|simple_l");
   }
   else if (kind == 10)
   { // meshes with the boundary attributes turned
      int nx = r.i(1, 5), ny = r.i(1, 5), na = r.b(0.7) ? 4 : r.i(4, 6); bool tri = r.b(0.3); Mesh m = Mesh::MakeCartesian2D(nx, ny, tri ? Element::TRIANGLE : Element::QUADRILATERAL, true, r.u(0.5, 3), r.u(0.5, 3)); if (na != 4 || r.b(0.3)) for (int b = 0; b < m.GetNBE(); b++) { m.SetBdrAttribute(b, r.i(1, na)); } if (r.b()) { m.SetCurvature(r.i(1, 2)); } std::string f = w + "/joint2D.mesh"; bool prog = na == 4 && r.b(0.4); VS fs = prog ? VS{"joint2D", "rod2D_H", "rod2D_V"} : VS{"joint2D"}; for (auto &n : fs) { std::ofstream o(w + "/" + n + ".mesh"); o.precision(17); m.Print(o); }
      std::string what = fmt("attributes of %d, %dx%d", na, nx, ny); std::string name = "joint2D.mesh"; if (!go(prog ? VS{"program", "linelast_cwtrain.py", "cwtrain_mesh", ""} : VS{"shift", std::to_string(na), name}, what)) { return; } c.sig(fmt("variants|%d|%d|%d|%d", na, tri, prog, std::min(nx * ny, 4)));
      for (auto &n : fs) for (int v = 0; v < na; v++) { std::string vf = w + "/" + n + fmt("_%d.mesh", v); if (!c.check(access(vf.c_str(), R_OK) == 0, "variant-written", what + vf)) { continue; } std::ifstream in(vf), in0(w + "/" + n + ".mesh"); std::string a, b; bool bdr = false; int cnt = -1, bad = 0, lines = 0; while (std::getline(in0, b)) { if (!std::getline(in, a)) { bad++; break; } lines++; if (cnt > 0) { int x = atoi(b.c_str()); b = std::to_string((x + v - 1) % na + 1) + b.substr(b.find(' ')); cnt--; c.event("boundary attributes turned"); } else if (bdr) { cnt = atoi(b.c_str()); bdr = false; } if (b == "boundary") { bdr = true; } bad += a != b; } bad += (bool)std::getline(in, a); c.check(bad == 0, "variant-differs-in-attributes-only", what + fmt(" variant %d: %d lines differ", v, bad)); }
   }
   else if (kind == 11)
   { // statistics over the result files that runs leave behind
      const char *at[] = {"rom_assemble", "rom_solve", "fom_assemble", "fom_solve", "rel_error"}; int nd = r.i(1, 3), n = r.b(0.3) ? r.i(1, 4) : r.i(2, 45); bool app = r.b(0.4); std::vector<int> sz; std::vector<std::vector<std::vector<double>>> v(nd, std::vector<std::vector<double>>(5)); VS args = {"program", "read_output.py", "dir-%d", "res_%d.h5", std::to_string(n), "--dir-indexes"};
      for (int d = 0; d < nd; d++) { sz.push_back(r.i(1, 9) + 10 * d); args.push_back(std::to_string(sz[d])); std::string dn = w + fmt("/dir-%d", sz[d]); mkdir(dn.c_str(), 0700); for (int k = 0; k < n; k++) { hid_t h = H5Fcreate((dn + fmt("/res_%d.h5", k)).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int a = 0; a < 5; a++) { double x = r.u(0.1, 9) * (r.b(0.2) ? 1e-4 : 1); v[d][a].push_back(x); Vector e(a < 4 ? 1 : r.i(1, 2)); e = 0.25; e(0) = x; hdf5_utils::WriteDataset(h, at[a], e); } H5Fclose(h); } }
      if (app) { args.push_back("--append"); for (auto a : at) { std::ofstream o(w + "/" + a + ".txt"); o << "1.00000E+00 2.00000E+00 2.00000E+00 2.00000E+00 2.00000E+00 2.00000E+00\n"; } } std::string what = fmt("%d result files in %d folders%s", n, nd, app ? ", appended" : ""); c.sample(what); c.sig(fmt("results|%d|%d|%d", nd, std::min(n, 6), app)); bool ok = go(args, what);
      for (int d = 0; d < nd; d++) { std::string dn = w + fmt("/dir-%d", sz[d]); wipe(dn); rmdir(dn.c_str()); } if (!ok) { return; }
      for (int a = 0; a < 5; a++) { std::ifstream in(w + "/" + at[a] + ".txt"); std::string l; if (app) { std::getline(in, l); c.check(l.substr(0, 11) == "1.00000E+00", "appended", what); } for (int d = 0; d < nd; d++) { std::vector<double> s = v[d][a]; std::sort(s.begin(), s.end()); double x[6]; bool have = (bool)(in >> x[0] >> x[1] >> x[2] >> x[3] >> x[4] >> x[5]); if (!c.check(have, "statistics-row", what)) { break; } auto eq = [&](double g, double e) { return std::fabs(g - e) <= 1e-5 * std::fabs(e); }; auto pc = [&](double g, double f) { for (double e : {-1e-9, 1e-9}) if (eq(g, s[std::min<int>(n - 1, std::max(0, (int)std::floor(n * f + e)))])) { return true; } return false; }; c.check(x[0] == sz[d] && eq(x[2], s[0]) && eq(x[3], s[n - 1]) && pc(x[1], 0.5) && pc(x[4], 0.025) && pc(x[5], 0.975), "statistics", what + fmt(": %s of folder %d", at[a], sz[d])); c.event("statistics"); } std::string rest; in >> rest; c.check(rest.empty(), "statistics-rows", what); }
   }
   else if (kind == 12)
   { // a second object after a first: nothing is carried over
      VS n1 = names(r, r.i(1, 3)), n2 = names(r, r.i(1, 3)); int k1 = r.i(1, 3), k2 = r.i(1, 3); auto mk = [&](const VS &nm, int k, const std::string &f, Want &W) { std::string seq; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { int t = r.i(0, nm.size() - 1); seq += (seq.empty() ? "" : ",") + fmt("%d:0", t); W.box.push_back(unit(nm[t], i, j)); } W.used_only = true; W.ordered = true; return VS{"box", std::to_string(k), std::to_string(k), "0", "0", joined_names(nm), seq, f, "0"}; };
      Want A, B, C; req = mk(n1, k1, "a.h5", A); std::string start = r.b() ? "empty" : "pipe-hub"; VS t = mk(n2, k2, "b.h5", B); req.push_back("--"); VS ch = {"chain", start, "1,0,2", "c.h5"}; req.insert(req.end(), ch.begin(), ch.end()); req.push_back("--"); req.insert(req.end(), t.begin(), t.end()); std::string what = "one after another"; c.sig(fmt("after|%d|%d|%d|%d", k1, k2, (int)n1.size(), (int)n2.size())); if (!go(req, what)) { return; }
      Conf q = read_conf(w + "/a.h5"); judge(c, q, A, what); q = read_conf(w + "/b.h5"); std::vector<int> at = judge(c, q, B, what); load(c, w + "/b.h5", q, B, at, what); q = read_conf(w + "/c.h5"); if (chain_want(c, q, start, 3, C, what)) { judge(c, q, C, what); }
   }
   else
   { // the component file: every pair of components may meet at every pair of opposite sides
      if (!go({"program", "box_comp_config.py"}, "box_comp_config")) { return; } Conf q = read_conf(w + "/box-channel.comp.h5"); if (!c.check(q.ok, "file-readable", q.why)) { return; } VS nm = {"empty", "square-circle", "square-square", "square-triangle", "square-star"}; c.sig("component file"); std::set<std::string> got(q.comp.begin(), q.comp.end()), want(nm.begin(), nm.end()); c.check(got == want, "component-file-components"); std::set<std::array<std::string, 4>> seen; for (auto &p : q.port) { bool ok = p.dict && got.count(p.c1) && got.count(p.c2) && ((p.a1 == 1 && p.a2 == 3) || (p.a1 == 2 && p.a2 == 4)) && p.cf.size() == 6; c.check(ok && seen.insert({p.c1, p.c2, std::to_string(p.a1), std::to_string(p.a2)}).second, "component-file-port"); if (ok) { bool z = true; for (int d = 0; d < 6; d++) { double e = p.a1 == 1 && d == 1 ? -1 : p.a1 == 2 && d == 0 ? 1 : 0; z = z && p.cf[d] == e; } c.check(z, "port-placement", "component file"); } c.event("ports"); } c.check(seen.size() == 50, "component-file-all-ports", fmt("%d", (int)seen.size()));
      Want W; W.ordered = true; for (int k = 0; k < 5; k++) { W.box.push_back(unit(nm[k], 0, k)); if (q.ok && (int)q.mesh.size() == 5) { W.box.back().name = q.comp[q.mesh[k]]; W.box.back().hole = hole(W.box.back().name); } } judge(c, q, W, "component file");
   }
   wipe(w);
}
VF_MAIN(560, 4200)
