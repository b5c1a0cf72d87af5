// P22: the mesh tools (rectangle_mesh, cubic_mesh, 1d_mesh, gmsh2mfem), run as programs; the meshes they write are read back and judged.
#include "common.hpp"
#include "topo_gen.hpp"
#include <dirent.h>
#include <fcntl.h>
using namespace vf;
using namespace mfem;
void vf::setup(Ctx &) {}
static const char *bdir() { const char *b = getenv("VF_BUILD"); return b ? b : "/verif/build"; }
// 0 ok, 1 loud failure, 2 memory error or signal, 3 hang
static int exec(const std::string &tool, const std::vector<std::string> &args, const std::string &cwd, std::string *log = nullptr)
{
   fflush(stdout); fflush(stderr); std::string lf = cwd + ".log"; pid_t p = fork();
   if (!p)
   {
      if (chdir(cwd.c_str())) { _exit(120); } int f = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(f, 2); alarm(60);
      std::string x = std::string(bdir()) + "/" + tool + ".x"; std::vector<char *> a; a.push_back((char *)x.c_str()); for (auto &s : args) { a.push_back((char *)s.c_str()); } a.push_back(nullptr);
      execv(x.c_str(), a.data()); _exit(121);
   }
   int st; waitpid(p, &st, 0); std::ifstream i(lf); std::stringstream b; b << i.rdbuf(); std::string o = b.str(); if (log) { *log = o; } unlink(lf.c_str());
   if (o.find("AddressSanitizer") != std::string::npos || o.find("runtime error:") != std::string::npos) { return 2; }
   if (WIFEXITED(st)) { return WEXITSTATUS(st) == 0 ? 0 : 1; } if (WTERMSIG(st) == SIGALRM) { return 3; } return WTERMSIG(st) == SIGABRT ? 1 : 2;
}
static std::vector<std::string> files(const std::string &d)
{ std::vector<std::string> v; DIR *h = opendir(d.c_str()); while (dirent *e = readdir(h)) { std::string s = e->d_name; if (s != "." && s != "..") { v.push_back(s); } } closedir(h); return v; }
static void wipe(const std::string &d) { for (auto &s : files(d)) { unlink((d + "/" + s).c_str()); } }
static double volume(Mesh &m) { double v = 0; for (int e = 0; e < m.GetNE(); e++) { v += m.GetElementVolume(e); } return v; }

struct Opt { std::vector<std::string> a; Rng &r; void add(const char *s, const char *l, const std::string &v) { std::vector<std::string> kv = {r.b(0.7) ? s : l, v}; size_t at = 2 * (size_t)r.i(0, (int)(a.size() / 2)); if (flags) { at = a.size(); } a.insert(a.begin() + at, kv.begin(), kv.end()); } void flag(const std::string &f) { a.push_back(f); flags++; } int flags = 0; };
static std::string join(const std::vector<std::string> &a) { std::string s; for (auto &x : a) { s += x.empty() ? "'' " : x + " "; } return s; }

static void box(Ctx &c, int dim)
{
   Rng &r = c.rng; std::string cwd = c.path("w"); mkdir(cwd.c_str(), 0700); wipe(cwd);
   int n[3] = {5, 3, dim == 3 ? 3 : 1}, ds[3] = {1, 1, 1}, order = 3, rs = 0, dir = dim == 3 ? 3 : 2; double L[3] = {5, 1, 1}; bool simplex = false, per = true; std::string name = "test.mesh";
   Opt o{{}, r}; static const char *ns[] = {"-nx", "-ny", "-nz"}, *nl[] = {"--num-elements-x", "--num-elements-y", "--num-elements-z"}, *xs[] = {"-dx", "-dy", "-dz"}, *xl[] = {"--num-subdomains-x", "--num-subdomains-y", "--num-subdomains-z"}, *bs[] = {"-a", "-b", "-c"}, *bl[] = {"--base-x", "--base-y", "--base-z"};
   bool defaults = r.b(0.04), wide = r.b(0.12); std::string broken;
   if (!defaults)
   {
      per = r.b(0.5); dir = r.i(0, dim == 3 ? 3 : 2); auto pdir = [&](int d) { return per && (dir == d || dir == dim); };
      for (int d = 0; d < dim; d++)
      {
         if (r.b(0.9)) { ds[d] = wide ? r.i(1, dim == 3 ? 7 : 13) : r.i(1, 4); int q = r.i(1, wide ? (dim == 3 ? 2 : 5) : dim == 3 ? 2 : 3); n[d] = ds[d] * q; if (pdir(d)) { while (n[d] < 3) { n[d] += ds[d]; } } o.add(ns[d], nl[d], std::to_string(n[d])); o.add(xs[d], xl[d], std::to_string(ds[d])); }
         if (r.b(0.8)) { L[d] = r.b(0.3) ? r.i(1, 6) : r.pick<double>({0.1, 0.3, 0.7, 1.1, 2.4, 3.3, 12.5, 0.03, 0.003, 250, 1234}); o.add(bs[d], bl[d], fmt("%g", L[d])); }
      }
      if (r.b(0.7)) { order = r.i(1, r.b(0.1) ? (dim == 2 ? 6 : 4) : 3); if (n[0] * n[1] * n[2] > 150) { order = std::min(order, 3); } o.add("-o", "--mesh-order", std::to_string(order)); }
      if (r.b(0.4) && n[0] * n[1] * n[2] <= (dim == 3 ? 36 : 80)) { rs = r.i(0, dim == 3 ? 1 : 2); o.add("-rs", "--refine-serial", std::to_string(rs)); }
      simplex = r.b(0.4); if (simplex || r.b()) { o.add("-e", "--element-type", dim == 2 ? (simplex ? "6" : "4") : (simplex ? "4" : "6")); }
      if (per) { o.add("-dir", "--direction", std::to_string(dir)); if (r.b()) { o.flag(r.b() ? "-pm" : "--periodic-mesh"); } } else { o.flag(r.b() ? "-no-pm" : "--non-periodic-mesh"); if (r.b(0.3)) { o.a.insert(o.a.begin(), {"-dir", std::to_string(r.i(-1, 5))}); } }
      if (r.b(0.7)) { name = r.pick<std::string>({"box.mesh", "a-long-file-name-for-the-output.of.this.tool.mesh", "m", "", std::string(r.i(1, 200), 'f') + ".mesh"}); o.add("-m", "--mesh-name", name); }
      if (r.b(0.1))
      {
         int k = r.i(0, 3); if (k == 0) { int d = r.i(0, dim - 1); o.a.insert(o.a.end(), {ns[d], "7", xs[d], "2"}); broken = "indivisible"; } else if (k == 1) { o.a.insert(o.a.end(), {"-e", r.pick<std::string>({"3", "5", "0", "-1"})}); broken = "element-type"; }
         else if (k == 2) { if (!per) { o.a.push_back("-pm"); } o.a.insert(o.a.end(), {"-dir", r.pick<std::string>({"7", "-1", "4"})}); broken = "direction"; } else { o.a.push_back("--no-such-option"); broken = "unknown-option"; }
         // keep the mesh valid where only the requested failure may stop it
      }
   }
   std::string tool = dim == 2 ? "rectangle_mesh" : "cubic_mesh", what = tool + " " + join(o.a), log; int rc = exec(tool, o.a, cwd, &log); auto fl = files(cwd);
   c.event(fmt("%s runs", tool.c_str())); c.sig(fmt("%s|%d%d%d|per%d%d|o%d|r%d|%s|%s|%s", tool.c_str(), ds[0] > 1, ds[1] > 1, ds[2] > 1, per, per ? dir : 0, order, rs, simplex ? "simplex" : "tensor", name.empty() ? "default-name" : "named", broken.c_str())); c.sample(what);
   if (!broken.empty()) { c.check(rc == 1, "unusable-request-stops", fmt("%s (%s): outcome %d", what.c_str(), broken.c_str(), rc)); c.check(fl.empty(), "unusable-request-writes-nothing", what); c.event("unusable requests"); return; }
   if (!c.check(rc == 0, "tool-succeeds", fmt("%s: outcome %d\n%s", what.c_str(), rc, log.substr(log.size() > 600 ? log.size() - 600 : 0).c_str()))) { return; }
   bool okname = fl.size() == 1 && (name.empty() ? fl[0].size() > 5 && fl[0].substr(fl[0].size() - 5) == ".mesh" && fl[0].find(dim == 2 ? "rectangle" : "cubic") == 0 : fl[0] == name);
   if (!c.check(okname, name.empty() ? "default-file-name" : "file-name", fmt("%s: %zu files, first '%s'", what.c_str(), fl.size(), fl.empty() ? "" : fl[0].c_str()))) { return; }
   Mesh m((cwd + "/" + fl[0]).c_str(), 1, 0, true); int s = 1 << rs, N[3]; for (int d = 0; d < 3; d++) { N[d] = d < dim ? n[d] * s : 1; }
   auto pd = [&](int d) { return per && (dir == d || dir == dim); };
   int cells = N[0] * N[1] * N[2], tets = simplex ? (dim == 2 ? 2 : 6) : 1; if (!c.check(m.Dimension() == dim && m.SpaceDimension() == dim && m.GetNE() == cells * tets, "element-count", fmt("%s: %d elements, expected %d", what.c_str(), m.GetNE(), cells * tets))) { return; }
   Element::Type et = dim == 2 ? (simplex ? Element::TRIANGLE : Element::QUADRILATERAL) : (simplex ? Element::TETRAHEDRON : Element::HEXAHEDRON);
   std::map<int, double> vol; std::map<int, int> cnt; bool okA = true, okT = true, okV = true; Vector ctr(dim); double V = 1; for (int d = 0; d < dim; d++) { V *= L[d]; }
   c.check(m.GetNodes() && m.GetNodalFESpace()->GetMaxElementOrder() == order, "geometry-order", what);
   std::set<std::vector<long>> seen;
   for (int e = 0; e < m.GetNE(); e++)
   {
      okT = okT && m.GetElementType(e) == et; ElementTransformation *T = m.GetElementTransformation(e); T->SetIntPoint(&Geometries.GetCenter(m.GetElementBaseGeometry(e))); T->Transform(T->GetIntPoint(), ctr); okV = okV && T->Weight() > 0;
      int idx[3] = {0, 0, 0}; for (int d = 0; d < dim; d++) { idx[d] = (int)std::floor(ctr(d) / L[d] * ds[d]); if (ctr(d) < 0 || ctr(d) > L[d]) { okA = false; } }
      int ex = 1 + idx[0] + ds[0] * (idx[1] + ds[1] * idx[2]); if (m.GetAttribute(e) != ex && okA) { c.fail("subdomain-attribute", fmt("%s: element %d centred (%g,%g) has attribute %d, expected %d", what.c_str(), e, ctr(0), ctr(1), m.GetAttribute(e), ex)); okA = false; }
      double v = m.GetElementVolume(e); vol[m.GetAttribute(e)] += v; cnt[m.GetAttribute(e)]++; c.event("elements judged");
      // every element lies inside one cell of the grid and has that cell's share of the volume
      c.evaluations++; if (std::fabs(v - V / (cells * tets)) > 1e-5 * V / (cells * tets)) { okV = false; }
      std::vector<long> key; Array<int> vs; const FiniteElement *fe = m.GetNodalFESpace()->GetFE(e); const IntegrationRule *gv = Geometries.GetVertices(m.GetElementBaseGeometry(e)); (void)fe; std::vector<std::vector<long>> pts;
      for (int k = 0; k < gv->GetNPoints(); k++) { Vector x(dim); T->Transform(gv->IntPoint(k), x); std::vector<long> p; for (int d = 0; d < dim; d++) { double g = x(d) / L[d] * N[d]; long q = std::lround(g); if (std::fabs(g - q) > 1e-4 || q < 0 || q > N[d]) { okV = false; } p.push_back(q); } pts.push_back(p); }
      std::sort(pts.begin(), pts.end()); for (auto &p : pts) { key.insert(key.end(), p.begin(), p.end()); } okV = okV && seen.insert(key).second;
   }
   c.check(okA, "subdomain-attribute", what); c.check(okT, "element-shape", what); c.check(okV, "elements-tile-the-box", what);
   int nsub = ds[0] * ds[1] * ds[2]; c.check((int)vol.size() == nsub && vol.begin()->first == 1 && vol.rbegin()->first == nsub, "every-subdomain-present", what);
   for (auto &v : vol) { c.close(v.second, V / nsub, V / nsub, 1e-5, "subdomains-equal-size", what); c.check(cnt[v.first] == m.GetNE() / nsub, "subdomains-equal-count", what); }
   c.close(volume(m), V, V, 1e-5, "total-volume", what);
   // topology: vertices, boundary, interior faces
   long nv = 1; for (int d = 0; d < dim; d++) { nv *= pd(d) ? N[d] : N[d] + 1; } c.check(m.GetNV() == nv, "vertex-count", fmt("%s: %d vertices, expected %ld", what.c_str(), m.GetNV(), nv));
   int nb = 0, ext = 0; for (int d = 0; d < dim; d++) if (!pd(d)) { nb += 2 * (cells / N[d]) * (dim == 3 && simplex ? 2 : 1); }
   auto outer = [&](int b) { int f = dim == 2 ? m.GetBdrElementEdgeIndex(b) : m.GetBdrFace(b), e1, e2; m.GetFaceElements(f, &e1, &e2); return e2 < 0; }; // MFEM keeps boundary elements on the faces it joins
   for (int b = 0; b < m.GetNBE(); b++) { ext += outer(b); } c.check(ext == nb, "boundary-count", fmt("%s: %d outer boundary elements, expected %d", what.c_str(), ext, nb));
   int nside = dim == 2 ? (simplex ? 3 : 4) : (simplex ? 4 : 6), nf = 0; for (int f = 0; f < m.GetNumFaces(); f++) { int e1, e2; m.GetFaceElements(f, &e1, &e2); nf += e2 >= 0; } c.check(2 * nf + nb == nside * m.GetNE(), "conforming-neighbours", what);
   // sides keep MFEM's numbering: 2D 1 bottom 2 right 3 top 4 left; 3D 1 bottom 2 front 3 right 4 back 5 left 6 top
   bool okB = true; for (int b = 0; b < m.GetNBE(); b++)
   {
      if (!outer(b)) { continue; }
      ElementTransformation *T = m.GetBdrElementTransformation(b); Vector x(dim); T->SetIntPoint(&Geometries.GetCenter(m.GetBdrElementBaseGeometry(b))); T->Transform(T->GetIntPoint(), x); int sd = -1; for (int d = 0; d < dim; d++) { if (std::fabs(x(d)) < 1e-5 * L[d]) { sd = 2 * d; } if (std::fabs(x(d) - L[d]) < 1e-5 * L[d]) { sd = 2 * d + 1; } }
      static const int A2[] = {4, 2, 1, 3}, A3[] = {5, 3, 2, 4, 1, 6}; if (sd < 0 || m.GetBdrAttribute(b) != (dim == 2 ? A2[sd] : A3[sd])) { okB = false; }
   }
   c.check(okB, "side-attributes", what);
}
static void line(Ctx &c)
{
   Rng &r = c.rng; std::string cwd = c.path("w"); mkdir(cwd.c_str(), 0700); wipe(cwd); int n = 5, rs = 3; double L = 5; bool per = true; std::string name; Opt o{{}, r};
   if (r.b(0.9)) { n = r.b(0.15) ? r.i(13, 200) : r.i(3, 12); o.add("-nx", "--num-elements-x", std::to_string(n)); } if (r.b(0.8)) { L = r.pick<double>({0.1, 0.7, 1, 2.4, 12.5, 0.004, 777}); o.add("-a", "--base-x", fmt("%g", L)); } if (r.b(0.8)) { rs = r.i(0, n <= 12 && r.b(0.2) ? 6 : n > 60 ? 2 : 3); o.add("-rs", "--refine-serial", std::to_string(rs)); } else if (n > 60) { rs = 3; }
   if (r.b(0.6)) { name = r.pick<std::string>({"line.mesh", "a-rather-long-name-for-a-line.mesh"}); o.add("-m", "--mesh-name", name); } per = r.b(); if (!per) { o.flag("-no-pm"); } else if (r.b()) { o.flag("-pm"); }
   std::string what = "1d_mesh " + join(o.a), log; int rc = exec("1d_mesh", o.a, cwd, &log); auto fl = files(cwd); c.event("1d_mesh runs"); c.sig(fmt("1d|per%d|r%d|%s", per, rs, name.empty() ? "default-name" : "named"));
   if (!c.check(rc == 0, "tool-succeeds", fmt("%s: outcome %d\n%s", what.c_str(), rc, log.substr(log.size() > 900 ? log.size() - 900 : 0).c_str()))) { return; }
   bool okname = fl.size() == 1 && (name.empty() ? fl[0].size() > 5 && fl[0].substr(fl[0].size() - 5) == ".mesh" && fl[0].find("1d") == 0 : fl[0] == name); if (!c.check(okname, name.empty() ? "default-file-name" : "file-name", what)) { return; }
   Mesh m((cwd + "/" + fl[0]).c_str(), 1, 0, true); int N = n << rs; if (!c.check(m.Dimension() == 1 && m.GetNE() == N, "element-count", what)) { return; }
   std::set<long> seen; bool ok = true; for (int e = 0; e < N; e++) { ElementTransformation *T = m.GetElementTransformation(e); IntegrationPoint ip; ip.Set1w(0.5, 1); T->SetIntPoint(&ip); Vector x(m.SpaceDimension()); T->Transform(ip, x); double g = x(0) / L * N - 0.5; ok = ok && std::fabs(g - std::lround(g)) < 1e-3 && seen.insert(std::lround(g)).second && g > -0.5 && g < N; c.close(m.GetElementVolume(e), L / N, L / N, 1e-4, "line-spacing", what); c.event("elements judged"); }
   c.check(ok, "elements-tile-the-line", what); c.check(m.GetNV() == (per ? N : N + 1), "vertex-count", fmt("%s: %d vertices", what.c_str(), m.GetNV())); if (!per) { c.check(m.GetNBE() == 2 && m.GetBdrAttribute(0) + m.GetBdrAttribute(1) == 3, "boundary-count", what); }
}
static double volume(ElementTransformation *T) { double v = 0; const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 10); for (int k = 0; k < ir.GetNPoints(); k++) { T->SetIntPoint(&ir.IntPoint(k)); v += ir.IntPoint(k).weight * T->Weight(); } return v; }
static void gmsh(Ctx &c)
{
   Rng &r = c.rng; std::string cwd = c.path("w"); mkdir(cwd.c_str(), 0700); wipe(cwd); int dim = r.b(0.6) ? 2 : 3; bool simplex = r.b(); const bool wide = r.b(0.1); int nx = r.i(1, (dim == 2 ? 4 : 2) * (wide ? 3 : 1)), ny = r.i(1, (dim == 2 ? 4 : 2) * (wide ? 3 : 1)), nz = r.i(1, wide ? 4 : 2);
   Mesh b = base_mesh(dim, simplex, nx, ny, nz, r.u(0.5, 3), r.u(0.5, 3), r.u(0.5, 3)); if (dim == 2 && !simplex && r.b(0.4)) { Mesh q = split_some(b, r, nx * ny); b = std::move(q); }
   Mesh m = r.b(0.7) ? shuffled(b, r) : Mesh(b); for (int d = 0; d < 3; d++) { g_warp.a[d] = r.u(-0.05, 0.05); } g_warp.b = r.u(0, 3); g_warp.c = r.u(-0.5, 0.5); if (r.b(0.7)) { m.Transform(warp_fn); }
   for (int e = 0; e < m.GetNE(); e++) { m.SetAttribute(e, r.i(1, wide ? 300 : 7)); } for (int e = 0; e < m.GetNBE(); e++) { m.SetBdrAttribute(e, r.i(1, wide ? 3000 : 9)); }
   std::string name = r.pick<std::string>({"mesh.msh", "a.b.msh", "pipe-hub.msh"}); bool deflt = r.b(0.1); if (deflt) { name = "test.msh"; }
   int had = r.b(0.3) ? r.i(2, 3) : 0; // the input is an already curved MFEM mesh
   if (had) { if (dim == 2 && m.GetNumGeometries(2) > 1) { had = 2; } m.SetCurvature(had, r.b(0.3)); g_warp.a[0] *= 0.5; m.Transform(warp_fn); std::ofstream o(cwd + "/" + name); o.precision(17); m.Print(o); }
   else
   { // Gmsh 2.2, text; node numbers with gaps, boundary elements before the others
      std::ofstream o(cwd + "/" + name); o.precision(17); int gap = r.b(0.1) ? r.i(4, 500) : r.i(1, 3); o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << m.GetNV() << "\n"; for (int v = 0; v < m.GetNV(); v++) { const double *x = m.GetVertex(v); o << 1 + gap * v << " " << x[0] << " " << x[1] << " " << (dim == 3 ? x[2] : 0.0) << "\n"; }
      o << "$EndNodes\n$Elements\n" << m.GetNE() + m.GetNBE() << "\n"; int id = 1; auto ty = [](Geometry::Type g) { return g == Geometry::SEGMENT ? 1 : g == Geometry::TRIANGLE ? 2 : g == Geometry::SQUARE ? 3 : g == Geometry::TETRAHEDRON ? 4 : 5; };
      for (int k = 0; k < 2; k++) for (int e = 0; e < (k ? m.GetNE() : m.GetNBE()); e++) { Array<int> v; if (k) { m.GetElementVertices(e, v); } else { m.GetBdrElementVertices(e, v); } int a = k ? m.GetAttribute(e) : m.GetBdrAttribute(e); o << id++ << " " << ty(k ? m.GetElementBaseGeometry(e) : m.GetBdrElementBaseGeometry(e)) << " 2 " << a << " " << r.i(1, 20); for (int q : v) { o << " " << 1 + gap * q; } o << "\n"; }
      o << "$EndElements\n";
   }
   int order = 3; Opt o{{}, r}; if (!deflt) { o.add("-m", "--mesh-name", name); } if (r.b(0.8)) { order = r.i(1, 3); if (order < had) { order = r.b() ? 1 : had; } o.add("-o", "--mesh-order", std::to_string(order)); } bool fnc = r.b(0.4); if (fnc) { o.flag(r.b() ? "-fnc" : "--force-non-conforming"); } else if (r.b(0.3)) { o.flag("-nfnc"); }
   std::string what = fmt("gmsh2mfem %s(%dD %s input of order %d)", join(o.a).c_str(), dim, simplex ? "simplices" : "tensor", std::max(had, 1)), log; int rc = exec("gmsh2mfem", o.a, cwd, &log); c.event("gmsh2mfem runs"); c.sig(fmt("gmsh|dim%d|%d|o%d|fnc%d|%d|%d", dim, simplex, order, fnc, deflt, had)); c.sample(what);
   if (!c.check(rc == 0, "tool-succeeds", fmt("%s: outcome %d\n%s", what.c_str(), rc, log.substr(log.size() > 900 ? log.size() - 900 : 0).c_str()))) { return; }
   auto fl = files(cwd); std::sort(fl.begin(), fl.end()); if (!c.check(fl.size() == 2 && fl[0] == name && fl[1] == name + ".mfem", "file-name", what)) { return; }
   Mesh g((cwd + "/" + name + ".mfem").c_str(), 1, 0, true); if (!c.check(g.Dimension() == dim && g.SpaceDimension() == dim && g.GetNE() == m.GetNE() && g.GetNBE() == m.GetNBE() && g.GetNV() == m.GetNV(), "converted-sizes", fmt("%s: dim %d/%d space %d, %d elements, %d boundary, %d vertices", what.c_str(), g.Dimension(), dim, g.SpaceDimension(), g.GetNE(), g.GetNBE(), g.GetNV()))) { return; }
   bool curved = order > 1 || fnc; if (order == 1 && had) { order = had; c.check(g.GetNodes() && g.GetNodalFESpace()->GetMaxElementOrder() == had, "geometry-order", what); } c.check(!curved || (g.GetNodes() && g.GetNodalFESpace()->GetMaxElementOrder() == order), "geometry-order", what);
   if (curved) { c.check(dynamic_cast<const L2_FECollection *>(g.GetNodalFESpace()->FEColl()) != NULL, "discontinuous-geometry", what); }
   bool ok = true; for (int e = 0; e < m.GetNE(); e++)
   {
      ok = ok && g.GetAttribute(e) == m.GetAttribute(e) && g.GetElementBaseGeometry(e) == m.GetElementBaseGeometry(e); if (!ok) { break; } ElementTransformation *T = g.GetElementTransformation(e), *S = m.GetElementTransformation(e);
      // simplices may be renumbered locally: compare the corner points as a set, and the interior at symmetric points
      auto corners = [&](ElementTransformation *t) { std::vector<std::vector<double>> p; const IntegrationRule *gv = Geometries.GetVertices(m.GetElementBaseGeometry(e)); for (int k = 0; k < gv->GetNPoints(); k++) { Vector x(dim); t->Transform(gv->IntPoint(k), x); p.push_back(std::vector<double>(x.GetData(), x.GetData() + dim)); } return p; };
      auto P = corners(T), Q = corners(S); for (auto &p : P) { double best = 1e300; for (auto &q : Q) { double d = 0; for (int k = 0; k < dim; k++) { d = std::max(d, std::fabs(p[k] - q[k])); } best = std::min(best, d); } ok = ok && best < 1e-6; } c.evaluations++;
      Vector x(dim), y(dim); T->Transform(Geometries.GetCenter(m.GetElementBaseGeometry(e)), x); S->Transform(Geometries.GetCenter(m.GetElementBaseGeometry(e)), y); x -= y; ok = ok && x.Norml2() < 1e-6 && std::fabs(volume(T) - volume(S)) < 1e-5; c.event("elements judged");
   }
   c.check(ok, "converted-elements", what); bool okb = true; Array<int> va, vb; for (int e = 0; okb && e < m.GetNBE(); e++) { m.GetBdrElementVertices(e, va); g.GetBdrElementVertices(e, vb); okb = g.GetBdrAttribute(e) == m.GetBdrAttribute(e) && va.Size() == vb.Size(); va.Sort(); vb.Sort(); for (int k = 0; okb && k < va.Size(); k++) { okb = va[k] == vb[k]; } } c.check(okb, "converted-boundary", what);
   if (r.b(0.1)) { wipe(cwd); int z = exec("gmsh2mfem", {"-m", "missing.msh"}, cwd); c.check(z == 1 && files(cwd).empty(), "missing-input-stops", fmt("outcome %d", z)); c.event("unusable requests"); }
}
void vf::run_case(Ctx &c)
{
   int k = c.kase % 8; if (k < 3) { box(c, 2); } else if (k < 5) { box(c, 3); } else if (k == 5) { line(c); } else { gmsh(c); }
}
VF_MAIN(560, 6000)
