// Workload generators shared by the topology and assembly drivers: hostile meshes, decompositions and component systems.
#ifndef VERIF_TOPO_GEN_HPP
#define VERIF_TOPO_GEN_HPP
#include "common.hpp"
#include "topology_handler.hpp"
#include "component_topology_handler.hpp"
#include "hdf5_utils.hpp"
#include <memory>

namespace vf {
using namespace mfem;

inline std::vector<int> local_perm(Rng &r, Geometry::Type g)
{
   if (g == Geometry::TRIANGLE) { int k = r.i(0, 2); return {k, (k + 1) % 3, (k + 2) % 3}; }
   if (g == Geometry::SQUARE) { int k = r.i(0, 3); return {k, (k + 1) % 4, (k + 2) % 4, (k + 3) % 4}; }
   if (g == Geometry::TETRAHEDRON) { std::vector<int> p{0, 1, 2, 3}; int sw = 0; for (int k = 3; k > 0; k--) { int j = r.i(0, k); if (j != k) { std::swap(p[k], p[j]); sw++; } } if (sw % 2) { std::swap(p[0], p[1]); } return p; }
   if (g == Geometry::CUBE)
   {
      static const int X[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
      int ax[3] = {0, 1, 2}; int sg[3]; int sw = 0; for (int k = 2; k > 0; k--) { int j = r.i(0, k); if (j != k) { std::swap(ax[k], ax[j]); sw++; } }
      for (int k = 0; k < 3; k++) { sg[k] = r.i(0, 1); sw += sg[k]; } if (sw % 2) { sg[0] ^= 1; }   // det +1
      std::vector<int> p(8); for (int v = 0; v < 8; v++) { int y[3]; for (int k = 0; k < 3; k++) { y[k] = sg[k] ? 1 - X[v][ax[k]] : X[v][ax[k]]; } for (int w = 0; w < 8; w++) if (X[w][0] == y[0] && X[w][1] == y[1] && X[w][2] == y[2]) { p[v] = w; } }
      return p;
   }
   return {};
}

// The same mesh with vertices, elements, boundary elements and local vertex orders permuted.
inline Mesh shuffled(Mesh &m, Rng &r, bool perm_vertices = true, bool perm_local = true)
{
   int dim = m.Dimension(), nv = m.GetNV(), ne = m.GetNE(), nb = m.GetNBE();
   auto perm = [&](int n, bool on) { std::vector<int> p(n); for (int k = 0; k < n; k++) { p[k] = k; } if (on) for (int k = n - 1; k > 0; k--) { std::swap(p[k], p[r.i(0, k)]); } return p; };
   std::vector<int> vp = perm(nv, perm_vertices), ep = perm(ne, perm_vertices), bp = perm(nb, perm_vertices); std::vector<int> inv(nv); for (int k = 0; k < nv; k++) { inv[vp[k]] = k; }
   Mesh o(dim, nv, ne, nb, dim);
   for (int k = 0; k < nv; k++) { double x[3] = {0, 0, 0}; for (int d = 0; d < dim; d++) { x[d] = m.GetVertex(vp[k])[d]; } o.AddVertex(x); }
   auto add = [&](const Element *e, bool bdr)
   {
      Array<int> v; e->GetVertices(v); std::vector<int> w(v.Size()), q(v.Size()); for (int k = 0; k < v.Size(); k++) { w[k] = inv[v[k]]; }
      std::vector<int> lp; if (!bdr && perm_local) { lp = local_perm(r, e->GetGeometryType()); }
      if (bdr && dim == 2 && perm_local && r.b()) { lp = {1, 0}; } if (bdr && dim == 3 && perm_local) { lp = local_perm(r, e->GetGeometryType()); }
      if (lp.empty()) { q = w; } else { for (size_t k = 0; k < w.size(); k++) { q[k] = w[lp[k]]; } }
      Element *n = o.NewElement(e->GetGeometryType()); n->SetVertices(q.data()); n->SetAttribute(e->GetAttribute()); if (bdr) { o.AddBdrElement(n); } else { o.AddElement(n); }
   };
   for (int k = 0; k < ne; k++) { add(m.GetElement(ep[k]), false); } for (int k = 0; k < nb; k++) { add(m.GetBdrElement(bp[k]), true); }
   o.FinalizeTopology(); o.Finalize(false, true); o.SetAttributes(); return o;
}

inline Mesh base_mesh(int dim, bool simplex, int nx, int ny, int nz, double sx = 1, double sy = 1, double sz = 1)
{
   return dim == 2 ? Mesh::MakeCartesian2D(nx, ny, simplex ? Element::TRIANGLE : Element::QUADRILATERAL, true, sx, sy, false)
          : Mesh::MakeCartesian3D(nx, ny, nz, simplex ? Element::TETRAHEDRON : Element::HEXAHEDRON, sx, sy, sz, false);
}

// Splits some of the quadrilaterals (columns of hexahedra) of a Cartesian mesh into triangles (wedges): a mesh of mixed shapes.
inline Mesh split_some(Mesh &m, Rng &r, int ncol)
{
   int dim = m.Dimension(); std::vector<int> cut(ncol); int n = 0; for (int k = 0; k < ncol; k++) { cut[k] = r.i(0, 2); n += cut[k] > 0; } if (!n) { cut[r.i(0, ncol - 1)] = 1; }
   struct New { Geometry::Type g; std::vector<int> v; int attr; }; std::vector<New> el, be;
   auto put = [&](Geometry::Type g, std::vector<int> v, int attr, bool bdr) { (bdr ? be : el).push_back({g, v, attr}); };
   std::map<std::set<int>, int> lid; // faces of cut hexahedra that are cut, with the start of their diagonal
   for (int e = 0; e < m.GetNE(); e++)
   {
      Array<int> v; m.GetElementVertices(e, v); int a = m.GetAttribute(e), k = cut[e % ncol];
      if (!k) { std::vector<int> w; for (int q : v) { w.push_back(q); } put(m.GetElementBaseGeometry(e), w, a, false); continue; }
      int s = k - 1; auto V = [&](int q) { return v[(q + s) % 4]; }; auto W = [&](int q) { return v[4 + (q + s) % 4]; };
      if (dim == 2) { put(Geometry::TRIANGLE, {V(0), V(1), V(2)}, a, false); put(Geometry::TRIANGLE, {V(0), V(2), V(3)}, a, false); }
      else
      {
         put(Geometry::PRISM, {V(0), V(1), V(2), W(0), W(1), W(2)}, a, false); put(Geometry::PRISM, {V(0), V(2), V(3), W(0), W(2), W(3)}, a, false);
         lid[{v[0], v[1], v[2], v[3]}] = V(0); lid[{v[4], v[5], v[6], v[7]}] = W(0);
      }
   }
   for (int b = 0; b < m.GetNBE(); b++)
   {
      Array<int> v; m.GetBdrElementVertices(b, v); std::vector<int> w; for (int q : v) { w.push_back(q); } int a = m.GetBdrAttribute(b); auto it = lid.find(std::set<int>(w.begin(), w.end()));
      if (it == lid.end()) { put(m.GetBdrElementBaseGeometry(b), w, a, true); continue; }
      int s = 0; while (w[s] != it->second) { s++; } put(Geometry::TRIANGLE, {w[s], w[(s + 1) % 4], w[(s + 2) % 4]}, a, true); put(Geometry::TRIANGLE, {w[s], w[(s + 2) % 4], w[(s + 3) % 4]}, a, true);
   }
   Mesh o(dim, m.GetNV(), el.size(), be.size(), dim); for (int k = 0; k < m.GetNV(); k++) { o.AddVertex(m.GetVertex(k)); }
   for (int bdr = 0; bdr < 2; bdr++) for (auto &n : bdr ? be : el) { Element *e = o.NewElement(n.g); e->SetVertices(n.v.data()); e->SetAttribute(n.attr); if (bdr) { o.AddBdrElement(e); } else { o.AddElement(e); } }
   o.FinalizeTopology(); o.Finalize(false, true); o.SetAttributes(); return o;
}

struct Warp { double a[3] = {0, 0, 0}, b = 0, c = 0; int kind = 0; };
inline void warp_point(const Warp &w, const double *x, double *y, int dim)
{ // smooth, invertible for the small amplitudes used
   for (int d = 0; d < dim; d++) { double s = 0; for (int e = 0; e < dim; e++) { s += std::sin(2.1 * x[e] + w.b + 0.7 * d + 0.3 * e); } y[d] = x[d] * (1 + 0.2 * w.c) + w.a[d] * s; }
   if (w.c != 0) { double t = y[0] + 0.3 * w.c * y[dim - 1]; y[0] = t; }
}
static Warp g_warp;
inline void warp_fn(const Vector &x, Vector &y) { y.SetSize(x.Size()); warp_point(g_warp, x.GetData(), y.GetData(), x.Size()); }

struct SubSpec { bool big = false; int dim, n[3], numSub, order; bool simplex, shuffle, affine, mixed = false; std::string part; const char *shape() const { return mixed ? "mixed" : simplex ? "simplex" : "tensor"; } };
// Parent mesh with domain attributes 1..numSub, each used at least once.
// Line of segments of uneven length, numbered left to right or at random.
inline std::unique_ptr<Mesh> line_mesh(Rng &r, SubSpec &s)
{
   int n = r.b(0.1) ? r.i(8, 60) : r.i(1, 7); s.n[0] = n; s.n[1] = s.n[2] = 1; s.simplex = s.mixed = false; s.shuffle = r.b(0.5); s.part = "line"; s.numSub = 1; s.big = n > 7; double scale = r.b(0.1) ? r.pick<double>({1e-3, 100.0}) : 1.0;
   std::unique_ptr<Mesh> m(new Mesh(1, n + 1, n, 2)); std::vector<int> v(n + 1), e(n); for (int k = 0; k <= n; k++) { v[k] = k; } for (int k = 0; k < n; k++) { e[k] = k; } if (s.shuffle) { for (int k = n; k > 0; k--) { std::swap(v[k], v[r.i(0, k)]); } for (int k = n - 1; k > 0; k--) { std::swap(e[k], e[r.i(0, k)]); } }
   std::vector<double> x(n + 1); double t = r.u(-1, 1) * scale; for (int k = 0; k <= n; k++) { x[v[k]] = t; t += scale * r.u(0.2, 1.5); }
   for (int k = 0; k <= n; k++) { m->AddVertex(x[k]); } for (int k = 0; k < n; k++) { int w[2] = {v[e[k]], v[e[k] + 1]}; m->AddSegment(w, r.i(1, 3)); }
   bool sw = r.b(); int a = r.i(1, 4), b = r.i(1, 4); m->AddBdrPoint(sw ? v[n] : v[0], a); m->AddBdrPoint(sw ? v[0] : v[n], b); m->FinalizeMesh(); m->SetAttributes();
   s.order = r.i(1, 2); s.affine = r.b(0.4); m->SetCurvature(s.order, false, 1, Ordering::byNODES); if (!s.affine && s.order == 2) { auto *g = m->GetNodes(); for (int k = 0; k < n; k++) { Array<int> d; g->FESpace()->GetElementDofs(k, d); double l = (*g)(d[1]) - (*g)(d[0]); (*g)(d[2]) += 0.1 * r.u(-1, 1) * l; } }
   return m;
}
inline std::unique_ptr<Mesh> parent_mesh(Rng &r, SubSpec &s, int maxn2 = 5, int maxn3 = 3, bool wide = false)
{
   if (s.dim == 1) { return line_mesh(r, s); }
   s.simplex = r.b(0.4); s.shuffle = r.b(0.6); int mx = s.dim == 2 ? maxn2 : maxn3; for (int d = 0; d < 3; d++) { s.n[d] = r.i(1, mx); }
   if (s.n[0] * s.n[1] * (s.dim == 3 ? s.n[2] : 1) == 1) { s.n[r.i(0, s.dim - 1)] = 2; }
   bool big = wide && r.b(0.07); if (big) { int k = r.i(0, 2); for (int d = 0; d < s.dim; d++) { s.n[d] = s.dim == 2 ? r.i(6, 13) : r.i(2, 5); } if (k == 0) { s.n[r.i(0, s.dim - 1)] = s.dim == 2 ? r.i(14, 40) : r.i(6, 12); s.n[r.i(0, s.dim - 1)] = 1; } } s.big = big;
   double scale = wide && r.b(0.06) ? r.pick<double>({1e-3, 1e-2, 50.0, 1000.0}) : 1.0;
   Mesh b = base_mesh(s.dim, s.simplex, s.n[0], s.n[1], s.n[2], scale * r.u(0.6, 2), scale * r.u(0.6, 2), scale * r.u(0.6, 2));
   s.mixed = !s.simplex && r.b(0.35); if (s.mixed) { Mesh q = split_some(b, r, s.n[0] * s.n[1]); b = std::move(q); }
   int ne = b.GetNE(); s.numSub = std::min(ne, r.i(1, 6)); if (big && r.b(0.7)) { s.numSub = std::min(ne, r.pick<int>({7, 8, 9, 10, 11, 12, 16, 17, 20, 24, 32})); } int mode = r.i(0, 2); s.part = mode == 0 ? "stripes" : mode == 1 ? "random" : "blocks"; int ax = r.i(0, s.dim - 1);
   Vector c(s.dim), mn, mxv; b.GetBoundingBox(mn, mxv);
   for (int e = 0; e < ne; e++)
   {
      int a; b.GetElementCenter(e, c); double t = (c(ax) - mn(ax)) / (mxv(ax) - mn(ax));
      if (mode == 0) { a = std::min(s.numSub - 1, (int)(t * s.numSub)); } else if (mode == 1) { a = r.i(0, s.numSub - 1); }
      else { int h = 0; for (int d = 0; d < s.dim; d++) { h = 2 * h + (c(d) > 0.5 * (mn(d) + mxv(d))); } a = h % s.numSub; }
      b.SetAttribute(e, a + 1);
   }
   { // every attribute 1..numSub used: compress
      std::map<int, int> used; for (int e = 0; e < ne; e++) { used[b.GetAttribute(e)] = 0; } int k = 0; for (auto &u : used) { u.second = ++k; } for (int e = 0; e < ne; e++) { b.SetAttribute(e, used[b.GetAttribute(e)]); } s.numSub = k; }
   if (r.b(0.4)) { for (int k = 0; k < b.GetNBE(); k++) { b.SetBdrAttribute(k, r.b(0.5) ? r.i(1, 9) : b.GetBdrAttribute(k)); } }
   if (wide && r.b(0.06)) { for (int k = 0; k < b.GetNBE(); k++) { if (r.b(0.4)) { b.SetBdrAttribute(k, r.pick<int>({10, 15, 31, 32, 33, 64, 99, 100, 128, 256, 500})); } } }
   b.SetAttributes();
   std::unique_ptr<Mesh> m(new Mesh(s.shuffle ? shuffled(b, r) : Mesh(b)));
   s.order = r.i(1, 2); s.affine = r.b(0.3); m->SetCurvature(s.order, false, s.dim, r.b() ? Ordering::byNODES : Ordering::byVDIM);
   if (!s.affine && scale == 1.0) { for (int d = 0; d < 3; d++) { g_warp.a[d] = r.u(-0.05, 0.05); } g_warp.b = r.u(0, 3); g_warp.c = r.u(-0.5, 0.5); m->Transform(warp_fn); }
   if (s.dim == 3) { m->SetBdrAttribute(r.i(0, m->GetNBE() - 1), 899); m->SetAttributes(); } // MFEM 4.5.2 numbers generated boundaries 900, the handler expects maximum + 1
   return m;
}

inline void load_config(const std::string &file, const std::string &text) { std::ofstream o(file); o << text; o.close(); config = InputParser(file); }

// ---------------------------------------------------------------- component systems
struct CompPort { int m1, m2, a1, a2, ref; };
struct CompSystem
{
   int dim = 2; bool simplex = false, mixed = false; const char *shape() const { return mixed ? "mixed" : simplex ? "simplex" : "tensor"; } int n = 1, order = 1; double L = 1; bool rotated = false, tight = false, moved = false; std::string style;
   std::vector<std::string> names; std::vector<std::string> files; std::vector<std::unique_ptr<Mesh>> comps;   // used components, in library order
   std::vector<int> type; std::vector<std::array<double, 6>> conf;                                     // per mesh
   std::vector<CompPort> ports; std::vector<std::string> ref_names; std::vector<std::array<double, 6>> ref_conf; std::vector<std::array<int, 4>> ref_info; // c1,c2,a1,a2
   std::vector<std::array<int, 3>> bdr;  // global attribute, mesh, component attribute
   std::string h5, yml; bool relabel = false; int refine = 0; std::vector<std::vector<int>> label; // label[component][side]: component boundary attribute of that side
   Mesh placed(int m) const
   {
      Mesh q(*comps[type[m]]); const auto &c = conf[m]; Vector nd; GridFunction *x = q.GetNodes(); const FiniteElementSpace *f = x->FESpace();
      for (int k = 0; k < f->GetNDofs(); k++)
      {
         double p[3]; for (int d = 0; d < dim; d++) { p[d] = (*x)(f->DofToVDof(k, d)); }
         if (dim == 2) { double cs = std::cos(c[3]), sn = std::sin(c[3]), a = cs * p[0] - sn * p[1] + c[0], b = sn * p[0] + cs * p[1] + c[1]; p[0] = a; p[1] = b; } else { for (int d = 0; d < 3; d++) { p[d] += c[d]; } }
         for (int d = 0; d < dim; d++) { (*x)(f->DofToVDof(k, d)) = p[d]; }
      }
      return q;
   }
};

// A grid of cells, each filled with one of several components of the same outline (sides matching), optionally turned by quarter turns in 2D.
inline CompSystem comp_system(Ctx &c, Rng &r, int dim, bool curved_ok = true, int maxcomp = 3, int maxcell = 3, bool wide = false)
{
   CompSystem S; S.dim = dim; S.n = r.i(1, dim == 2 ? 3 : 2); S.L = r.pick<double>({1.0, 2.0, 0.7}); S.order = curved_ok ? r.i(1, 2) : 1; S.rotated = dim == 2 && r.b(0.4);
   bool big = wide && r.b(0.08); if (big) { maxcomp = 7; maxcell = 6; S.n = r.b(0.3) ? (dim == 2 ? r.i(4, 9) : 3) : S.n; } if (wide && r.b(0.06)) { S.L = r.pick<double>({0.01, 0.1, 30.0}); }
   int nc = r.i(1, maxcomp); double ga = r.b() ? 0 : r.u(-0.06, 0.06);
   auto g = [&](double s) { return s + ga * std::sin(2 * M_PI * s); };                 // symmetric side spacing
   bool simp = r.b(0.4);
   int nattr = 2 * dim;
   for (int k = 0; k < nc; k++)
   {
      // 3D simplex sides only match when both components carry the same triangulation, hence one orientation; in 2D any mixture matches
      bool sx = dim == 2 ? r.b(0.4) : simp; Mesh b = base_mesh(dim, sx, S.n, S.n, S.n); if (sx) { S.simplex = true; } else if (dim == 2 && r.b(0.3)) { Mesh q = split_some(b, r, S.n * S.n); b = std::move(q); S.mixed = true; }
      for (int e = 0; e < b.GetNBE(); e++)
      { // side attributes: 1 y=0, 2 x=1, 3 y=1, 4 x=0, 5 z=0, 6 z=1
         Array<int> v; b.GetBdrElementVertices(e, v); double lo[3] = {1, 1, 1}, hi[3] = {0, 0, 0}; for (int q = 0; q < v.Size(); q++) for (int d = 0; d < dim; d++) { lo[d] = std::min(lo[d], b.GetVertex(v[q])[d]); hi[d] = std::max(hi[d], b.GetVertex(v[q])[d]); }
         int a = 0; if (hi[1] < 1e-9) { a = 1; } else if (lo[0] > 1 - 1e-9) { a = 2; } else if (lo[1] > 1 - 1e-9) { a = 3; } else if (hi[0] < 1e-9) { a = 4; } else if (dim == 3 && hi[2] < 1e-9) { a = 5; } else if (dim == 3) { a = 6; } b.SetBdrAttribute(e, a);
      }
      Mesh m = r.b(0.7) ? shuffled(b, r) : Mesh(b); m.SetAttributes(); m.SetCurvature(S.order);
      GridFunction *x = m.GetNodes(); const FiniteElementSpace *f = x->FESpace(); double wa = r.b(0.3) ? 0 : r.u(-0.06, 0.06), wb = r.u(-0.06, 0.06); double L = S.L;
      for (int q = 0; q < f->GetNDofs(); q++)
      {
         double p[3]; for (int d = 0; d < dim; d++) { p[d] = (*x)(f->DofToVDof(q, d)); } double bub = 1; for (int d = 0; d < dim; d++) { bub *= std::sin(M_PI * p[d]); }
         double y[3]; for (int d = 0; d < dim; d++) { y[d] = g(p[d]) + (d == 0 ? wa : wb) * bub; } for (int d = 0; d < dim; d++) { (*x)(f->DofToVDof(q, d)) = L * y[d]; }
      }
      std::string fn = c.path(fmt("comp%d.mesh", k)); { std::ofstream o(fn); o.precision(17); m.Print(o); }
      S.files.push_back(fn); S.comps.emplace_back(new Mesh(fn.c_str())); S.names.push_back(fmt("%s%d", r.pick<std::string>({"unit", "square-", "c"}).c_str(), k));
   }
   int cells[3] = {r.i(1, maxcell), r.i(1, maxcell), dim == 3 ? r.i(1, 2) : 1}; if (dim == 3) { cells[0] = r.i(1, big ? 4 : 2); cells[1] = r.i(1, big ? 3 : 2); }
   if (big && r.b(0.3)) { int a = r.i(0, 1); cells[a] = r.i(7, 14); cells[1 - a] = 1; cells[2] = 1; }
   if (cells[0] * cells[1] * cells[2] == 1) { cells[r.i(0, dim - 1)] = 2; }
   int nm = cells[0] * cells[1] * cells[2]; std::vector<int> slot(nm); for (int k = 0; k < nm; k++) { slot[k] = k; } for (int k = nm - 1; k > 0; k--) { std::swap(slot[k], slot[r.i(0, k)]); } // mesh k sits in cell slot[k]
   std::vector<int> at(nm); for (int k = 0; k < nm; k++) { at[slot[k]] = k; }
   S.type.resize(nm); S.conf.resize(nm); std::vector<int> rot(nm, 0);
   std::set<int> used;
   for (int m = 0; m < nm; m++) { S.type[m] = r.i(0, nc - 1); used.insert(S.type[m]); if (S.rotated) { rot[m] = r.i(0, 3); } }
   // drop unused components so that the library index range is exactly the used ones
   { std::map<int, int> ren; std::vector<std::string> nn, nf; std::vector<std::unique_ptr<Mesh>> ncm; for (int k : used) { ren[k] = (int)nn.size(); nn.push_back(S.names[k]); nf.push_back(S.files[k]); ncm.emplace_back(std::move(S.comps[k])); }
     for (auto &t : S.type) { t = ren[t]; } S.names = nn; S.files = nf; S.comps = std::move(ncm); }
   for (int m = 0; m < nm; m++)
   {
      int s = slot[m], i = s % cells[0], j = (s / cells[0]) % cells[1], k = s / (cells[0] * cells[1]); double L = S.L; auto &cf = S.conf[m]; cf.fill(0);
      double off[4][2] = {{0, 0}, {L, 0}, {L, L}, {0, L}}; cf[0] = i * L + off[rot[m]][0]; cf[1] = j * L + off[rot[m]][1]; cf[2] = k * L; cf[3] = rot[m] * M_PI / 2; if (dim == 3) { cf[3] = 0; }
   }
   auto side = [&](int m, int gside) { if (gside >= 5) { return gside; } return 1 + ((gside - 1 - rot[m] + 8) % 4); }; // component attribute lying on global side
   std::map<std::string, int> refs; std::set<std::pair<int, int>> portside;
   auto connect = [&](int ma, int mb, int ga_, int gb_)
   {
      int m1 = ma, m2 = mb, s1 = ga_, s2 = gb_; if (r.b(0.3)) { std::swap(m1, m2); std::swap(s1, s2); }
      int a1 = side(m1, s1), a2 = side(m2, s2); auto &c1 = S.conf[m1], &c2 = S.conf[m2]; std::array<double, 6> rc; rc.fill(0);
      double cs = std::cos(-c1[3]), sn = std::sin(-c1[3]), dx = c2[0] - c1[0], dy = c2[1] - c1[1]; rc[0] = cs * dx - sn * dy; rc[1] = sn * dx + cs * dy; rc[2] = c2[2] - c1[2]; rc[3] = c2[3] - c1[3];
      std::string key = fmt("%d %d %d %d %.6f %.6f %.6f %.6f", S.type[m1], S.type[m2], a1, a2, rc[0] + 1e-9, rc[1] + 1e-9, rc[2] + 1e-9, rc[3] + 1e-9);
      if (!refs.count(key)) { refs[key] = (int)S.ref_names.size(); S.ref_names.push_back(fmt("port_%s%d", r.b() ? "x" : "long-name-", (int)S.ref_names.size())); S.ref_conf.push_back(rc); S.ref_info.push_back({S.type[m1], S.type[m2], a1, a2}); }
      S.ports.push_back({m1, m2, a1, a2, refs[key]}); portside.insert({m1, a1}); portside.insert({m2, a2});
   };
   auto id = [&](int i, int j, int k) { return at[i + cells[0] * (j + cells[1] * k)]; };
   for (int k = 0; k < cells[2]; k++) for (int j = 0; j < cells[1]; j++) for (int i = 0; i < cells[0]; i++)
         {
            if (i + 1 < cells[0]) { connect(id(i, j, k), id(i + 1, j, k), 2, 4); } if (j + 1 < cells[1]) { connect(id(i, j, k), id(i, j + 1, k), 3, 1); } if (k + 1 < cells[2]) { connect(id(i, j, k), id(i, j, k + 1), 6, 5); } }
   if (wide && r.b(0.12))
   {  // the whole system moved, and in 2D turned by any angle: the ports depend on relative placement only
      double th = dim == 2 && r.b(0.6) ? r.u(-7, 7) : 0.0, t[3]; for (auto &v : t) { v = r.b(0.3) ? r.u(-100, 100) : r.u(-2, 2); } double cs = std::cos(th), sn = std::sin(th);
      for (auto &cf : S.conf) { double a = cs * cf[0] - sn * cf[1] + t[0], b = sn * cf[0] + cs * cf[1] + t[1]; cf[0] = a; cf[1] = b; if (dim == 2) { cf[3] += th; } else { cf[2] += t[2]; } } S.moved = true;
   }
   for (int k = (int)S.ports.size() - 1; k > 0; k--) { std::swap(S.ports[k], S.ports[r.i(0, k)]); }
   // component boundary attributes need not be 1, 2, 3, ...: each component numbers its sides in its own way
   S.label.assign(S.names.size(), std::vector<int>(nattr + 1)); S.relabel = r.b(0.5);
   for (size_t k = 0; k < S.names.size(); k++)
   {
      std::vector<int> pool; for (int a = 1; a <= (S.relabel ? r.pick<int>({nattr, nattr + 1, 3 * nattr, 30}) : nattr); a++) { pool.push_back(a); } if (S.relabel) for (int a = (int)pool.size() - 1; a > 0; a--) { std::swap(pool[a], pool[r.i(0, a)]); }
      for (int a = 1; a <= nattr; a++) { S.label[k][a] = pool[a - 1]; }
      if (!S.relabel) { continue; }
      Mesh &q = *S.comps[k]; for (int e = 0; e < q.GetNBE(); e++) { q.SetBdrAttribute(e, S.label[k][q.GetBdrAttribute(e)]); } q.SetAttributes(); { std::ofstream o(S.files[k]); o.precision(17); q.Print(o); } S.comps[k].reset(new Mesh(S.files[k].c_str()));
   }
   int amax = r.pick<int>({nattr, 3, 12, 40});
   for (int m = 0; m < nm; m++) for (int a = 1; a <= nattr; a++) if (!portside.count({m, a})) { S.bdr.push_back({r.b(0.6) ? a : r.i(1, amax), m, S.label[S.type[m]][a]}); }
   for (int k = (int)S.bdr.size() - 1; k > 0; k--) { std::swap(S.bdr[k], S.bdr[r.i(0, k)]); }
   for (auto &p : S.ports) { p.a1 = S.label[S.type[p.m1]][p.a1]; p.a2 = S.label[S.type[p.m2]][p.a2]; }
   for (auto &q : S.ref_info) { q[2] = S.label[q[0]][q[2]]; q[3] = S.label[q[1]][q[3]]; }
   return S;
}

// Writes the global configuration file and returns the YAML text that uses it. how: 0 ports from the input file, 1 ports described in the global file.
inline std::string write_system(Ctx &c, Rng &r, CompSystem &S, const std::string &tag, int how, bool bdr_separate, const std::map<std::string, std::string> &portfile = {}, bool write_ports = false)
{
   S.h5 = c.path("global" + tag + ".h5"); hid_t f = H5Fcreate(S.h5.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   hid_t g = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); int nc = S.names.size(), nm = S.type.size();
   hdf5_utils::WriteAttribute(g, "number_of_components", nc); for (int k = 0; k < nc; k++) { hdf5_utils::WriteAttribute(g, std::to_string(k), S.names[k]); }
   Array<int> mt(nm); Array2D<double> cf(nm, 6); for (int m = 0; m < nm; m++) { mt[m] = S.type[m]; for (int d = 0; d < 6; d++) { cf(m, d) = S.conf[m][d]; } }
   hdf5_utils::WriteDataset(g, "meshes", mt); hdf5_utils::WriteDataset(g, "configuration", cf); H5Gclose(g);
   g = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); int nr = S.ref_names.size(); hdf5_utils::WriteAttribute(g, "number_of_references", nr);
   for (int k = 0; k < nr; k++)
   {
      hdf5_utils::WriteAttribute(g, std::to_string(k), S.ref_names[k]);
      if (how == 1)
      {
         hid_t p = H5Gcreate(g, S.ref_names[k].c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); auto &q = S.ref_info[k];
         hdf5_utils::WriteAttribute(p, "comp1", S.names[q[0]]); hdf5_utils::WriteAttribute(p, "comp2", S.names[q[1]]); hdf5_utils::WriteAttribute(p, "attr1", q[2]); hdf5_utils::WriteAttribute(p, "attr2", q[3]);
         Array<double> t(6); for (int d = 0; d < 6; d++) { t[d] = S.ref_conf[k][d]; } hdf5_utils::WriteDataset(p, "comp2_configuration", t); H5Gclose(p);
      }
   }
   int np = S.ports.size(); Array2D<int> pi(np, 5); for (int k = 0; k < np; k++) { pi(k, 0) = S.ports[k].m1; pi(k, 1) = S.ports[k].m2; pi(k, 2) = S.ports[k].a1; pi(k, 3) = S.ports[k].a2; pi(k, 4) = S.ports[k].ref; }
   if (np) { hdf5_utils::WriteDataset(g, "interface", pi); } H5Gclose(g);
   Array2D<int> bd(S.bdr.size(), 3); for (size_t k = 0; k < S.bdr.size(); k++) for (int d = 0; d < 3; d++) { bd(k, d) = S.bdr[k][d]; }
   std::string bfile = c.path("bdr" + tag + ".h5");
   if (bdr_separate) { hid_t h = H5Fcreate(bfile.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h, "boundary", bd); H5Fclose(h); } else { hdf5_utils::WriteDataset(f, "boundary", bd); }
   H5Fclose(f);
   std::string y = "mesh:\n  type: component-wise\n" + (S.refine ? fmt("  uniform_refinement: %d\n", S.refine) : std::string()) + "  component-wise:\n    global_config: \"" + S.h5 + "\"\n"; if (bdr_separate) { y += "    bdr_config: \"" + bfile + "\"\n"; } if (write_ports) { y += "    write_ports: true\n"; } if (r.b(0.3)) { y += "    verbose: true\n"; }
   y += "    components:\n"; std::vector<int> ord(nc); for (int k = 0; k < nc; k++) { ord[k] = k; } for (int k = nc - 1; k > 0; k--) { std::swap(ord[k], ord[r.i(0, k)]); }
   if (r.b(0.3) && !S.tight) { y += "      - name: \"not-used\"\n        file: \"/nonexistent/never-read.mesh\"\n"; }
   for (int k : ord) { y += "      - name: \"" + S.names[k] + "\"\n        file: \"" + S.files[k] + "\"\n"; }
   if (how == 0 && nr)
   {
      y += "    ports:\n"; std::vector<int> po(nr); for (int k = 0; k < nr; k++) { po[k] = k; } for (int k = nr - 1; k > 0; k--) { std::swap(po[k], po[r.i(0, k)]); }
      if (r.b(0.3)) { y += "      - name: \"unused-port\"\n        comp1:\n          name: \"no\"\n          attr: 1\n        comp2:\n          name: \"no\"\n          attr: 2\n        comp2_configuration: [0, 0, 0, 0, 0, 0]\n"; }
      for (int k : po)
      {
         auto &q = S.ref_info[k]; y += "      - name: \"" + S.ref_names[k] + "\"\n"; auto it = portfile.find(S.ref_names[k]); if (it != portfile.end()) { y += "        file: \"" + it->second + "\"\n"; }
         y += fmt("        comp1:\n          name: \"%s\"\n          attr: %d\n        comp2:\n          name: \"%s\"\n          attr: %d\n        comp2_configuration: [", S.names[q[0]].c_str(), q[2], S.names[q[1]].c_str(), q[3]);
         for (int d = 0; d < 6; d++) { y += fmt("%s%.17g", d ? ", " : "", S.ref_conf[k][d]); } y += "]\n";
      }
   }
   return y;
}
} // namespace vf
#endif
