// Random boundary value problems on decomposed meshes and component systems, their solvers, and the same equations on the undecomposed mesh.
#ifndef VERIF_SOLVE_GEN_HPP
#define VERIF_SOLVE_GEN_HPP
#include "common.hpp"
#include "topo_gen.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
#include "steady_ns_solver.hpp"
#include "unsteady_ns_solver.hpp"
#include "advdiff_solver.hpp"
#include "hyperreduction_integ.hpp"
#include "nonlinear_integ.hpp"
#include "dg_bilinear.hpp"
#include "dg_linear.hpp"
#include "dg_mixed_bilin.hpp"
#include "etc.hpp"
namespace vf {
enum Pde { POISSON, LINELAST, STOKES, STEADYNS, UNSTEADYNS, ADVDIFF };
inline const char *pde_name(int p) { static const char *n[] = {"poisson", "linelast", "stokes", "steady-ns", "unsteady-ns", "adv-diff"}; return n[p]; }
static double g_par[2] = {1, 1}; // parameters of a parameterized problem
struct Field
{ // smooth vector field; linear and divergence-free when asked; with 'more', g_par[0] times this plus g_par[1] times that
   std::shared_ptr<Field> more; double a[3][4], b[3][3], t[3] = {0, 0, 0}; bool lin = false; double amp = 1, cor = 0, cx[3] = {0, 0, 0};
   Field() { std::memset(a, 0, sizeof a); std::memset(b, 0, sizeof b); }
   Field(Rng &r, int dim, double amp_, bool solenoidal = false) : lin(solenoidal), amp(amp_)
   {
      for (int d = 0; d < 3; d++) { for (int k = 0; k < 4; k++) { a[d][k] = r.u(-1, 1); } for (int k = 0; k < 3; k++) { b[d][k] = r.u(-1.5, 1.5); } t[d] = r.u(-0.5, 0.5); }
      if (lin) { double tr = 0; for (int d = 0; d < dim; d++) { tr += b[d][d]; } b[dim - 1][dim - 1] -= tr; }
   }
   double operator()(const Vector &x, int d) const
   {
      double s = 0; for (int k = 0; k < x.Size(); k++) { s += b[d][k] * x(k); } if (more) { Field f = *this; f.more.reset(); return g_par[0] * f(x, d) + g_par[1] * (*more)(x, d); }
      return (cor != 0 ? -cor * (x(d) - cx[d]) : 0.0) + amp * (lin ? a[d][0] + s : a[d][0] + a[d][1] * std::sin(1.3 * s + a[d][2]) + 0.3 * s);
   }
   std::function<double(const Vector &, double)> scalar() const { Field f = *this; return [f](const Vector &x, double) { return f(x, 0); }; }
   std::function<void(const Vector &, double, Vector &)> vec() const { Field f = *this; return [f](const Vector &x, double, Vector &v) { for (int d = 0; d < v.Size(); d++) { v(d) = f(x, d); } }; }
};
template <class B> struct Open : B
{
   Array<int> &gattr() { return B::global_bdr_attributes; } Array<FiniteElementSpace *> &spaces() { return B::fes; } BlockVector *rhs() { return B::RHS; }
};
// Problem functions are plain function pointers: slot k reads its field from a table.
static const int NSLOT = 48; static Field g_slot[NSLOT]; static double g_mat[2] = {1, 1}; static bool g_flux = false;
template <int K> double slot_s(const Vector &x, double) { return g_slot[K](x, 0); }
template <int K> void slot_v(const Vector &x, double, Vector &v) { for (int d = 0; d < v.Size(); d++) { v(d) = g_slot[K](x, d); } if (g_flux && K < NSLOT - 4) { Vector y; function_factory::flow_problem::flux(x, y); v -= y; } }
template <int K> double slot_m(const Vector &, double) { return g_mat[K]; }
template <int... K> inline void slot_tables(function_factory::GeneralScalarFunction **s, function_factory::GeneralVectorFunction **v, std::integer_sequence<int, K...>) { ((s[K] = slot_s<K>, v[K] = slot_v<K>), ...); }
struct Prob : FlowProblem
{
   function_factory::GeneralScalarFunction *ss[NSLOT]; function_factory::GeneralVectorFunction *vv[NSLOT];
   Prob() { problem_name = "custom"; param_num = 2; param_map["p0"] = 0; param_map["p1"] = 1; param_ptr.SetSize(2); param_ptr[0] = &g_par[0]; param_ptr[1] = &g_par[1]; slot_tables(ss, vv, std::make_integer_sequence<int, NSLOT>()); }
};
struct BC { int attr, kind; Field f; };      // kind: 0 given data, 1 natural (with data for elasticity), 2 nothing specified, 3 zero data
struct Sys
{
   int pde = 0, dim = 2, order = 1, nt = 1; bool comp = false, full_dg = true, viaprob = false, direct = true, amg = false, alldir = false, rhs = true, defpen = false, fluxed = false, everywhere = false, stokesflow = false; VectorCoefficient *flowc = NULL; double delu = 0; Vector x0; double sigma = -1, kappa = 10, nu = 1, zeta = 1, Pe = 1, dt = 0.1, lam = 1, mu = 1; bool lf = false;
   std::unique_ptr<Mesh> G; CompSystem S; std::vector<BC> bc; Field f, ic, flow, pic; std::string mesh_yaml, sig; int uorder() const { return pde == STOKES || pde == STEADYNS || pde == UNSTEADYNS ? order + 1 : order; }
   bool ns() const { return pde == STEADYNS || pde == UNSTEADYNS; } bool saddle() const { return pde == STOKES || ns(); } bool scalar() const { return pde == POISSON || pde == ADVDIFF; }
   int nvar() const { return saddle() ? 2 : 1; }
   double pen() const { int o = uorder(); return defpen ? (o + 1) * (o + 1) : kappa; }
};
// The component system as one mesh: coinciding vertices merged, boundary faces numbered globally.
inline std::unique_ptr<Mesh> glue(const CompSystem &S)
{
   std::vector<std::array<double, 3>> V; std::vector<std::vector<int>> el, be; std::vector<int> eg, bg, ba; std::vector<Mesh> P; for (size_t m = 0; m < S.type.size(); m++) { P.push_back(S.placed(m)); } int dim = S.dim;
   auto vid = [&](Mesh &q, int v) { double p[3] = {0, 0, 0}; { Vector nv; q.GetNodes(nv); (void)nv; } GridFunction *x = q.GetNodes(); (void)x; for (int d = 0; d < dim; d++) { p[d] = 0; } return std::array<double, 3>{p[0], p[1], p[2]}; }; (void)vid;
   for (size_t m = 0; m < P.size(); m++)
   {
      Mesh &q = P[m]; std::vector<int> id(q.GetNV(), -1);
      for (int e = 0; e < q.GetNE(); e++)
      {
         Array<int> v; q.GetElementVertices(e, v); const IntegrationRule *gv = Geometries.GetVertices(q.GetElementBaseGeometry(e)); ElementTransformation *T = q.GetElementTransformation(e); std::vector<int> w;
         for (int k = 0; k < v.Size(); k++)
         {
            if (id[v[k]] < 0)
            {
               Vector x(dim); T->Transform(gv->IntPoint(k), x); int hit = -1; for (size_t a = 0; a < V.size() && hit < 0; a++) { double d = 0; for (int c = 0; c < dim; c++) { d = std::max(d, std::fabs(V[a][c] - x(c))); } if (d < 1e-8) { hit = a; } }
               if (hit < 0) { hit = V.size(); V.push_back({x(0), x(1), dim > 2 ? x(2) : 0.0}); } id[v[k]] = hit;
            }
            w.push_back(id[v[k]]);
         }
         el.push_back(w); eg.push_back(q.GetElementBaseGeometry(e));
      }
      for (int b = 0; b < q.GetNBE(); b++) for (auto &x : S.bdr) if (x[1] == (int)m && x[2] == q.GetBdrAttribute(b)) { Array<int> v; q.GetBdrElementVertices(b, v); std::vector<int> w; for (int k : v) { w.push_back(id[k]); } be.push_back(w); bg.push_back(q.GetBdrElementBaseGeometry(b)); ba.push_back(x[0]); }
   }
   std::unique_ptr<Mesh> G(new Mesh(dim, V.size(), el.size(), be.size(), dim)); for (auto &v : V) { G->AddVertex(v.data()); }
   for (size_t k = 0; k < el.size(); k++) { Element *e = G->NewElement(eg[k]); e->SetVertices(el[k].data()); e->SetAttribute(1); G->AddElement(e); }
   for (size_t k = 0; k < be.size(); k++) { Element *e = G->NewElement(bg[k]); e->SetVertices(be[k].data()); e->SetAttribute(ba[k]); G->AddBdrElement(e); }
   G->FinalizeTopology(false); G->Finalize(false, false); G->SetAttributes(); G->SetCurvature(S.order, false, dim);
   GridFunction *X = G->GetNodes(); const FiniteElementSpace *F = X->FESpace(); int e0 = 0;
   for (auto &q : P) { for (int e = 0; e < q.GetNE(); e++) { ElementTransformation *T = q.GetElementTransformation(e); const FiniteElement *fe = F->GetFE(e0 + e); Array<int> dofs; F->GetElementDofs(e0 + e, dofs); for (int k = 0; k < dofs.Size(); k++) { Vector x(dim); T->Transform(fe->GetNodes().IntPoint(k), x); for (int d = 0; d < dim; d++) { (*X)(F->DofToVDof(dofs[k], d)) = x(d); } } } e0 += q.GetNE(); }
   return G;
}
inline bool uniform_shape(const CompSystem &S) { for (auto &m : S.comps) for (int e = 0; e < m->GetNE(); e++) if (m->GetElementBaseGeometry(e) != S.comps[0]->GetElementBaseGeometry(0) || m->GetElementBaseGeometry(e) == Geometry::PRISM || m->GetElementBaseGeometry(e) == Geometry::PYRAMID) { return false; } return true; }
inline bool uniform_shape(Mesh &m) { for (int e = 0; e < m.GetNE(); e++) if (m.GetElementBaseGeometry(e) != m.GetElementBaseGeometry(0) || m.GetElementBaseGeometry(e) == Geometry::PRISM || m.GetElementBaseGeometry(e) == Geometry::PYRAMID) { return false; } return true; }

struct SysOpt { std::vector<int> pdes; int maxdofs = 700; int comp = -1; bool affine = false; int maxorder = 2; bool dim3 = true; int nt = 3; bool parametric = false; };
// Uniform outflow from the centre of the boundaries that carry data, of the size that makes the net flux through all of them zero.
inline bool complement(Sys &s)
{
   Mesh &G = *s.G; int dim = s.dim; Vector x0(dim); double area = 0, fl = 0, dl = 0, sc = 0; x0 = 0.;
   for (int pass = 0; pass < 2; pass++)
   {
      for (int i = 0; i < G.GetNBE(); i++)
      {
         const BC *b = NULL; for (auto &q : s.bc) if (q.attr == G.GetBdrAttribute(i)) { b = &q; } if (!b || b->kind == 3) { continue; }
         FaceElementTransformations *T = G.GetBdrFaceTransformations(i); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 8); Vector x(dim), n(dim);
         for (int k = 0; k < ir.GetNPoints(); k++)
         {
            const IntegrationPoint &ip = ir.IntPoint(k); T->SetAllIntPoints(&ip); T->Transform(ip, x); CalcOrtho(T->Jacobian(), n); double w = ip.weight * n.Norml2();
            if (!pass) { area += w; x0.Add(w, x); continue; } for (int d = 0; d < dim; d++) { double a = ip.weight * n(d); fl += a * b->f(x, d); dl += a * (x(d) - x0(d)); sc += std::fabs(a * (x(d) - x0(d))); } }
      }
      if (!pass) { x0 /= area; }
   }
   if (std::fabs(dl) < 0.05 * sc) { return false; }
   s.delu = fl / dl; s.x0 = x0; for (auto &b : s.bc) { b.f.cor = s.delu; for (int d = 0; d < dim; d++) { b.f.cx[d] = x0(d); } } return true;
}
inline Sys make_sys(Ctx &c, Rng &r, const SysOpt &o)
{
   for (int attempt = 0;; attempt++)
   {
      Sys s; s.pde = o.pdes[r.i(0, o.pdes.size() - 1)]; s.dim = o.dim3 && r.b(0.25) ? 3 : 2; s.comp = o.comp < 0 ? r.b(0.45) : o.comp; s.order = r.i(1, s.dim == 3 || s.saddle() ? std::min(2, o.maxorder) : o.maxorder); if (s.dim == 3 && s.saddle()) { s.order = 1; }
      s.full_dg = s.pde == ADVDIFF ? false : r.b(0.6); std::string shape; bool affine;
      if (s.comp)
      {
         s.S = comp_system(c, r, s.dim, !o.affine, 2, 2); s.S.tight = o.parametric; if (o.affine) for (auto &q : s.S.comps) { (void)q; }
         s.G = glue(s.S); shape = s.S.shape(); affine = false; s.mesh_yaml = write_system(c, r, s.S, fmt("%d", attempt), r.i(0, 1), false); if (s.ns() && !uniform_shape(s.S)) { continue; }
      }
      else
      {
         SubSpec p; p.dim = s.dim; auto m = parent_mesh(r, p, 3, 2); affine = p.affine; shape = p.shape(); std::string f = c.path(fmt("parent%d.mesh", attempt)); { std::ofstream q(f); q.precision(17); m->Print(q); }
         s.G.reset(new Mesh(f.c_str())); s.mesh_yaml = fmt("mesh:\n  filename: %s\n  uniform_refinement: 0\n", f.c_str()); if (s.ns() && !uniform_shape(*s.G)) { continue; } shape += fmt("|%s%d", p.part.c_str(), std::min(p.numSub, 3));
      }
      { DG_FECollection fu(s.uorder(), s.dim), fp(s.order, s.dim); FiniteElementSpace U(s.G.get(), &fu, s.scalar() ? 1 : s.dim), P(s.G.get(), &fp); if (U.GetVSize() + (s.saddle() ? P.GetVSize() : 0) > o.maxdofs) { continue; } }
      s.sigma = r.pick<double>({-1, -1, r.u(-1, 1), 0, 1}); s.defpen = r.b(0.4); s.kappa = r.u(2, 12) * (s.uorder() + 1) * (s.uorder() + 1); if (s.defpen) { s.sigma = -1; }
      s.nu = r.u(0.3, 3); s.zeta = r.u(0.2, 1.5); s.Pe = r.u(0.1, 4); s.dt = r.u(0.02, 0.5); s.nt = r.i(1, o.nt); s.lf = s.pde == UNSTEADYNS || r.b(); s.viaprob = r.b(0.5) || o.parametric; s.rhs = r.b(0.75);
      s.direct = s.ns() || r.b(0.7); s.amg = !s.direct && r.b(); if (!s.direct && !s.saddle()) { s.sigma = -1; if (s.pde == POISSON || s.pde == LINELAST) { s.kappa = std::max(s.kappa, 20.0 * (s.uorder() + 1)); } } if (s.saddle() && !s.direct) { s.sigma = -1; }
      double amp = s.ns() ? 0.3 : 1; s.f = Field(r, s.dim, amp); s.ic = Field(r, s.dim, 0.3); s.pic = Field(r, s.dim, 0.3); s.flow = Field(r, s.dim, 1); s.lam = r.u(0.3, 2); s.mu = r.u(0.3, 2); if (!s.viaprob) { s.lam = s.mu = 1; }
      // boundary conditions, one per attribute
      Array<int> at(s.G->bdr_attributes); int na = at.Size(); s.alldir = s.pde == STOKES && affine && s.dim == 2 && r.b(0.3) && !o.parametric; if (s.alldir) { s.direct = false; s.sigma = -1; s.fluxed = s.viaprob && na > 1 && r.b(0.8); if (s.viaprob) { s.full_dg = false; } } Field common(r, s.dim, amp, true); int nd = 0, nn = 0;
      for (int k = 0; k < na; k++)
      {
         BC b; b.attr = at[k]; b.f = Field(r, s.dim, amp); int q = r.i(0, 9); b.kind = q < 6 ? 0 : q < 8 ? 1 : s.viaprob ? 3 : 2; if (s.alldir) { b.kind = 0; b.f = common; if (s.fluxed) { b.f = Field(r, s.dim, 1); b.f.lin = true; b.kind = k > 0 && r.b(0.3) ? 3 : 0; } }
         if (b.kind == 2 && s.ns() && s.lf) { b.kind = 1; } if (b.kind == 3 && s.pde == LINELAST) { b.kind = 2; } s.bc.push_back(b); }
      for (auto &b : s.bc) { nd += b.kind == 0 || b.kind == 3; nn += b.kind == 1 || b.kind == 2; }
      if (!nd) { s.bc[r.i(0, na - 1)].kind = 0; nd++; nn--; } if (s.saddle() && !s.alldir && !nn) { if (na == 1) { continue; } int z = r.i(0, na - 1); s.bc[z].kind = 1; nn++; nd--; if (!nd) { continue; } }
      if (s.viaprob && s.pde != LINELAST) for (auto &b : s.bc) if (b.kind == 2) { b.kind = 1; }
      for (int k = (int)s.bc.size() - 1; k > 0; k--) { std::swap(s.bc[k], s.bc[r.i(0, k)]); } // listed in any order
      s.everywhere = s.viaprob && s.scalar() && r.b(0.2); if (s.everywhere) for (auto &b : s.bc) { b = {b.attr, s.bc[0].kind == 3 ? 3 : 0, s.bc[0].f}; }
      if (s.fluxed && !complement(s)) { continue; }
      if (o.parametric) { auto add = [&](Field &f) { f.more = std::make_shared<Field>(r, s.dim, f.amp); }; add(s.f); add(s.ic); add(s.pic); for (auto &b : s.bc) { add(b.f); } if (s.everywhere) for (auto &b : s.bc) { b.f = s.bc[0].f; } if (!s.direct) { s.direct = true; } }
      s.sig = fmt("%s|%s|dim%d|order%d|%s|%s|%s%s%s", pde_name(s.pde), s.comp ? "comp" : "sub", s.dim, s.order, s.full_dg ? "dg" : "h1", shape.c_str(), s.direct ? "direct" : s.amg ? "amg" : "krylov", s.alldir ? s.fluxed ? "|balanced" : "|closed" : "", s.ns() ? s.lf ? "|lf" : "|base" : "");
      return s;
   }
}
inline std::string sys_config(const Sys &s, const std::string &extra_main = "", const std::string &extra = "")
{
   std::string y = fmt("main:\n  solver: %s\n%s", pde_name(s.pde), extra_main.c_str()) + s.mesh_yaml;
   y += fmt("discretization:\n  order: %d\n  full-discrete-galerkin: %s\n", s.order, s.full_dg ? "true" : "false"); if (!s.defpen) { y += fmt("  interface: {%s: %.17g, kappa: %.17g}\n", s.pde == LINELAST ? "alpha" : "sigma", s.sigma, s.kappa); }
   y += fmt("solver:\n  direct_solve: %s\n  use_amg: %s\n  max_iter: %d\n  relative_tolerance: 1.e-11\n  absolute_tolerance: 1.e-13\n  print_level: -1\n", s.direct ? "true" : "false", s.amg ? "true" : "false", s.ns() ? 40 : 40000);
   y += fmt("stokes: {nu: %.17g}\nnavier-stokes: {zeta: %.17g, operator-type: %s}\nadv-diff: {peclet_number: %.17g}\ntime-integration: {number_of_timesteps: %d, timestep_size: %.17g}\nparameterized_problem: {name: custom}\n", s.nu, s.zeta, s.lf ? "lf" : "base", s.Pe, s.nt, s.dt);
   return y + extra;
}
// Everything of a case that lives as long as its solver.
struct Run { std::unique_ptr<MultiBlockSolver> sv; std::unique_ptr<Prob> prob; Array<int> gattr; Array<FiniteElementSpace *> fes; bool ok = false; };
template <class T> inline T *new_solver(Run &R) { Open<T> *p = new Open<T>; R.sv.reset(p); p->InitVariables(); R.gattr = p->gattr(); R.fes = p->spaces(); return p; }
template <class T> inline void put_bc(const Sys &s, T *p, Run &R)
{
   for (auto &b : s.bc)
   {
      int k = R.gattr.Find(b.attr); if (k < 0) { continue; } bool el = s.pde == LINELAST;
      if (b.kind == 1) { p->SetBdrType(BoundaryType::NEUMANN, k); } else if (b.kind != 2) { p->SetBdrType(BoundaryType::DIRICHLET, k); }
      if (b.kind == 0 || (b.kind == 1 && el)) { if constexpr (std::is_base_of<PoissonSolver, T>::value) { p->AddBCFunction(b.f.scalar(), b.attr); } else { p->AddBCFunction(b.f.vec(), b.attr); } } }
   if (s.rhs) { if constexpr (std::is_base_of<PoissonSolver, T>::value) { p->AddRHSFunction(s.f.scalar()); } else { p->AddRHSFunction(s.f.vec()); } }
}
inline void fill_problem(const Sys &s, Prob *p, int base = 0)
{ // base: first slot of a second problem
   int n = s.everywhere ? 1 : s.bc.size(); g_flux = s.fluxed; p->battr.SetSize(n); p->bdr_type.SetSize(n); p->scalar_bdr_ptr.SetSize(n); p->vector_bdr_ptr.SetSize(n); p->scalar_bdr_ptr = NULL; p->vector_bdr_ptr = NULL; if (n > (base ? NSLOT - 4 - base : NSLOT - 4)) { abort(); } const int rs = base ? NSLOT - 4 : NSLOT - 1;
   for (int k = 0; k < n; k++)
   {
      const BC &b = s.bc[k]; p->battr[k] = s.everywhere ? -1 : b.attr; p->bdr_type[k] = b.kind == 0 ? BoundaryType::DIRICHLET : b.kind == 1 ? BoundaryType::NEUMANN : b.kind == 3 ? BoundaryType::ZERO : BoundaryType::NUM_BDR_TYPE;
      g_slot[base + k] = b.f; g_slot[base + k].cor = 0; if (b.kind == 0 || (b.kind == 1 && s.pde == LINELAST)) { p->scalar_bdr_ptr[k] = p->ss[base + k]; p->vector_bdr_ptr[k] = p->vv[base + k]; }
   }
   g_slot[rs] = s.f; g_slot[NSLOT - 2] = s.ic; g_slot[NSLOT - 3] = s.pic; g_mat[0] = s.lam; g_mat[1] = s.mu; if (s.rhs) { p->scalar_rhs_ptr = p->ss[rs]; p->vector_rhs_ptr = p->vv[rs]; }
   p->general_scalar_ptr.SetSize(2); p->general_scalar_ptr[0] = slot_m<0>; p->general_scalar_ptr[1] = slot_m<1>; p->general_vector_ptr.SetSize(1); p->general_vector_ptr = NULL;
   if (s.pde == UNSTEADYNS) { p->ic_ptr.SetSize(2); p->ic_ptr[0] = p->vv[NSLOT - 2]; p->ic_ptr[1] = p->vv[NSLOT - 3]; }
   function_factory::flow_problem::nu = s.nu; function_factory::advdiff_problem::analytic_flow = !s.stokesflow;
}
inline void put_problem(const Sys &s, Run &R) { R.prob.reset(new Prob); fill_problem(s, R.prob.get()); R.sv->SetParameterizedProblem(R.prob.get()); }
// A solver for the current configuration, assembled and ready to solve.
inline void prepare(const Sys &s, Run &R, bool assemble = true)
{
   switch (s.pde)
   {
      case POISSON: { auto *p = new_solver<PoissonSolver>(R); if (!s.viaprob) { put_bc(s, p, R); } } break;
      case ADVDIFF: { auto *p = new_solver<AdvDiffSolver>(R); p->SetFlowAtSubdomain(s.flow.vec()); if (!s.viaprob) { put_bc(s, p, R); } } break;
      case LINELAST: { auto *p = new_solver<LinElastSolver>(R); if (!s.viaprob) { put_bc(s, p, R); } } break;
      case STOKES: { auto *p = new_solver<StokesSolver>(R); if (!s.viaprob) { put_bc(s, p, R); } } break;
      case STEADYNS: { auto *p = new_solver<SteadyNSSolver>(R); if (!s.viaprob) { put_bc(s, p, R); } } break;
      case UNSTEADYNS: { auto *p = new_solver<UnsteadyNSSolver>(R); if (!s.viaprob) { put_bc(s, p, R); } } break;
   }
   if (s.viaprob) { put_problem(s, R); }
   if (assemble) { R.sv->BuildOperators(); R.sv->SetupBCOperators(); R.sv->Assemble(); }
}

// ---------------------------------------------------------------- the undecomposed discretisation
struct Ref
{
   std::unique_ptr<FiniteElementCollection> fu, fp; std::unique_ptr<FiniteElementSpace> U, P; std::vector<std::unique_ptr<Array<int>>> mk; std::vector<std::unique_ptr<Coefficient>> cf; std::vector<std::unique_ptr<VectorCoefficient>> vc;
   std::unique_ptr<BilinearForm> a, mass; std::unique_ptr<MixedBilinearFormDGExtension> b; std::unique_ptr<LinearForm> f, g; std::unique_ptr<NonlinearForm> h; Coefficient *keep(Coefficient *p) { cf.emplace_back(p); return p; } VectorCoefficient *keep(VectorCoefficient *p) { vc.emplace_back(p); return p; }
};
inline void make_ref(const Sys &s, Ref &R)
{
   Mesh &G = *s.G; int dim = s.dim; double kp = s.pen(); R.fu.reset(new DG_FECollection(s.uorder(), dim, BasisType::GaussLobatto)); R.U.reset(new FiniteElementSpace(&G, R.fu.get(), s.scalar() ? 1 : dim)); if (s.saddle()) { R.fp.reset(new DG_FECollection(s.order, dim, BasisType::GaussLobatto)); R.P.reset(new FiniteElementSpace(&G, R.fp.get())); }
   R.a.reset(new BilinearForm(R.U.get())); R.f.reset(new LinearForm(R.U.get())); if (s.saddle()) { R.b.reset(new MixedBilinearFormDGExtension(R.U.get(), R.P.get())); R.g.reset(new LinearForm(R.P.get())); }
   Coefficient &nu = *R.keep(new ConstantCoefficient(s.nu)), &lam = *R.keep(new ConstantCoefficient(s.lam)), &mu = *R.keep(new ConstantCoefficient(s.mu)), &mz = *R.keep(new ConstantCoefficient(-s.zeta)), &z = *R.keep(new ConstantCoefficient(s.zeta)), &m1 = *R.keep(new ConstantCoefficient(-1)); auto vfc = [&](const Field &f) -> VectorCoefficient & { return *R.keep(new VectorFunctionCoefficient(dim, f.vec())); }; auto sfc = [&](const Field &f) -> Coefficient & { return *R.keep(new FunctionCoefficient(f.scalar())); };
   if (s.rhs) { if (s.scalar()) { R.f->AddDomainIntegrator(new DomainLFIntegrator(sfc(s.f))); } else { R.f->AddDomainIntegrator(new VectorDomainLFIntegrator(vfc(s.f))); } }
   if (s.scalar()) { R.a->AddDomainIntegrator(new DiffusionIntegrator); R.a->AddInteriorFaceIntegrator(new DGDiffusionIntegrator(s.sigma, kp)); if (s.pde == ADVDIFF) { R.a->AddDomainIntegrator(new ConvectionIntegrator(s.flowc ? *s.flowc : vfc(s.flow), s.Pe)); } }
   else if (s.pde == LINELAST) { R.a->AddDomainIntegrator(new ElasticityIntegrator(lam, mu)); R.a->AddInteriorFaceIntegrator(new DGElasticityIntegrator(lam, mu, s.sigma, kp)); }
   else { R.a->AddDomainIntegrator(new VectorDiffusionIntegrator(nu)); R.a->AddInteriorFaceIntegrator(new DGVectorDiffusionIntegrator(nu, s.sigma, kp)); R.b->AddDomainIntegrator(new VectorDivergenceIntegrator(m1)); R.b->AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); }
   const IntegrationRule *inl = NULL, *ifc = NULL;
   if (s.ns())
   {
      int o = (int)std::ceil(1.5 * (2 * s.uorder() - 1)); inl = &IntRules.Get(G.GetElementBaseGeometry(0), o); ifc = &IntRules.Get(G.GetBdrElementBaseGeometry(0), o); R.h.reset(new NonlinearForm(R.U.get()));
      if (!s.lf) { auto *q = new VectorConvectionTrilinearFormIntegrator(z); q->SetIntRule(inl); R.h->AddDomainIntegrator(q); } else { auto *q = new IncompressibleInviscidFluxNLFIntegrator(mz); q->SetIntRule(inl); R.h->AddDomainIntegrator(q); auto *w = new DGLaxFriedrichsFluxIntegrator(mz); w->SetIntRule(ifc); R.h->AddInteriorFaceIntegrator(w); }
   }
   for (auto &b : s.bc)
   {
      R.mk.emplace_back(new Array<int>(G.bdr_attributes.Max())); Array<int> &m = *R.mk.back(); m = 0; m[b.attr - 1] = 1; bool given = b.kind == 0 || b.kind == 3; Field z0 = b.f; if (b.kind == 3) { z0.amp = z0.cor = 0; z0.more.reset(); }
      if (given && s.scalar()) { R.a->AddBdrFaceIntegrator(new DGDiffusionIntegrator(s.sigma, kp), m); R.f->AddBdrFaceIntegrator(new DGDirichletLFIntegrator(sfc(z0), s.sigma, kp), m); }
      if (s.pde == LINELAST) { if (given) { R.a->AddBdrFaceIntegrator(new DGElasticityIntegrator(lam, mu, s.sigma, kp), m); R.f->AddBdrFaceIntegrator(new DGElasticityDirichletLFIntegrator(vfc(z0), lam, mu, s.sigma, kp), m); } else if (b.kind == 1) { R.f->AddBdrFaceIntegrator(new VectorBoundaryLFIntegrator(vfc(b.f)), m); } }
      if (s.saddle() && given) { R.a->AddBdrFaceIntegrator(new DGVectorDiffusionIntegrator(nu, s.sigma, kp), m); R.b->AddBdrFaceIntegrator(new DGNormalFluxIntegrator, m); R.f->AddBdrFaceIntegrator(new DGVectorDirichletLFIntegrator(vfc(z0), nu, s.sigma, kp), m); R.g->AddBdrFaceIntegrator(new DGBoundaryNormalLFIntegrator(vfc(z0)), m); }
      if (s.ns() && s.lf) { auto *w = given ? new DGLaxFriedrichsFluxIntegrator(mz, &vfc(z0)) : new DGLaxFriedrichsFluxIntegrator(mz); w->SetIntRule(ifc); R.h->AddBdrFaceIntegrator(w, m); }
   }
   R.a->Assemble(); R.a->Finalize(); R.f->Assemble(); if (s.saddle()) { R.b->Assemble(); R.b->Finalize(); R.g->Assemble(); }
   if (s.pde == UNSTEADYNS) { R.mass.reset(new BilinearForm(R.U.get())); R.mass->AddDomainIntegrator(new VectorMassIntegrator); R.mass->Assemble(); R.mass->Finalize(); }
}
struct Where { int m, e; };
// For every element of the whole mesh the block mesh and element that represent it.
inline bool locate(Mesh &G, const std::vector<Mesh *> &ms, std::vector<Where> &w)
{
   int dim = G.Dimension(); std::vector<Vector> cs; std::vector<Where> id; for (size_t m = 0; m < ms.size(); m++) for (int e = 0; e < ms[m]->GetNE(); e++) { Vector x(dim); ms[m]->GetElementTransformation(e)->Transform(Geometries.GetCenter(ms[m]->GetElementBaseGeometry(e)), x); cs.push_back(x); id.push_back({(int)m, e}); }
   w.assign(G.GetNE(), {-1, -1}); std::vector<char> used(cs.size(), 0);
   for (int e = 0; e < G.GetNE(); e++) { Vector x(dim); G.GetElementTransformation(e)->Transform(Geometries.GetCenter(G.GetElementBaseGeometry(e)), x); for (size_t k = 0; k < cs.size(); k++) { if (used[k]) { continue; } Vector d(cs[k]); d -= x; if (d.Normlinf() < 1e-8) { w[e] = id[k]; used[k] = 1; break; } } if (w[e].m < 0) { return false; } }
   return (int)cs.size() == G.GetNE();
}
// The block functions of one variable, as functions of the discontinuous space on the whole mesh: columns numbered block by block.
inline SparseMatrix prolong(FiniteElementSpace &R, const std::vector<FiniteElementSpace *> &D, const std::vector<Where> &w, std::vector<int> &off)
{
   int vd = R.GetVDim(), dim = R.GetMesh()->Dimension(); off.assign(D.size() + 1, 0); for (size_t m = 0; m < D.size(); m++) { off[m + 1] = off[m] + D[m]->GetVSize(); } SparseMatrix Q(R.GetVSize(), off.back());
   for (int e = 0; e < R.GetNE(); e++)
   {
      const FiniteElement *fe = R.GetFE(e); FiniteElementSpace &F = *D[w[e].m]; const FiniteElement *fs = F.GetFE(w[e].e); Array<int> rv, sv; R.GetElementDofs(e, rv); F.GetElementDofs(w[e].e, sv); IsoparametricTransformation TG, TS; R.GetMesh()->GetElementTransformation(e, &TG); F.GetMesh()->GetElementTransformation(w[e].e, &TS); Vector sh(fs->GetDof()), x(dim);
      for (int i = 0; i < fe->GetDof(); i++)
      {
         TG.Transform(fe->GetNodes().IntPoint(i), x); InverseElementTransformation inv(&TS); inv.SetPhysicalRelTol(1e-14); inv.SetReferenceTol(1e-14); inv.SetMaxIter(40); IntegrationPoint ip; inv.Transform(x, ip); fs->CalcShape(ip, sh);
         for (int d = 0; d < vd; d++) for (int j = 0; j < sh.Size(); j++) { int a = sv[j] < 0 ? -1 - sv[j] : sv[j]; double sg = sv[j] < 0 ? -1 : 1; if (std::fabs(sh(j)) > 1e-15) { Q.Add(R.DofToVDof(rv[i], d), off[w[e].m] + F.DofToVDof(a, d), sg * sh(j)); } }
      }
   }
   Q.Finalize(); return Q;
}
inline Vector gather(MultiBlockSolver &sv, int var, int nvar, const std::vector<int> &off)
{
   Vector x(off.back()); for (int m = 0; m < sv.GetNumSubdomains(); m++) { const GridFunction &g = *sv.GetGridFunction(m * nvar + var); for (int k = 0; k < g.Size(); k++) { x(off[m] + k) = g(k); } } return x;
}
inline void abs_mult(const SparseMatrix &A, const Vector &x, Vector &y) { const int *I = A.GetI(), *J = A.GetJ(); const double *D = A.GetData(); for (int i = 0; i < A.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) { y(i) += std::fabs(D[k] * x(J[k])); } }
inline void abs_multT(const SparseMatrix &A, const Vector &x, Vector &y) { const int *I = A.GetI(), *J = A.GetJ(); const double *D = A.GetData(); for (int i = 0; i < A.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) { y(J[k]) += std::fabs(D[k] * x(i)); } }
// Residual of the undecomposed equations, tested with the block functions.
struct Residual { std::vector<int> ou, op; std::unique_ptr<SparseMatrix> Qu, Qp; bool ok = false; };
inline bool make_residual(const Sys &s, Ref &R, MultiBlockSolver &sv, Residual &q)
{
   std::vector<Mesh *> ms; std::vector<FiniteElementSpace *> Du, Dp; int nv = s.nvar(); for (int m = 0; m < sv.GetNumSubdomains(); m++) { ms.push_back(sv.GetMesh(m)); Du.push_back(sv.GetGridFunction(m * nv)->FESpace()); if (nv > 1) { Dp.push_back(sv.GetGridFunction(m * nv + 1)->FESpace()); } }
   std::vector<Where> w; if (!locate(*s.G, ms, w)) { return false; } q.Qu.reset(new SparseMatrix(prolong(*R.U, Du, w, q.ou))); if (nv > 1) { q.Qp.reset(new SparseMatrix(prolong(*R.P, Dp, w, q.op))); } return q.ok = true;
}
struct Tested { Vector u, ua, p, pa; };   // the residual tested with every block function, and the sizes of the terms it sums
inline Tested tested_residual(const Sys &s, Ref &R, Residual &q, const Vector &u, const Vector &p, const Vector *u0)
{
   Tested t; Vector x(R.U->GetVSize()), r(x.Size()), ab(x.Size()); q.Qu->Mult(u, x); ab = 0.; R.a->SpMat().Mult(x, r); r -= *R.f; abs_mult(R.a->SpMat(), x, ab); for (int k = 0; k < ab.Size(); k++) { ab(k) += std::fabs(R.f->Elem(k)); } Vector y;
   if (s.saddle())
   {
      y.SetSize(R.P->GetVSize()); q.Qp->Mult(p, y); R.b->SpMat().AddMultTranspose(y, r); abs_multT(R.b->SpMat(), y, ab);
      Vector rp(y.Size()), abp(y.Size()); abp = 0.; R.b->SpMat().Mult(x, rp); rp -= *R.g; abs_mult(R.b->SpMat(), x, abp); for (int k = 0; k < abp.Size(); k++) { abp(k) += std::fabs(R.g->Elem(k)); }
      t.p.SetSize(q.op.back()); t.pa.SetSize(q.op.back()); q.Qp->MultTranspose(rp, t.p); t.pa = 0.; abs_multT(*q.Qp, abp, t.pa);
   }
   if (s.ns())
   {
      Vector hx(x.Size()); if (s.pde == UNSTEADYNS) { Vector x0(x.Size()); q.Qu->Mult(*u0, x0); R.h->Mult(x0, hx); Vector d(x); d -= x0; d /= s.dt; R.mass->SpMat().AddMult(d, r); for (int k = 0; k < d.Size(); k++) { d(k) = (std::fabs(x(k)) + std::fabs(x0(k))) / s.dt; } abs_mult(R.mass->SpMat(), d, ab); } else { R.h->Mult(x, hx); }
      r += hx; for (int k = 0; k < hx.Size(); k++) { ab(k) += std::fabs(hx(k)); }
   }
   t.u.SetSize(q.ou.back()); t.ua.SetSize(q.ou.back()); q.Qu->MultTranspose(r, t.u); t.ua = 0.; abs_multT(*q.Qu, ab, t.ua); return t;
}
inline void judge_residual(Ctx &c, const Sys &s, Ref &R, Residual &q, const Vector &u, const Vector &p, const Vector *u0, double tol, const std::string &tag)
{
   Tested t = tested_residual(s, R, q, u, p, u0); const double least = s.direct && !s.ns() ? 1e-12 : 1e-4; // iterations end at an absolute tolerance of 1e-13
   if (s.saddle()) { double sc = std::max(t.pa.Normlinf(), least); c.close(t.p.Normlinf() / sc, 0, 1, tol, tag + "-mass", s.sig); }
   double sc = std::max(t.ua.Normlinf(), least); c.close(t.u.Normlinf() / sc, 0, 1, tol, tag, s.sig);
}
// Advection by a flow that the Stokes solver computes for a second problem on the same blocks; the undecomposed equations get it as a grid function of the whole mesh.
struct Flow { Sys f; std::unique_ptr<Prob> fp; Ref fr; Residual fq; Run F; std::unique_ptr<GridFunction> g; std::unique_ptr<VectorGridFunctionCoefficient> c; ~Flow() { function_factory::advdiff_problem::flow_problem = NULL; } };
inline bool can_flow(const Sys &s) { return s.pde == ADVDIFF && s.viaprob && s.bc.size() > 1 && s.bc.size() < 20 && s.dim == 2; }
template <class E> inline bool make_flow(Ctx &c, Sys &s, Flow &w, E edit)
{ // the configuration of the problem itself is loaded
   Rng &r = c.rng; Sys &f = w.f; f.pde = STOKES; f.dim = s.dim; f.order = s.order; f.comp = s.comp; f.full_dg = s.full_dg; f.viaprob = f.direct = true; f.sigma = s.sigma; f.kappa = s.kappa; f.defpen = s.defpen; f.nu = s.nu; f.rhs = r.b(); f.f = Field(r, s.dim, 1); size_t nat = r.i(0, s.bc.size() - 1); for (size_t k = 0; k < s.bc.size(); k++) { BC b; b.attr = s.bc[k].attr; b.f = Field(r, s.dim, 1); b.kind = k == nat ? 1 : k == (nat + 1) % s.bc.size() ? 0 : r.pick<int>({0, 0, 1, 3}); f.bc.push_back(b); }
   f.G = std::move(s.G); prepare(f, w.F); bool ok = w.F.sv->Solve(); edit(*w.F.sv); make_ref(f, w.fr); bool cover = make_residual(f, w.fr, *w.F.sv, w.fq); s.G = std::move(f.G); if (!ok || !c.check(cover, "blocks-cover-the-mesh", s.sig)) { return false; }
   Vector u = gather(*w.F.sv, 0, 2, w.fq.ou); w.g.reset(new GridFunction(w.fr.U.get())); w.fq.Qu->Mult(u, *w.g); w.c.reset(new VectorGridFunctionCoefficient(w.g.get())); s.flowc = w.c.get(); s.stokesflow = true; w.fp.reset(new Prob); fill_problem(f, w.fp.get(), 24); function_factory::advdiff_problem::flow_problem = w.fp.get(); return true;
}
} // namespace vf
// As in later MFEM: a grid function on another object of the same mesh is evaluated element by element (4.5.2 takes it for a refinement and stops).
void mfem::VectorGridFunctionCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) { GridFunc->GetVectorValue(T, ip, V); }
#endif
