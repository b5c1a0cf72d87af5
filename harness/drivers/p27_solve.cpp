// Decomposed full-order solve: the solution satisfies the equations assembled on the undecomposed mesh.
#include "solve_gen.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; SysOpt o; o.pdes = {POISSON, LINELAST, STOKES, STEADYNS, UNSTEADYNS, ADVDIFF}; o.pdes = {o.pdes[c.kase % 6]}; o.maxorder = 3; o.maxdofs = c.tier == "thorough" ? 900 : 420; Sys s = make_sys(c, r, o);
   std::string y = sys_config(s); if (s.pde == STEADYNS && r.b(0.4)) { DG_FECollection fu(s.uorder(), s.dim), fp(s.order, s.dim); FiniteElementSpace U(s.G.get(), &fu, s.dim), P(s.G.get(), &fp); if (U.GetVSize() + P.GetVSize() <= 260) { s.direct = false; s.sig += "|gmres"; y = sys_config(s); y.insert(y.find("solver:\n", y.find("discretization:")) + 8, "  jacobian: {max_iter: 4000, relative_tolerance: 1.e-9, absolute_tolerance: 1.e-14}\n"); c.event("iterative Newton steps"); } }
   // a flow computed by the Stokes solver, kept in a file or read from one
   Flow w; std::string ff = c.path(fmt("flow%d.h5", c.kase)); Vector fU; int how = -1;
   if (can_flow(s) && s.direct && r.b(0.5))
   {
      how = r.i(0, 4); if (how) { size_t k = y.find("adv-diff: {peclet_number"); y.erase(k, y.find('\n', k) + 1 - k); y += fmt("adv-diff: {peclet_number: %.17g, save_flow: %s, load_flow: %s, flow_file: %s}\n", s.Pe, how == 1 || how == 3 ? "true" : "false", how > 1 ? "true" : "false", ff.c_str()); } load_config(c.path("f.yml"), y);
      bool ok = make_flow(c, s, w, [&](MultiBlockSolver &F) { if (how == 4 || (how == 3 && r.b())) { how = 4; r.fill(*F.GetSolution(), -1, 1); F.SetSolutionSaveMode(true); F.SaveSolution(ff); } fU = *F.GetSolution(); }); if (!ok) { return; } s.sig += fmt("|flow%d", how); c.event("flows from the Stokes solver");
   }
   load_config(c.path("s.yml"), y); Run R; prepare(s, R); function_factory::advdiff_problem::flow_problem = NULL;
   if (how == 1 || how == 3) { Vector x; hid_t h = H5Fopen(ff.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (c.check(h >= 0, "flow-file-written", s.sig)) { hid_t d = H5Dopen(h, "solution", H5P_DEFAULT), sp = H5Dget_space(d); x.SetSize(H5Sget_simple_extent_npoints(sp)); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.GetData()); H5Sclose(sp); H5Dclose(d); H5Fclose(h); if (c.check(x.Size() == fU.Size(), "flow-file-size", s.sig)) { double sc = std::max(fU.Normlinf(), 1e-10); x -= fU; c.close(x.Normlinf() / sc, 0, 1, 1e-8, "flow-file", s.sig); } } } else if (how >= 0) { if (how != 4) { c.check(access(ff.c_str(), F_OK) != 0, "flow-file-only-when-asked", s.sig); } }
   { std::set<int> a, b; for (int k : s.G->bdr_attributes) { a.insert(k); } for (int k : R.gattr) { b.insert(k); } c.check(a == b, "global-boundary-attributes", s.sig); }
   if (s.fluxed)
   {
      bool ok = function_factory::flow_problem::x0.Size() == s.dim; double e = std::fabs(function_factory::flow_problem::del_u - s.delu); for (int d = 0; ok && d < s.dim; d++) { e = std::max(e, std::fabs(function_factory::flow_problem::x0(d) - s.x0(d))); } c.check(ok && e < 1e-8 * (1 + std::fabs(s.delu)), "flux-balance", fmt("outflow %g expected %g", function_factory::flow_problem::del_u, s.delu)); c.event("flux balances"); }
   bool conv = R.sv->Solve(); c.event(fmt("%s solves", pde_name(s.pde))); if (!conv) { c.event("not converged"); c.check(!s.direct || s.ns(), "direct-solve-reports-success", s.sig); return; }
   Ref ref; make_ref(s, ref); Residual q; if (!c.check(make_residual(s, ref, *R.sv, q), "blocks-cover-the-mesh", s.sig)) { return; } int nv = s.nvar();
   Vector u = gather(*R.sv, 0, nv, q.ou), p, u0; if (nv > 1) { p = gather(*R.sv, 1, nv, q.op); } double tol = s.pde == STEADYNS ? 1e-8 : s.direct ? 1e-9 : 1e-6;
   if (s.pde == UNSTEADYNS)
   { // the previous state comes from a run one step shorter (or from the initial condition)
      u0.SetSize(u.Size()); u0 = 0.;
      if (s.nt > 1) { config.dict_["time-integration"]["number_of_timesteps"] = s.nt - 1; Run R2; prepare(s, R2); R2.sv->Solve(); u0 = gather(*R2.sv, 0, nv, q.ou); }
      else if (s.viaprob) for (int m = 0; m < R.sv->GetNumSubdomains(); m++) { GridFunction g(R.sv->GetGridFunction(m * nv)->FESpace()); VectorFunctionCoefficient f(s.dim, s.ic.vec()); g.ProjectCoefficient(f); for (int k = 0; k < g.Size(); k++) { u0(q.ou[m] + k) = g(k); } }
   }
   judge_residual(c, s, ref, q, u, p, &u0, tol, std::string("residual-") + pde_name(s.pde)); c.event("unknowns", u.Size() + p.Size()); if (s.alldir) { c.close(R.sv->GetSolution()->Size() ? p.Sum() / p.Size() : 0, 0, std::max(1.0, p.Normlinf()), 1e-8, "pressure-level"); }
   { bool data = s.rhs; for (auto &b : s.bc) { data = data || b.kind == 0; } c.check(!data || u.Normlinf() > 1e-8, "solution-not-trivial", s.sig); } c.sig(s.sig); c.sample(s.sig + fmt(": %d unknowns on %d blocks, max %.3g", u.Size() + p.Size(), R.sv->GetNumSubdomains(), u.Normlinf()));
}
VF_MAIN(1200, 6000)
