// Reduced-order workflow for linear systems: the reduced solution is the Galerkin solution of the whole equations in the span of the basis.
#include "rom_gen.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
static Vector read_text_vector(const std::string &f) { std::ifstream in(f); std::vector<double> v; double a; while (in >> a) { v.push_back(a); } Vector x(v.size()); for (size_t k = 0; k < v.size(); k++) { x(k) = v[k]; } return x; }
static bool read_text_matrix(const std::string &f, DenseMatrix &A) { std::ifstream in(f); std::string l; while (in.peek() == '%' && std::getline(in, l)) {} long h, w, n; if (!(in >> h >> w >> n) || h < 1 || w < 1 || h > 5000 || w > 5000) { return false; } A.SetSize(h, w); A = 0.; for (long k = 0; k < n; k++) { long i, j; double a; if (!(in >> i >> j >> a) || i < 1 || j < 1 || i > h || j > w) { return false; } A(i - 1, j - 1) += a; } return true; }
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; SysOpt o; static const int pdes[] = {POISSON, LINELAST, STOKES}; const bool flow = c.kase % 8 == 7; o.pdes = {flow ? ADVDIFF : pdes[c.kase % 3]}; o.parametric = true; o.maxorder = 2; o.maxdofs = c.tier == "thorough" ? 700 : 320; o.comp = r.b(0.7); Sys s = make_sys(c, r, o); for (int k = 0; flow && !can_flow(s); k++) { if (k > 30) { return; } s = make_sys(c, r, o); } g_sys = &s; int nv = s.nvar();
   Rom q; q.dir = c.path(fmt("k%d", c.kase)); mkdir(q.dir.c_str(), 0700); q.sep = nv > 1 ? r.b(0.6) : r.b(0.3); q.byvar = q.sep && r.b(0.4); q.nx = r.i(1, 3); q.ny = q.nx == 1 ? r.i(2, 3) : r.i(1, 2); for (int k = 0; k < 2; k++) { q.lo[k] = r.u(-1.2, 0.8); q.hi[k] = q.lo[k] + r.u(0.4, 1.5); } auto par = [&](int k) { return r.u(-1.5, 1.5); };
   Flow w; if (flow) { load_config(c.path("f.yml"), q.config(s, 0, 0, false)); if (!make_flow(c, s, w, [](MultiBlockSolver &) {})) { return; } c.event("flows from the Stokes solver"); }
   bool romsample = r.b(0.5); double p0 = par(0), p1 = par(1); load_config(c.path("r.yml"), q.config(s, p0, p1, romsample)); GenerateSamples(MPI_COMM_WORLD); c.event("sampling runs", q.nx * q.ny);
   // what every block calls its basis; how many independent snapshots each has
   load_config(c.path("r.yml"), q.config(s, p0, p1)); Run R; prepare(s, R); std::vector<std::string> bt; std::vector<BasisTag> bts; R.sv->GetBasisTags(bts); for (auto &t : bts) { bt.push_back(t.print()); bool seen = false; for (auto &x : q.tags) { seen = seen || x.name == bt.back(); } if (!seen) { Tag x; x.name = bt.back(); x.comp = t.comp; x.var = t.var; q.tags.push_back(x); } }
   bool full = r.b(0.6), ok = true; int lo = 1000; for (auto &t : q.tags) { t.rank = snapshot_rank(q.samples() + "_" + t.name + "_snapshot", 1e-8); ok = ok && t.rank > 0; lo = std::min(lo, t.rank); } if (!ok) { c.event("zero snapshots"); return; }
   q.listed = full || r.b(0.7); q.nall = q.listed ? r.i(1, lo) : r.i(1, lo); for (auto &t : q.tags) { t.n = full ? t.rank : q.listed ? r.i(1, t.rank) : q.nall; }
   bool sup = q.sep && s.saddle(); if (sup) for (size_t a = 0; a < q.tags.size(); a++) for (size_t b = 0; b < q.tags.size(); b++) if (q.tags[a].comp == q.tags[b].comp && q.tags[a].var == "vel" && q.tags[b].var == "pres") { q.tags[a].sup = q.tags[b].n; if (q.listed && r.b(0.3)) { q.tags[a].sup = r.i(1, q.tags[b].n); } }
   std::vector<Tag> keep = q.tags; if (sup) { for (auto &t : q.tags) if (t.var == "pres") { for (auto &x : keep) if (x.comp == t.comp && x.var == "vel") { t.sup = x.sup; } } for (auto &t : q.tags) if (t.var == "vel") { t.sup = 0; } } // the number of supremizers is given under the pressure's name
   std::vector<Tag> asked = q.tags; load_config(c.path("r.yml"), q.config(s, p0, p1)); TrainROM(MPI_COMM_WORLD); c.event("trainings"); q.tags = keep; for (auto &t : q.tags) if (!c.check(load_basis(q, t), "basis-file", t.name)) { return; }
   Lift L = lift(q, *R.sv, nv, bt); if (!c.check(L.N == R.sv->GetSolution()->Size(), "basis-size", fmt("%d of %d", L.N, R.sv->GetSolution()->Size()))) { return; }
   bool turned = false; if (s.comp) for (auto &cf : s.S.conf) { turned = turned || cf[3] != 0; }
   for (auto &t : q.tags)
   { // orthonormal columns, the supremizers included
      double e = 0; for (int i = 0; i < t.basis.NumCols(); i++) for (int j = 0; j <= i; j++) { double d = 0; for (int k = 0; k < t.basis.NumRows(); k++) { d += t.basis(k, i) * t.basis(k, j); } e = std::max(e, std::fabs(d - (i == j))); } if (!(e < 1e-5) && t.sup && t.n + t.sup > t.basis.NumRows()) { c.event("more modes than unknowns"); return; } c.close(e, 0, 1, 1e-5, "basis-orthonormal", t.name); }
   Ref ref0; Residual res; { Ref t; g_par[0] = p0; g_par[1] = p1; make_ref(s, t); if (!c.check(make_residual(s, t, *R.sv, res), "blocks-cover-the-mesh", s.sig)) { return; } }
   if (sup) for (auto &t : q.tags) if (t.sup) for (size_t k = 0; k < L.tag.size(); k++) if (q.tags[L.tag[k]].name == t.name && !(s.comp && s.S.conf[k / nv][3] != 0))
            { // the gradient of every pressure mode of the component lies in the enriched velocity space
               int m = k / nv; FiniteElementSpace *fu = R.sv->GetGridFunction(m * nv)->FESpace(), *fp = R.sv->GetGridFunction(m * nv + 1)->FESpace(); ConstantCoefficient mone(-1.0); MixedBilinearFormDGExtension b(fu, fp); b.AddDomainIntegrator(new VectorDivergenceIntegrator(mone)); if (s.full_dg) { b.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); } b.Assemble(); b.Finalize();
               const DenseMatrix &P = q.tags[L.tag[k + 1]].basis; Vector g(fu->GetVSize()), y(t.basis.NumCols()), z(g.Size()); for (int j = 0; j < t.sup; j++) { Vector col(const_cast<double *>(P.GetData()) + (size_t)j * P.NumRows(), P.NumRows()); b.MultTranspose(col, g); t.basis.MultTranspose(g, y); t.basis.Mult(y, z); z -= g; c.close(z.Normlinf(), 0, std::max(g.Normlinf(), 1e-14), 1e-6, "supremizer", t.name); c.event("supremizers"); } break; }
   // the reduced matrix, from the equations on the whole mesh
   DenseMatrix K(L.r, L.r); { Ref t; make_ref(s, t); Vector e(L.r), u, p, ru, rp, x, y; for (int j = 0; j < L.r; j++) { e = 0.; e(j) = 1; x = lift_up(q, L, e); split_vars(*R.sv, nv, x, u, p); apply_linear(s, t, res, u, p, ru, rp); join_vars(*R.sv, nv, ru, rp, y); Vector kc = project(q, L, y); K.SetCol(j, kc); } }
   double kap = cond(K); DenseMatrixInverse inv(K); bool symm = s.sigma == -1 && !flow; c.event(kap < 1e9 ? "reduced systems" : "ill-conditioned reduced systems");
   std::vector<int> levels = {0, 1}; bool twins = false; if (s.comp) for (size_t a = 0; a < s.S.ref_info.size(); a++) for (size_t b = 0; b < a; b++) { twins = twins || s.S.ref_info[a] == s.S.ref_info[b]; } if (s.comp && !twins && !flow) { levels.push_back(2); levels.push_back(2); }
   for (int it = 0; it < 2; it++)
   {
      q.level = levels[r.i(0, levels.size() - 1)]; q.byvar = q.sep && r.b(0.4); bool spd = symm && !s.saddle() && s.kappa >= 8 * (s.uorder() + 1); int how = r.i(0, 2); q.prec = "none"; q.type = "us";
      if (how == 0 || !symm) { q.lin = "direct"; if (symm && r.b()) { q.type = s.saddle() ? "sid" : r.b() ? "spd" : "sid"; } } else if (spd && how == 1) { q.lin = "cg"; q.prec = r.pick<std::string>({"none", "gs", "block_gs", "block_jacobi", "amg"}); } else { q.lin = "minres"; if (spd) { q.prec = r.pick<std::string>({"none", "gs", "block_jacobi"}); } }
      bool cmp = r.b(0.6), fromfile = cmp && r.b(0.4); q.tags = asked; double b0 = par(0), b1 = par(1); if (q.level) { load_config(c.path("r.yml"), q.config(s, b0, b1)); BuildROM(MPI_COMM_WORLD); c.event("builds"); }
      for (int run = 0; run < 2; run++)
      {
         q.tags = asked; p0 = par(0); p1 = par(1); std::string what = s.sig + fmt(" | level %d %s%s, %s/%s/%s, %d of %d", q.level, q.sep ? "split" : "unified", q.byvar ? " by variable" : "", q.lin.c_str(), q.type.c_str(), q.prec.c_str(), L.r, L.N);
         Vector ufom; { load_config(c.path("r.yml"), q.config(s, p0, p1)); g_par[0] = p0; g_par[1] = p1; Run F; prepare(s, F); F.sv->Solve(); ufom = *F.sv->GetSolution(); if (fromfile) { F.sv->SaveSolution(q.dir + "/fom.h5"); } }
         q.more = cmp ? fmt("  compare_solution: {enabled: true%s}\n", fromfile ? fmt(", load_solution: true, fom_solution_file: %s/fom.h5", q.dir.c_str()).c_str() : "") : ""; const bool keepsys = r.b(0.5); if (keepsys) { q.more += fmt("  save_linear_system: {enabled: true, prefix: %s/sys}\n", q.dir.c_str()); unlink((q.dir + "/sys_mat.mm").c_str()); unlink((q.dir + "/sys_rhs.txt").c_str()); unlink((q.dir + "/sys_sol.txt").c_str()); } load_config(c.path("r.yml"), q.config(s, p0, p1)); unlink(q.solution().c_str()); std::string out = q.dir + "/out.h5"; g_par[0] = g_par[1] = 777; double worst = SingleRun(MPI_COMM_WORLD, out); q.more = ""; c.event("reduced runs"); g_par[0] = p0; g_par[1] = p1;
         Vector x = read_vector(q.solution(), "solution"); if (!c.check(x.Size() == L.N, "solution-saved", what)) { continue; }
         Ref t; make_ref(s, t); Vector fu, fp, F, u, p; linear_load(s, t, res, fu, fp); join_vars(*R.sv, nv, fu, fp, F); q.tags = keep; for (auto &a : q.tags) { load_basis(q, a); } Vector Fr = project(q, L, F), y(L.r); inv.Mult(Fr, y); Vector xr = lift_up(q, L, y), d(x); d -= xr; double sc = std::max(xr.Normlinf(), 1e-12);
         double tol = q.lin == "direct" ? std::max(1e-10, 1e-13 * kap) : std::max(1e-6, 1e-9 * kap); if (tol < 1e-3) { c.close(d.Normlinf() / sc, 0, 1, tol, turned && q.level == 2 ? "turned-component-operators" : q.lin == "direct" ? "galerkin-direct" : "galerkin-iterative", what + fmt(" cond %.2g", kap)); c.event("reduced solutions judged"); c.sig(fmt("%s|%s|%s|level%d|%s%s|%s/%s/%s|%s", pde_name(s.pde), s.comp ? "comp" : "sub", s.full_dg ? "dg" : "h1", q.level, q.sep ? "split" : "unified", q.byvar ? "-byvar" : "", q.lin.c_str(), q.lin == "direct" ? q.type.c_str() : "", q.prec.c_str(), full ? "full" : "part")); }
         if (keepsys && !(turned && q.level == 2))
         { // the system written for analysis, in the order of the unknowns asked for
            std::vector<int> pos(L.r); const int nb = L.tag.size(), ns = nb / (q.sep ? nv : 1); int at = 0; auto put = [&](int k) { for (int i = 0; i < q.tags[L.tag[k]].basis.NumCols(); i++) { pos[at++] = L.off[k] + i; } };
            if (q.byvar) { for (int v = 0; v < nv; v++) for (int m = 0; m < ns; m++) { put(m * nv + v); } } else { for (int k = 0; k < nb; k++) { put(k); } }
            Vector rhs = read_text_vector(q.dir + "/sys_rhs.txt"), sol = read_text_vector(q.dir + "/sys_sol.txt"); DenseMatrix A; bool okm = read_text_matrix(q.dir + "/sys_mat.mm", A);
            if (c.check(okm && A.NumRows() == L.r && A.NumCols() == L.r && rhs.Size() == L.r && sol.Size() == L.r, "system-saved", what + fmt(": %d x %d, %d, %d for %d", A.NumRows(), A.NumCols(), rhs.Size(), sol.Size(), L.r)))
            { double ea = 0, er = 0, es = 0, ka = K.MaxMaxNorm(), fa = std::max(Fr.Normlinf(), 1e-12); Vector ys(L.r); for (int i = 0; i < L.r; i++) { er = std::max(er, std::fabs(rhs(i) - Fr(pos[i]))); ys(pos[i]) = sol(i); for (int j = 0; j < L.r; j++) { ea = std::max(ea, std::fabs(A(i, j) - K(pos[i], pos[j]))); } }
               Vector xs = lift_up(q, L, ys); xs -= x; es = xs.Normlinf(); c.close(ea, 0, std::max(ka, 1e-12), 1e-5, "saved-matrix", what); c.close(er, 0, fa, 1e-7, "saved-right-side", what); c.close(es, 0, std::max(x.Normlinf(), 1e-12), 1e-9, "saved-reduced-solution", what); c.event("saved reduced systems"); }
         }
         if (full && tol < 1e-4 && !(turned && q.level == 2)) { d = x; d -= ufom; c.close(d.Normlinf() / std::max(ufom.Normlinf(), 1e-12), 0, 1, std::max(1e-5, 1e-10 * kap) + tol, "reproduces-full-order", what + fmt(" cond %.2g", kap)); c.event("full-order solutions reproduced"); }
         Vector rel = read_vector(out, "rel_error"); c.check(rel.Size() == nv, "error-saved", what);
         if (cmp && rel.Size() == nv)
         { // relative L2 errors, one per variable, over all subdomains
            int o2 = 0; double e2[2] = {0, 0}, n2[2] = {0, 0}, big = -1; for (int m = 0; m < R.sv->GetNumSubdomains(); m++) for (int v = 0; v < nv; v++)
               {
                  GridFunction *g = R.sv->GetGridFunction(m * nv + v); FiniteElementSpace *fe = g->FESpace(); GridFunction a(fe), b(fe); for (int k = 0; k < a.Size(); k++) { a(k) = ufom(o2); b(k) = x(o2) - ufom(o2); o2++; }
                  for (int e = 0; e < fe->GetNE(); e++) { ElementTransformation *T = fe->GetElementTransformation(e); const IntegrationRule &ir = IntRules.Get(fe->GetFE(e)->GetGeomType(), 2 * fe->GetFE(e)->GetOrder() + 3); for (int k = 0; k < ir.GetNPoints(); k++) { T->SetIntPoint(&ir.IntPoint(k)); double w = ir.IntPoint(k).weight * T->Weight(); for (int cc = 1; cc <= fe->GetVDim(); cc++) { double av = a.GetValue(e, ir.IntPoint(k), cc), bv = b.GetValue(e, ir.IntPoint(k), cc); n2[v] += w * av * av; e2[v] += w * bv * bv; } } } }
            for (int v = 0; v < nv; v++) { double e = std::sqrt(e2[v] / n2[v]); big = std::max(big, rel(v)); if (n2[v] > 1e-16) { c.close(rel(v), e, e + 1e-6, 2e-2, "relative-error", what); c.event("reported errors judged"); } } c.check(biteq(big, worst), "largest-error-returned", fmt("%g vs %g", big, worst)); }
         else if (rel.Size() == nv) { bool unset = true; for (int v = 0; v < nv; v++) { unset = unset && rel(v) == -1; } c.check(unset, "error-without-comparison", what); }
         c.sample(what + fmt(": max %.3g, cond %.2g", x.Normlinf(), kap));
      }
   }
   if (r.b(0.4)) { p0 = par(0); p1 = par(1); load_config(c.path("r.yml"), q.config(s, p0, p1, false)); unlink(q.solution().c_str()); SingleRun(MPI_COMM_WORLD, r.b() ? q.dir + "/out.h5" : std::string()); Vector x = read_vector(q.solution(), "solution"); g_par[0] = p0; g_par[1] = p1; Run F; prepare(s, F); F.sv->Solve(); Vector d(*F.sv->GetSolution()); if (c.check(x.Size() == d.Size(), "full-order-saved")) { d -= x; c.close(d.Normlinf(), 0, std::max(x.Normlinf(), 1e-12), 1e-10, "full-order-run", s.sig); c.event("full-order runs"); } }
   std::string cmd = "rm -rf '" + q.dir + "'"; if (q.dir.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
}
VF_MAIN(240, 1500)
