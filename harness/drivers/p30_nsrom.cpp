// Reduced-order workflow for steady Navier-Stokes: tensors and hyper-reduction, against the Galerkin equations of the whole domain.
#include "rom_gen.hpp"
#include "linalg/NNLS.h"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
// Every point with the weight of its rule is one solution of the training systems; the hook takes it when asked, so that the hyper-reduced form is the full one.
static std::vector<const IntegrationRule *> g_rules; static Ctx *g_c = NULL; static bool g_ambiguous = false, g_force = false;
static void all_points(const CAROM::Matrix &Gt, const CAROM::Vector &lb, const CAROM::Vector &ub, CAROM::Vector &x)
{
   int n = Gt.numRows(), m = Gt.numColumns(), hits = 0, best = -1; double big = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { big = std::max(big, std::fabs(Gt(i, j))); }
   for (size_t k = 0; k < g_rules.size(); k++)
   {
      const IntegrationRule &ir = *g_rules[k]; int q = ir.GetNPoints(); if (n % q) { continue; } bool ok = true; for (int j = 0; j < m && ok; j++) { double s = 0, a = 0; for (int i = 0; i < n; i++) { double t = Gt(i, j) * ir.IntPoint(i % q).weight; s += t; a += std::fabs(t); } ok = std::fabs(s - 0.5 * (lb(j) + ub(j))) <= 1e-11 * a + 1e-30; }
      if (ok) { hits++; best = k; }
   }
   if (n == 0) { return; } g_c->check(hits > 0, "training-target-is-the-full-rule", fmt("%d points, %d conditions", n, m)); if (hits > 1) { g_ambiguous = true; } if (hits && g_force) for (int i = 0; i < n; i++) { x(i) = g_rules[best]->IntPoint(i % g_rules[best]->GetNPoints()).weight; } g_c->event("training systems");
}
struct Reduced
{ // V^T R(V y) for the whole equations, and its derivative
   const Sys &s; Rom &q; Lift &L; MultiBlockSolver &sv; Ref &R; Residual &res; int nv;
   Vector eval(const Vector &y, double *scale = NULL)
   {
      Vector x = lift_up(q, L, y), u, p, F; split_vars(sv, nv, x, u, p); Tested t = tested_residual(s, R, res, u, p, NULL); join_vars(sv, nv, t.u, t.p, F); if (scale) { *scale = std::max({t.ua.Normlinf(), t.pa.Normlinf(), 1e-12}); } return project(q, L, F);
   }
   DenseMatrix jac(const Vector &y)
   {
      DenseMatrix J(L.r); Vector x = lift_up(q, L, y), u, p, xu(R.U->GetVSize()); split_vars(sv, nv, x, u, p); res.Qu->Mult(u, xu); SparseMatrix &H = dynamic_cast<SparseMatrix &>(R.h->GetGradient(xu)); Vector e(L.r), ru, rp, z, hz(xu.Size()), hu;
      for (int j = 0; j < L.r; j++) { e = 0.; e(j) = 1; x = lift_up(q, L, e); split_vars(sv, nv, x, u, p); apply_linear(s, R, res, u, p, ru, rp); res.Qu->Mult(u, xu); H.Mult(xu, hz); hu.SetSize(ru.Size()); res.Qu->MultTranspose(hz, hu); ru += hu; join_vars(sv, nv, ru, rp, z); Vector kc = project(q, L, z); J.SetCol(j, kc); } return J;
   }
   bool solve(Vector &y, double &kap)
   {
      y.SetSize(L.r); y = 0.; double sc; for (int it = 0; it < 30; it++) { Vector F = eval(y, &sc); if (!(F.Normlinf() < 1e10)) { return false; } DenseMatrix J = jac(y); kap = cond(J); if (kap > 1e10) { return false; } if (F.Normlinf() < 1e-12 * sc) { return true; } DenseMatrixInverse inv(J); Vector d(L.r); inv.Mult(F, d); y -= d; if (d.Normlinf() < 1e-12 * std::max(y.Normlinf(), 1e-10)) { return true; } } return false;
   }
};
// Reduced unsteady flow: every step is the Galerkin projection of the step of the whole domain, from the projected initial state or a restart file.
static void unsteady(Ctx &c)
{
   Rng &r = c.rng; SysOpt o; o.pdes = {UNSTEADYNS}; o.parametric = true; o.maxorder = r.b(0.7) ? 1 : 2; o.maxdofs = c.tier == "thorough" ? 600 : 280; o.comp = 1; o.nt = 4; Sys s; const int nv = 2;
   for (int a = 0;; a++) { s = make_sys(c, r, o); bool bad = false; for (auto &cf : s.S.conf) { bad = bad || cf[3] != 0; } for (size_t i = 0; i < s.S.ref_info.size(); i++) for (size_t j = 0; j < i; j++) { bad = bad || s.S.ref_info[i] == s.S.ref_info[j]; } if (!bad) { break; } if (a > 30) { c.event("no plain system"); return; } }
   s.nu = r.u(0.8, 2.5); s.nt = r.i(1, 4); s.dt = r.u(0.02, 0.3); g_sys = &s; const int NT = s.nt; std::string stamp = fmt(" nt %d", NT);
   Rom q; q.dir = c.path(fmt("u%d", c.kase)); mkdir(q.dir.c_str(), 0700); q.sep = q.byvar = true; q.nx = r.i(1, 2); q.ny = r.i(1, 2); for (int k = 0; k < 2; k++) { q.lo[k] = r.u(-1.2, 0.8); q.hi[k] = q.lo[k] + r.u(0.4, 1.5); } auto par = [&](int) { return r.u(-1.5, 1.5); };
   int every = r.i(1, 2), boot = r.b(0.7) ? 0 : r.i(0, NT - 1), count = 0; for (int k = 1; k <= NT; k++) { count += k > boot && k % every == 0; } if (!count) { every = 1; boot = 0; count = NT; }
   q.lin = "direct"; q.type = "us"; q.nl = "eqp"; q.level = 2; std::string eq = fmt("  eqp: {relative_tolerance: 1.0e-11, criterion: %s, precompute: %s}\n", r.b() ? "l2" : "linf", r.b() ? "true" : "false"); q.more = eq;
   auto conf = [&](double a, double b, bool rom) { std::string y = q.config(s, a, b, rom); size_t k = y.find("sample_generation:\n"); y.insert(k + 19, fmt("  time-integration: {sample_interval: %d, bootstrap: %d}\n", every, boot)); return y; };
   auto restarted = [&](std::string y, const std::string &file) { size_t k = y.find("solver:\n", y.find("discretization:")); y.insert(k + 8, fmt("  use_restart: true\n  restart_file: %s\n", file.c_str())); return y; };
   auto fom = [&](double a, double b, int cut, const std::string &file, Vector &u) { g_par[0] = a; g_par[1] = b; int nt = s.nt; if (cut) { s.nt = cut; load_config(c.path("r.yml"), conf(a, b, false)); Run F; prepare(s, F); F.sv->Solve(); F.sv->SaveSolutionWithTime(file, cut, cut * s.dt); s.nt = nt; } load_config(c.path("r.yml"), conf(a, b, false)); Run F; prepare(s, F); bool ok = F.sv->Solve(); u = *F.sv->GetSolution(); return ok && !u.CheckFinite(); };
   std::vector<std::array<double, 2>> pts; for (int i = 0; i < q.nx; i++) for (int j = 0; j < q.ny; j++) { auto at = [&](int k, int n, int i) { return n > 1 ? q.lo[k] + i * (q.hi[k] - q.lo[k]) / (n - 1) : q.lo[k]; }; pts.push_back({at(0, q.nx, i), at(1, q.ny, j)}); Vector u; if (!fom(pts.back()[0], pts.back()[1], 0, "", u)) { c.event("run left the range of numbers"); return; } }
   double p0 = par(0), p1 = par(1); load_config(c.path("r.yml"), conf(p0, p1, false)); GenerateSamples(MPI_COMM_WORLD); c.event("unsteady sampling runs", q.nx * q.ny); stamp += fmt(" snapshots every %d after %d", every, boot);
   load_config(c.path("r.yml"), conf(p0, p1, false)); g_par[0] = p0; g_par[1] = p1; Run R; prepare(s, R); std::vector<std::string> bt; std::vector<BasisTag> bts; R.sv->GetBasisTags(bts); for (auto &t : bts) { bt.push_back(t.print()); bool seen = false; for (auto &x : q.tags) { seen = seen || x.name == bt.back(); } if (!seen) { Tag x; x.name = bt.back(); x.comp = t.comp; x.var = t.var; q.tags.push_back(x); } }
   // one column for every snapshot taken of every subdomain of the kind
   for (auto &t : q.tags) { int n = 0, rr = 0, cc = 0; for (auto &b : bt) { n += b == t.name; } CAROM::HDFDatabase db; if (c.check(db.open(q.samples() + "_" + t.name + "_snapshot.000000", "r"), "snapshot-file", t.name)) { db.getInteger("snapshot_matrix_num_rows", rr); db.getInteger("snapshot_matrix_num_cols", cc); db.close(); c.check(cc == n * count * (int)pts.size(), "snapshots-per-run", s.sig + stamp + fmt(": %d columns, %d subdomains, %d times, %d runs", cc, n, count, (int)pts.size())); } }
   bool full = r.b(0.65), ok = true; int lo = 1000; for (auto &t : q.tags) { t.rank = snapshot_rank(q.samples() + "_" + t.name + "_snapshot", 1e-8); ok = ok && t.rank > 0; lo = std::min(lo, t.rank); } if (!ok) { c.event("zero snapshots"); return; } for (auto &t : q.tags) { t.n = full ? t.rank : r.i(1, t.rank); } q.nall = lo;
   for (auto &a : q.tags) for (auto &b : q.tags) if (a.comp == b.comp && a.var == "vel" && b.var == "pres") { a.sup = b.n; }
   std::vector<Tag> keep = q.tags; for (auto &t : q.tags) if (t.var == "pres") { for (auto &x : keep) if (x.comp == t.comp && x.var == "vel") { t.sup = x.sup; } } for (auto &t : q.tags) if (t.var == "vel") { t.sup = 0; }
   std::vector<Tag> asked = q.tags; load_config(c.path("r.yml"), conf(p0, p1, true)); TrainROM(MPI_COMM_WORLD); c.event("trainings"); q.tags = keep; for (auto &t : q.tags) if (!c.check(load_basis(q, t), "basis-file", t.name)) { return; }
   Lift L = lift(q, *R.sv, nv, bt); if (!c.check(L.N == R.sv->GetSolution()->Size(), "basis-size", fmt("%d of %d", L.N, R.sv->GetSolution()->Size()))) { return; } for (auto &t : q.tags) if (t.n + t.sup > t.basis.NumRows()) { c.event("more modes than unknowns"); return; }
   Residual res; { Ref t; make_ref(s, t); if (!c.check(make_residual(s, t, *R.sv, res), "blocks-cover-the-mesh", s.sig)) { return; } }
   const int io = (int)std::ceil(1.5 * (2 * s.uorder() - 1)); g_rules = {&IntRules.Get(s.G->GetElementBaseGeometry(0), io), &IntRules.Get(s.G->GetBdrElementBaseGeometry(0), io)}; g_c = &c; g_ambiguous = false; g_force = true; CAROM::NNLSSolver::hook() = all_points;
   q.tags = asked; load_config(c.path("r.yml"), conf(p0, p1, true) + (s.S.ref_info.size() ? "sample_collection: {mode: port}\n" : "")); TrainEQP(MPI_COMM_WORLD); CAROM::NNLSSolver::hook() = nullptr; if (g_ambiguous) { c.event("ambiguous rule"); return; } load_config(c.path("r.yml"), conf(p0, p1, true)); BuildROM(MPI_COMM_WORLD); c.event("unsteady builds");
   for (int run = 0; run < 2; run++)
   {
      q.tags = keep; for (auto &a : q.tags) { load_basis(q, a); } p0 = par(0); p1 = par(1); bool attrain = full && r.b(0.6); if (attrain) { auto &x = r.pick(pts); p0 = x[0]; p1 = x[1]; } int cut = NT > 1 && (attrain || r.b(0.3)) ? r.i(1, NT - 1) : 0; std::string file = q.dir + fmt("/at%d.h5", run), what = s.sig + fmt(" | %d of %d from %d", L.r, L.N, cut) + stamp + eq; Vector ufom; if (!fom(p0, p1, cut, file, ufom)) { c.event("run left the range of numbers"); continue; }
      g_par[0] = p0; g_par[1] = p1; Ref t; make_ref(s, t); Vector u, p, x0(L.N); // the initial state
      if (cut) { x0 = read_vector(file, "solution"); } else { int at = 0; for (int m = 0; m < R.sv->GetNumSubdomains(); m++) for (int v = 0; v < nv; v++) { GridFunction g(R.sv->GetGridFunction(m * nv + v)->FESpace()); VectorFunctionCoefficient fu(s.dim, s.ic.vec()), fp(1, s.pic.vec()); g.ProjectCoefficient(v ? fp : fu); for (int i = 0; i < g.Size(); i++) { x0(at++) = g(i); } } }
      Vector y = project(q, L, x0), e(L.r), z, ru, rp, xu(t.U->GetVSize()), mu(xu.Size()), hu; DenseMatrix A(L.r); for (int j = 0; j < L.r; j++) { e = 0.; e(j) = 1; Vector x = lift_up(q, L, e); split_vars(*R.sv, nv, x, u, p); apply_linear(s, t, res, u, p, ru, rp); res.Qu->Mult(u, xu); t.mass->SpMat().Mult(xu, mu); hu.SetSize(ru.Size()); res.Qu->MultTranspose(mu, hu); ru.Add(1 / s.dt, hu); join_vars(*R.sv, nv, ru, rp, z); Vector col = project(q, L, z); A.SetCol(j, col); }
      double kap = cond(A); if (!(kap < 1e9)) { c.event("ill-conditioned reduced systems"); continue; } DenseMatrixInverse inv(A); bool far = false;
      for (int n = cut; n < NT; n++) { Vector xo = lift_up(q, L, y), uo, po, zero(L.N), u0, pz, F; split_vars(*R.sv, nv, xo, uo, po); zero = 0.; split_vars(*R.sv, nv, zero, u0, pz); Tested d = tested_residual(s, t, res, u0, pz, &uo); join_vars(*R.sv, nv, d.u, d.p, F); Vector b = project(q, L, F); inv.Mult(b, y); y.Neg(); far = far || !(y.Normlinf() < 1e6); } if (far) { c.event("run left the range of numbers"); continue; }
      Vector xr = lift_up(q, L, y); q.tags = asked; std::string y0 = conf(p0, p1, true); if (cut) { y0 = restarted(y0, file); } load_config(c.path("r.yml"), y0); unlink(q.solution().c_str()); std::string out = q.dir + "/out.h5"; g_par[0] = g_par[1] = 777; SingleRun(MPI_COMM_WORLD, out); g_par[0] = p0; g_par[1] = p1; c.event("unsteady reduced runs"); c.event("unsteady reduced steps", NT - cut);
      Vector x = read_vector(q.solution(), "solution"); if (!c.check(x.Size() == L.N, "solution-saved", what)) { continue; } Vector d(x); d -= xr; double tol = std::max(1e-8, 1e-12 * kap); c.close(d.Normlinf() / std::max(xr.Normlinf(), 1e-8), 0, 1, tol, "unsteady-reduced-steps", what + fmt(" cond %.2g", kap));
      if (attrain && cut > 0 && every == 1 && cut > boot && tol < 1e-5) { d = x; d -= ufom; c.close(d.Normlinf() / std::max(ufom.Normlinf(), 1e-8), 0, 1, std::max(1e-5, 1e-8 * kap), "unsteady-reproduces-full-order", what + fmt(" cond %.2g", kap)); c.event("unsteady full-order solutions reproduced"); }
      c.sig(fmt("unsteady|dim%d|%s|nt%d|cut%d|%s|every%d|boot%d", s.dim, s.full_dg ? "dg" : "h1", NT, cut, full ? "full" : "part", every, boot)); c.sample(what + fmt(": max %.3g, cond %.2g", x.Normlinf(), kap));
   }
   std::string cmd = "rm -rf '" + q.dir + "'"; if (q.dir.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
}
void vf::run_case(Ctx &c)
{
   if (c.kase % 5 == 4) { unsteady(c); return; }
   Rng &r = c.rng; SysOpt o; o.pdes = {STEADYNS}; o.parametric = true; o.maxorder = 2; o.maxdofs = c.tier == "thorough" ? 700 : 320; o.comp = r.b(0.75); Sys s = make_sys(c, r, o); bool eqp = s.comp && r.b(0.6); if (!eqp) { s.lf = false; } { bool data = s.rhs; for (auto &b : s.bc) { data = data || b.kind == 0; } s.rhs = s.rhs || !data; } s.nu = r.u(0.8, 2.5); s.sig += s.lf ? "|LF" : ""; g_sys = &s; const int nv = 2;
   bool turned = false, twins = false; if (s.comp) { for (auto &cf : s.S.conf) { turned = turned || cf[3] != 0; } for (size_t a = 0; a < s.S.ref_info.size(); a++) for (size_t b = 0; b < a; b++) { twins = twins || s.S.ref_info[a] == s.S.ref_info[b]; } } if (turned || twins) { eqp = false; s.lf = false; }
   Rom q; q.dir = c.path(fmt("k%d", c.kase)); mkdir(q.dir.c_str(), 0700); q.sep = r.b(0.6); q.byvar = q.sep && r.b(0.4); q.nx = r.i(1, 3); q.ny = q.nx == 1 ? r.i(2, 3) : r.i(1, 2); for (int k = 0; k < 2; k++) { q.lo[k] = r.u(-1.2, 0.8); q.hi[k] = q.lo[k] + r.u(0.4, 1.5); } auto par = [&](int) { return r.u(-1.5, 1.5); };
   q.lin = "direct"; q.type = "us"; q.nl = eqp ? "eqp" : "tensor"; std::string eq = eqp ? fmt("  eqp: {relative_tolerance: 1.0e-11, criterion: %s, precompute: %s}\n", r.b() ? "l2" : "linf", r.b() ? "true" : "false") : std::string(); q.more = eq; q.level = eqp ? 2 : 0;
   auto fom = [&](double a, double b, Vector &u) { load_config(c.path("r.yml"), q.config(s, a, b, false)); g_par[0] = a; g_par[1] = b; Run F; prepare(s, F); bool ok = F.sv->Solve(); u = *F.sv->GetSolution(); if (ok) { F.sv->SaveSolution(q.dir + "/fom.h5"); } return ok; };
   // training points; all must have a solution
   std::vector<std::array<double, 2>> pts; for (int i = 0; i < q.nx; i++) for (int j = 0; j < q.ny; j++) { auto at = [&](int k, int n, int i) { return n > 1 ? q.lo[k] + i * (q.hi[k] - q.lo[k]) / (n - 1) : q.lo[k]; }; pts.push_back({at(0, q.nx, i), at(1, q.ny, j)}); Vector u; if (!fom(pts.back()[0], pts.back()[1], u)) { c.event("full-order not converged"); return; } }
   double p0 = par(0), p1 = par(1); load_config(c.path("r.yml"), q.config(s, p0, p1, r.b())); GenerateSamples(MPI_COMM_WORLD); c.event("sampling runs", q.nx * q.ny);
   load_config(c.path("r.yml"), q.config(s, p0, p1, false)); Run R; prepare(s, R); std::vector<std::string> bt; std::vector<BasisTag> bts; R.sv->GetBasisTags(bts); for (auto &t : bts) { bt.push_back(t.print()); bool seen = false; for (auto &x : q.tags) { seen = seen || x.name == bt.back(); } if (!seen) { Tag x; x.name = bt.back(); x.comp = t.comp; x.var = t.var; q.tags.push_back(x); } }
   bool full = r.b(0.6), ok = true; int lo = 1000; for (auto &t : q.tags) { t.rank = snapshot_rank(q.samples() + "_" + t.name + "_snapshot", 1e-8); ok = ok && t.rank > 0; lo = std::min(lo, t.rank); } if (!ok) { c.event("zero snapshots"); return; }
   for (auto &t : q.tags) { t.n = full ? t.rank : r.i(1, t.rank); } q.nall = lo;
   if (q.sep) for (size_t a = 0; a < q.tags.size(); a++) for (size_t b = 0; b < q.tags.size(); b++) if (q.tags[a].comp == q.tags[b].comp && q.tags[a].var == "vel" && q.tags[b].var == "pres") { q.tags[a].sup = q.tags[b].n; if (r.b(0.3)) { q.tags[a].sup = r.i(1, q.tags[b].n); } }
   std::vector<Tag> keep = q.tags; if (q.sep) { for (auto &t : q.tags) if (t.var == "pres") { for (auto &x : keep) if (x.comp == t.comp && x.var == "vel") { t.sup = x.sup; } } for (auto &t : q.tags) if (t.var == "vel") { t.sup = 0; } }
   std::vector<Tag> asked = q.tags; load_config(c.path("r.yml"), q.config(s, p0, p1)); TrainROM(MPI_COMM_WORLD); c.event("trainings"); q.tags = keep; for (auto &t : q.tags) if (!c.check(load_basis(q, t), "basis-file", t.name)) { return; }
   Lift L = lift(q, *R.sv, nv, bt); if (!c.check(L.N == R.sv->GetSolution()->Size(), "basis-size", fmt("%d of %d", L.N, R.sv->GetSolution()->Size()))) { return; } for (auto &t : q.tags) if (t.n + t.sup > t.basis.NumRows()) { c.event("more modes than unknowns"); return; }
   Residual res; { Ref t; g_par[0] = p0; g_par[1] = p1; make_ref(s, t); if (!c.check(make_residual(s, t, *R.sv, res), "blocks-cover-the-mesh", s.sig)) { return; } }
   bool force = true; const int io = (int)std::ceil(1.5 * (2 * s.uorder() - 1));
   if (eqp)
   { // sampled points: all of them, or as trained where training sees every term the solution needs
      bool exact = true; if (s.lf) for (auto &b : s.bc) { exact = exact && b.kind != 0; } force = !(full && r.b(exact ? 0.6 : 0.2)); g_rules = {&IntRules.Get(s.G->GetElementBaseGeometry(0), io), &IntRules.Get(s.G->GetBdrElementBaseGeometry(0), io)}; g_c = &c; g_ambiguous = false; g_force = force; CAROM::NNLSSolver::hook() = all_points; CAROM::NNLSSolver::log().clear();
      q.tags = asked; load_config(c.path("r.yml"), q.config(s, p0, p1) + (s.lf && s.S.ref_info.size() || (s.S.ref_info.size() && r.b(0.3)) ? "sample_collection: {mode: port}\n" : "")); TrainEQP(MPI_COMM_WORLD); CAROM::NNLSSolver::hook() = nullptr; c.event(force ? "hyper-reductions with all points" : "trained hyper-reductions"); if (g_ambiguous && force) { c.event("ambiguous rule"); return; } if (!force) { if (!exact) { c.event("trained for other boundary terms"); return; } for (bool b : CAROM::NNLSSolver::log()) { if (!b) { c.event("training systems the stand-in solver left unsolved"); return; } } }
   }
   std::vector<int> levels = {0, 1}; if (s.comp && !twins && !turned) { levels.push_back(2); levels.push_back(2); }
   for (int it = 0; it < (eqp ? 1 : 2); it++)
   {
      q.level = eqp ? 2 : levels[r.i(0, levels.size() - 1)]; if (!eqp) { q.byvar = q.sep && r.b(0.4); } q.tags = asked; double b0 = par(0), b1 = par(1); if (q.level) { load_config(c.path("r.yml"), q.config(s, b0, b1)); BuildROM(MPI_COMM_WORLD); c.event("builds"); }
      for (int run = 0; run < 2; run++)
      {
         q.tags = keep; for (auto &a : q.tags) { load_basis(q, a); } p0 = par(0); p1 = par(1); bool attrain = !force || (full && r.b()); if (attrain) { auto &x = r.pick(pts); p0 = x[0]; p1 = x[1]; } std::string what = s.sig + fmt(" | %s level %d %s%s, %d of %d%s", q.nl.c_str(), q.level, q.sep ? "split" : "unified", q.byvar ? " by variable" : "", L.r, L.N, force ? "" : " trained") + eq;
         Vector ufom; if (!fom(p0, p1, ufom)) { c.event("full-order not converged"); continue; }
         g_par[0] = p0; g_par[1] = p1; Ref t; make_ref(s, t); Reduced G{s, q, L, *R.sv, t, res, nv}; Vector y; double kap = 1e300; if (!G.solve(y, kap)) { c.event("oracle did not converge"); continue; } Vector xr = lift_up(q, L, y);
         q.tags = asked; bool cmp = r.b(0.4), fromfile = cmp && r.b(0.5), restart = attrain && full && r.b(force ? 0.4 : 0.8); std::string more = q.more; if (cmp) { q.more += fmt("  compare_solution: {enabled: true%s}\n", fromfile ? fmt(", load_solution: true, fom_solution_file: %s/fom.h5", q.dir.c_str()).c_str() : ""); }
         std::string y0 = q.config(s, p0, p1); if (restart) { size_t k = y0.find("solver:\n", y0.find("discretization:")); y0.insert(k + 8, fmt("  use_restart: true\n  restart_file: %s/fom.h5\n", q.dir.c_str())); } q.more = more;
         load_config(c.path("r.yml"), y0); unlink(q.solution().c_str()); std::string out = q.dir + "/out.h5"; g_par[0] = g_par[1] = 777; SingleRun(MPI_COMM_WORLD, out); c.event("reduced runs"); g_par[0] = p0; g_par[1] = p1; Vector x = read_vector(q.solution(), "solution"); if (!c.check(x.Size() == L.N, "solution-saved", what)) { continue; }
         bool reached = restart; // without a restart Newton's method may find another solution of the same equations
         q.tags = keep; for (auto &a : q.tags) { load_basis(q, a); } double tol = std::max(1e-8, 1e-12 * kap); if (tol > 1e-3) { c.event("ill-conditioned reduced systems"); continue; }
         Vector cz = project(q, L, x), back = lift_up(q, L, cz); back -= x; c.close(back.Normlinf(), 0, std::max(x.Normlinf(), 1e-10), 1e-8, "solution-in-span", what);
         if (force)
         { // the reduced equations hold; the solution is the one Newton's method reaches from rest, unless there are others
            double sc; Vector F = G.eval(cz, &sc); Vector d(x); d -= xr; double e = d.Normlinf() / std::max(xr.Normlinf(), 1e-10); c.close(F.Normlinf() / sc, 0, 1, 1e-9, eqp ? "hyper-reduced-galerkin" : "tensor-galerkin", what + fmt(" cond %.2g distance %.2g", kap, e)); Vector o(xr); o -= ufom; reached = restart || (e <= tol && o.Normlinf() <= 1e-3 * ufom.Normlinf()); c.event("reduced solutions judged"); c.event(e <= tol ? "same as the oracle's solution" : "another solution");
         }
         if (full && attrain && tol < 1e-5 && reached) { Vector d(x); d -= ufom; c.close(d.Normlinf() / std::max(ufom.Normlinf(), 1e-10), 0, 1, std::max(1e-6, 1e-9 * kap), force ? "reproduces-full-order" : "trained-reproduces-full-order", what + fmt(" cond %.2g", kap)); c.event("full-order solutions reproduced"); }
         Vector rel = read_vector(out, "rel_error"); c.check(rel.Size() == nv, "error-saved", what); if (cmp && rel.Size() == nv && full && attrain && tol < 1e-5 && reached) { c.check(rel(0) >= 0 && rel(0) < 1e-4, "relative-error", fmt("%g %g", rel(0), rel(1))); } else if (!cmp && rel.Size() == nv) { c.check(rel(0) == -1 && rel(1) == -1, "error-without-comparison", what); }
         c.sig(fmt("%s|%s|%s|level%d|%s%s|%s|%s%s|dim%d", q.nl.c_str(), s.comp ? "comp" : "sub", s.full_dg ? "dg" : "h1", q.level, q.sep ? "split" : "unified", q.byvar ? "-byvar" : "", full ? "full" : "part", s.lf ? "lf" : "base", force ? "" : "-trained", s.dim)); c.sample(what + fmt(": max %.3g, cond %.2g", x.Normlinf(), kap));
      }
   }
   std::string cmd = "rm -rf '" + q.dir + "'"; if (q.dir.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
}
VF_MAIN(280, 1700)
