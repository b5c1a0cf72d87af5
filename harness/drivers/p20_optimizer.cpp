// Least-squares conjugate gradient minimiser: every outcome is judged on the residual it leaves and on what it claims.
#include "common.hpp"
#include "linalg_utils.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}

struct Sys : public Operator // A x + eps x^3 (component-wise), square or overdetermined
{
   DenseMatrix A, *J = nullptr; double eps; mutable long evals = 0, grads = 0; mutable DenseMatrix G; mutable bool bad = false;
   Sys(Rng &r, int m, int n, double e, double scale) : Operator(m, n), A(m, n), eps(e) { r.fill(A, -0.4, 0.4); for (int i = 0; i < n; i++) { A(i, i) += 2 + r.u(); } A *= scale; }
   void Mult(const Vector &x, Vector &y) const override { evals++; A.Mult(x, y); for (int i = 0; i < width; i++) { y(i) += eps * x(i) * x(i) * x(i); } }
   Operator &GetGradient(const Vector &x) const override { grads++; G = A; for (int i = 0; i < width; i++) { G(i, i) += 3 * eps * x(i) * x(i); } return G; }
};

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; CGOptimizer opt; int uses = r.b(0.05) ? r.i(5, 15) : r.i(1, 4);
   for (int u = 0; u < uses; u++)
   {
      int n = r.b(0.05) ? r.i(7, 24) : r.i(1, 6), m = n + (r.b(0.2) ? r.i(1, 3) : 0); double scale = r.pick<double>({1, 1, 100, 0.01}); Sys F(r, m, n, r.b(0.5) ? 0 : r.u(0.05, 0.5) * scale, scale); Vector xs(n), rhs(m), x(n), rhs0; r.fill(xs); F.Mult(xs, rhs); rhs0 = rhs; int start = r.i(0, 3); // exact data: the minimum is 0
      if (start == 0) { x = 0.0; } else if (start == 1) { r.fill(x, -2, 2); } else if (start == 2) { x = xs; } else { for (int i = 0; i < n; i++) { x(i) = xs(i) + 1e-3 * r.u(-1, 1); } }
      double rel = r.pick<double>({1e-2, 1e-4, 1e-6}), ab = r.pick<double>({0.0, 1e-5 * scale}); int it = r.pick<int>({0, 1, 3, 400, 400, 400, 400}); opt.SetOperator(F); opt.SetRelTol(rel); opt.SetAbsTol(ab); opt.SetMaxIter(it); opt.SetPrintLevel(-1);
      Vector res(m); F.Mult(x, res); res -= rhs; double r0 = res.Norml2(); opt.Mult(rhs, x); F.Mult(x, res); res -= rhs; double r1 = res.Norml2(); std::string s = fmt("n=%d m=%d eps=%g scale=%g start=%d rel=%g abs=%g maxit=%d use %d: residual %.3e -> %.3e", n, m, F.eps, scale, start, rel, ab, it, u, r0, r1);
      bool fin = true; for (int i = 0; i < n; i++) { fin = fin && std::isfinite(x(i)); } if (!c.check(fin, "solution-finite", s)) { continue; }
      c.check(r1 <= r0 * (1 + 1e-9) + 1e-13 * scale, "residual-not-increased", s); bool tight = r1 < ab || r1 < rel * r0 || r1 <= 1e-14 * scale;
      if (opt.GetConverged()) { c.check(r1 <= ab * (1 + 1e-9) || r1 <= rel * r0 * (1 + 1e-9) || r1 <= 1e-14 * scale, "claimed-convergence", s); c.event("runs that claim convergence"); }
      if (it >= 400) { c.check(tight, "well-conditioned-system-solved", s); c.check(!tight || opt.GetConverged(), "convergence-reported", s); }
      bool same = true; for (int i = 0; i < m; i++) { same = same && biteq(rhs(i), rhs0(i)); } c.check(same, "right-hand-side-unchanged"); c.event("minimisations"); c.event("operator evaluations", F.evals); c.event("gradient evaluations", F.grads); c.sig(fmt("%d|%d|%d|%d|%g|%g|%d|%g", n, m > n, F.eps > 0, start, rel, ab, it, scale));
   }
   c.sample(fmt("%d uses of one optimiser", uses));
}
VF_MAIN(3000, 100000)
