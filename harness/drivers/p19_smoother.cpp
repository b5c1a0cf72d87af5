// Block Gauss-Seidel / Jacobi: compared with the iteration they document, over re-used objects, changed operators, zero blocks, initial guesses.
#include "common.hpp"
#include "block_smoother.hpp"
using namespace vf; using namespace mfem;
typedef long double ld; typedef std::vector<ld> V;
void vf::setup(Ctx &) {}

struct BM
{
   int nb; Array<int> off; std::unique_ptr<BlockMatrix> B; DenseMatrix A; std::string sig; std::vector<std::vector<char>> zero;
   BM(Rng &r, bool spd)
   {
      nb = r.b(0.06) ? r.i(6, 20) : r.i(1, 5); int most = r.b(0.06) ? r.i(5, 24) : 4; if (nb > 5 && most > 8) { most = 8; } off.SetSize(nb + 1); off[0] = 0; for (int i = 0; i < nb; i++) { off[i + 1] = off[i] + r.i(1, most); } int n = off.Last(); A.SetSize(n); A = 0.; zero.assign(nb, std::vector<char>(nb, 0)); double keep = r.pick<double>({1, 0.5, 0.0}); bool lower = r.b(0.15);
      double scale = r.pick<double>({1, 1, 1, 1e4, 1e-4, 1e9, 1e-9});
      for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
         {
            bool z = i != j && (!r.b(keep) || (lower && j > i)); if (spd && j < i) { z = zero[j][i]; } zero[i][j] = z; if (z) { continue; }
            for (int a = off[i]; a < off[i + 1]; a++) for (int b = off[j]; b < off[j + 1]; b++) { A(a, b) = spd && b < a ? A(b, a) : r.u(-1, 1) * (i == j ? 1 : 0.6); }
         }
      for (int a = 0; a < n; a++) { A(a, a) = (spd || r.b(0.7) ? 1 : -1) * (n * 0.8 + r.u(1, 4)); } A *= scale;
      B.reset(new BlockMatrix(off)); B->owns_blocks = true;
      for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) { if (zero[i][j]) { continue; } SparseMatrix *s = new SparseMatrix(off[i + 1] - off[i], off[j + 1] - off[j]); for (int a = 0; a < s->Height(); a++) for (int b = 0; b < s->Width(); b++) { double v = A(off[i] + a, off[j] + b); if (v != 0.) { s->Set(a, b, v); } } s->Finalize(); B->SetBlock(i, j, s); }
      sig = fmt("%d%s%d%d", nb, spd ? "S" : "N", (int)(keep * 2), lower);
   }
   void solve(int i, V b, V &y) const // diagonal block i, partial pivoting
   {
      int o = off[i], n = off[i + 1] - o; std::vector<V> M(n, V(n)); for (int a = 0; a < n; a++) for (int c = 0; c < n; c++) { M[a][c] = A(o + a, o + c); }
      for (int k = 0; k < n; k++) { int p = k; for (int a = k; a < n; a++) { if (fabsl(M[a][k]) > fabsl(M[p][k])) { p = a; } } std::swap(M[p], M[k]); std::swap(b[p], b[k]); for (int a = k + 1; a < n; a++) { ld f = M[a][k] / M[k][k]; for (int c = k; c < n; c++) { M[a][c] -= f * M[k][c]; } b[a] -= f * b[k]; } }
      for (int k = n - 1; k >= 0; k--) { ld t = b[k]; for (int c = k + 1; c < n; c++) { t -= M[k][c] * y[o + c]; } y[o + k] = t / M[k][k]; }
   }
   void sweep(const Vector &x, V &y, bool fwd) const
   {
      for (int z = 0; z < nb; z++) { int i = fwd ? z : nb - 1 - z; V b; for (int a = off[i]; a < off[i + 1]; a++) { ld t = x(a); for (int j = 0; j < off.Last(); j++) { if (j < off[i] || j >= off[i + 1]) { t -= (ld)A(a, j) * y[j]; } } b.push_back(t); } solve(i, b, y); }
   }
};

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int nops = c.tier == "thorough" ? 24 : r.b(0.05) ? 60 : 12;
   std::vector<std::unique_ptr<BM>> M; for (int k = 0; k < 3; k++) { M.emplace_back(new BM(r, r.b(0.4))); }
   struct S { std::unique_ptr<Solver> s; bool gs; int type, it, op; bool mode; }; std::vector<S> live;
   for (int op = 0; op < nops; op++)
   {
      if (live.empty() || r.b(0.35))
      {
         S s; s.gs = r.b(0.75); s.type = s.gs ? r.i(0, 2) : 0; s.it = s.gs ? (r.b(0.08) ? r.i(5, 25) : r.i(1, 4)) : 1; s.op = r.i(0, 2); s.mode = false; bool late = r.b(0.3), defaults = r.b(0.15); if (defaults) { s.type = 0; s.it = 1; } const BlockMatrix &B = *M[s.op]->B;
         if (s.gs) { s.s.reset(late ? new BlockGSSmoother(s.type, s.it) : defaults ? new BlockGSSmoother(B) : new BlockGSSmoother(B, s.type, s.it)); } else { s.s.reset(late ? new BlockDSmoother(0, 1) : defaults ? new BlockDSmoother(B) : new BlockDSmoother(B, 0, 1)); }
         if (late) { s.s->SetOperator(B); } c.check(s.s->Height() == B.Height() && s.s->Width() == B.Width(), "smoother-size"); if (live.size() < 3) { live.push_back(std::move(s)); } else { live[r.i(0, 2)] = std::move(s); }
      }
      S &s = live[r.i(0, (int)live.size() - 1)]; if (r.b(0.25)) { s.op = r.i(0, 2); s.s->SetOperator(*M[s.op]->B); } if (s.gs && r.b(0.3)) { s.mode = !s.mode; s.s->iterative_mode = s.mode; }
      BM &B = *M[s.op]; int n = B.off.Last(); Vector x(n), y(n), x0; r.fill(x); r.fill(y); if (r.b(0.1)) { x = 0.0; } x0 = x; V w(n, 0); std::string nm;
      if (s.gs)
      {
         BlockGSSmoother &g = (BlockGSSmoother &)*s.s; int how = r.i(0, 3);
         if (how == 0) { for (int i = 0; i < n; i++) { w[i] = y(i); } B.sweep(x, w, true); g.BlockGaussSeidelForw(x, y); nm = "forward-sweep"; }
         else if (how == 1) { for (int i = 0; i < n; i++) { w[i] = y(i); } B.sweep(x, w, false); g.BlockGaussSeidelBack(x, y); nm = "backward-sweep"; }
         else { if (s.mode) { for (int i = 0; i < n; i++) { w[i] = y(i); } } for (int k = 0; k < s.it; k++) { if (s.type != 2) { B.sweep(x, w, true); } if (s.type != 1) { B.sweep(x, w, false); } } g.Mult(x, y); nm = fmt("gauss-seidel-%s", s.type == 0 ? "symmetric" : s.type == 1 ? "forward" : "backward"); }
      }
      else { for (int i = 0; i < B.nb; i++) { V b; for (int a = B.off[i]; a < B.off[i + 1]; a++) { b.push_back(x(a)); } B.solve(i, b, w); } s.s->Mult(x, y); nm = "jacobi"; }
      Vector want(n); double sc = 0; for (int i = 0; i < n; i++) { want(i) = w[i]; } c.closeVec(y, want, 1e-10, nm, fmt("%s it%d mode%d", B.sig.c_str(), s.it, s.mode), 1e-30);
      bool same = true; for (int i = 0; i < n; i++) { same = same && biteq(x(i), x0(i)); } c.check(same, "right-hand-side-unchanged", nm); c.event("applications"); c.sig(fmt("%s|%s|%d|%d", nm.c_str(), B.sig.c_str(), s.it, s.mode));
   }
   if (r.b(0.5)) // as a preconditioner of a Krylov solver the solution must still solve the system
   {
      BM &B = *M[r.i(0, 2)]; bool gs = r.b(); std::unique_ptr<Solver> P; if (gs) { P.reset(new BlockGSSmoother(*B.B, r.i(0, 2), r.i(1, 2))); } else { P.reset(new BlockDSmoother(*B.B)); } GMRESSolver K; K.SetKDim(60); K.SetRelTol(1e-12); K.SetMaxIter(200); K.SetPrintLevel(-1); K.SetPreconditioner(*P); K.SetOperator(*B.B);
      int n = B.off.Last(); Vector b(n), x(n), res(n); r.fill(b); x = 0.0; K.Mult(b, x); B.B->Mult(x, res); res -= b; c.check(K.GetConverged() && res.Normlinf() < 1e-8 * b.Normlinf(), "preconditioned-solve", B.sig); c.event("preconditioned solves"); c.sig(fmt("krylov|%s|%d", B.sig.c_str(), gs));
   }
   if (c.kase % 7 == 0) { BM &B = *M[0]; int n = B.off.Last(); int what = r.i(0, 2); int res = forked([&]() { Vector x(n), y(n); x = 1.0; y = 0.0; if (what == 0) { BlockDSmoother s(*B.B, 1, 1); s.Mult(x, y); } else if (what == 1) { BlockDSmoother s(*B.B, 0, 2); s.Mult(x, y); } else { BlockGSSmoother s; DenseMatrix d(n); s.SetOperator(d); } return 0; }); c.check(res == 1, "unsupported-use-stops", fmt("%d result %d", what, res)); c.event("unsupported uses"); c.sig(fmt("unsupported|%d", what)); }
   c.sample(fmt("%s, %s, %s", M[0]->sig.c_str(), M[1]->sig.c_str(), M[2]->sig.c_str()));
}
VF_MAIN(1200, 40000)
