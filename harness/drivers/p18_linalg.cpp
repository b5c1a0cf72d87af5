// Dense/sparse/tensor helpers: every result compared with a plain long double evaluation of the definition; inputs must come out unchanged.
#include "common.hpp"
#include "linalg_utils.hpp"
using namespace vf; using namespace mfem;
typedef long double ld;
// a size: usually small, sometimes well beyond
static int sz(Rng &r, int lo, int hi, int cap = 129) { if (!r.b(0.025)) { return r.i(lo, hi); } static const int big[] = {10, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129}; int v; do { v = big[r.i(0, 19)]; } while (v > cap); return v; }
void vf::setup(Ctx &) {}

static bool same(const Vector &a, const Vector &b) { if (a.Size() != b.Size()) { return false; } for (int k = 0; k < a.Size(); k++) { if (!biteq(a(k), b(k))) { return false; } } return true; }
static bool same(const DenseMatrix &a, const DenseMatrix &b)
{
   if (a.Height() != b.Height() || a.Width() != b.Width()) { return false; }
   for (int k = 0; k < a.Height() * a.Width(); k++) { if (!biteq(a.GetData()[k], b.GetData()[k])) { return false; } } return true;
}
static DenseMatrix full(Rng &r, int h, int w, double mag = 1) { DenseMatrix m(h, w); r.fill(m, -mag, mag); return m; }
static DenseMatrix rnd(Rng &r, int h, int w, double mag = 1) { DenseMatrix m(h, w); r.fill(m, -mag, mag); if (r.b(0.3)) { for (int k = 0; k < h * w; k++) { if (r.b(0.3)) { m.GetData()[k] = 0.0; } } } return m; } // often with exact zeros
static Vector rndv(Rng &r, int n, double mag = 1) { Vector v(n); r.fill(v, -mag, mag); if (r.b(0.3)) { for (int k = 0; k < n; k++) { if (r.b(0.3)) { v(k) = 0.0; } } } return v; }
static SparseMatrix *sparse(Rng &r, const DenseMatrix &d, bool fin = true, bool all = false) // all: keep zero entries in the pattern
{
   SparseMatrix *s = new SparseMatrix(d.Height(), d.Width());
   for (int z = 0; z < d.Height(); z++) { int i = d.Height() - 1 - z; for (int q = 0; q < d.Width(); q++) { int j = (q * 7 + 3) % d.Width(); if (d.Width() % 7 == 0) { j = q; } if (all || d(i, j) != 0.0) { s->Set(i, j, d(i, j)); } } }
   if (fin) { s->Finalize(all ? 0 : 1); } return s;
}
static DenseMatrix sparsify(Rng &r, DenseMatrix d, double keep) { for (int j = 0; j < d.Width(); j++) for (int i = 0; i < d.Height(); i++) { if (!r.b(keep)) { d(i, j) = 0.0; } } return d; }
static DenseMatrix dense(const SparseMatrix &s) { DenseMatrix d(s.Height(), s.Width()); if (s.Finalized()) { for (int i = 0; i < s.Height(); i++) for (int k = s.GetI()[i]; k < s.GetI()[i + 1]; k++) { d(i, s.GetJ()[k]) += s.GetData()[k]; } } else { for (int i = 0; i < s.Height(); i++) for (int j = 0; j < s.Width(); j++) { d(i, j) = const_cast<SparseMatrix &>(s).Elem(i, j); } } return d; }

struct Op : public Operator { DenseMatrix m; Op(const DenseMatrix &a) : Operator(a.Height(), a.Width()), m(a) {} void Mult(const Vector &x, Vector &y) const override { for (int i = 0; i < height; i++) { double t = 0; for (int j = 0; j < width; j++) { t += m(i, j) * x(j); } y(i) = t; } } };

static DenseMatrix rtap(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P, double &abs)
{
   DenseMatrix o(R.Width(), P.Width()); abs = 0;
   for (int i = 0; i < R.Width(); i++) for (int j = 0; j < P.Width(); j++)
   { ld t = 0, ta = 0; for (int a = 0; a < A.Height(); a++) for (int b = 0; b < A.Width(); b++) { ld v = (ld)R(a, i) * A(a, b) * P(b, j); t += v; ta += fabsl(v); } o(i, j) = t; abs = std::max(abs, (double)ta); }
   return o;
}
// Gram-Schmidt in long double (twice), after removing the span of the orthogonal columns of b
static DenseMatrix qr(const DenseMatrix &b, const DenseMatrix &m, double &mincos)
{
   int n = m.Height(); std::vector<std::vector<ld>> q; mincos = 1; DenseMatrix o(n, m.Width()); std::vector<std::vector<ld>> base;
   for (int c = 0; c < b.Width(); c++) { std::vector<ld> v(n); ld s = 0; for (int i = 0; i < n; i++) { v[i] = b(i, c); s += v[i] * v[i]; } s = sqrtl(s); for (auto &x : v) { x /= s; } base.push_back(v); }
   for (int c = 0; c < m.Width(); c++)
   {
      std::vector<ld> v(n); ld s0 = 0; for (int i = 0; i < n; i++) { v[i] = m(i, c); s0 += v[i] * v[i]; }
      for (int pass = 0; pass < 3; pass++) for (int g = 0; g < 2; g++) for (auto &u : g ? q : base) { ld d = 0; for (int i = 0; i < n; i++) { d += u[i] * v[i]; } for (int i = 0; i < n; i++) { v[i] -= d * u[i]; } }
      ld s = 0; for (auto x : v) { s += x * x; } mincos = std::min(mincos, (double)sqrtl(s / s0)); s = sqrtl(s); for (int i = 0; i < n; i++) { v[i] /= s; o(i, c) = v[i]; } q.push_back(v);
   }
   return o;
}
static std::vector<double> numbers(const std::string &file) { std::ifstream f(file); std::vector<double> o; std::string t, l; std::stringstream g; while (std::getline(f, l)) { if (l.empty() || l[0] != '%') { g << l << "\n"; } } while (g >> t) { o.push_back(strtod(t.c_str(), nullptr)); } return o; }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int nops = c.tier == "thorough" ? 60 : 30; const double tol = 1e-11;
   for (int op = 0; op < nops; op++)
   {
      int what = r.i(0, 12); double mag = r.b(0.05) ? r.pick<double>({1e-9, 1e-14, 1e-30, 1e10, 1e16, 1e100}) : r.pick<double>({1, 1, 1e6, 1e-6});
      if (what <= 1) // R^t A P in all its forms
      {
         int n = sz(r, 1, 9, 129), m = sz(r, 1, 9, 129), p = sz(r, 1, 6, 40), q = sz(r, 1, 6, 40); bool sq = r.b(0.3); if (sq) { m = n; } DenseMatrix R = rnd(r, n, p), P = rnd(r, m, q), A = sparsify(r, rnd(r, n, m, mag), r.pick<double>({1, 0.4, 0.0})); if (sq && r.b()) { q = p; P = R; }
         std::unique_ptr<Operator> O; int kind = r.i(0, 3); std::unique_ptr<SparseMatrix> sp; Array<int> ro, co; std::vector<std::unique_ptr<SparseMatrix>> bl;
         if (kind == 0) { O.reset(new DenseMatrix(A)); } else if (kind == 1) { O.reset(sparse(r, A)); } else if (kind == 2) { O.reset(new Op(A)); }
         else { int a = r.i(0, n), b = r.i(0, m); ro.SetSize(3); ro[0] = 0; ro[1] = a; ro[2] = n; co.SetSize(3); co[0] = 0; co[1] = b; co[2] = m; BlockMatrix *B = new BlockMatrix(ro, co); O.reset(B);
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int h = ro[i + 1] - ro[i], w = co[j + 1] - co[j]; if (!h || !w) { continue; } DenseMatrix d(h, w); d.CopyMN(A, h, w, ro[i], co[j]); bl.emplace_back(sparse(r, d)); B->SetBlock(i, j, bl.back().get()); } }
         double abs; DenseMatrix want = rtap(R, A, P, abs), R0(R), P0(P); bool alias = P.Height() == R.Height() && same(P, R) && r.b(); DenseMatrix &PP = alias ? R : P; std::string s = fmt("%dx%d by %dx%d operator %d", n, m, p, q, kind); abs = std::max(abs, 1e-280); int form = r.i(0, 4);
         if (form == 0) { DenseMatrix o = rnd(r, r.i(1, 5), r.i(1, 5)); RtAP(R, *O, PP, o); c.closeMat(o, want, tol, "projection", s, abs); }
         else if (form == 1) { std::unique_ptr<DenseMatrix> o(DenseRtAP(R, *O, PP)); c.closeMat(*o, want, tol, "dense-projection", s, abs); }
         else if (form == 2) { std::unique_ptr<SparseMatrix> o(SparseRtAP(R, *O, PP)); if (c.check(o->Finalized(), "sparse-projection-finalized", s)) { c.closeMat(dense(*o), want, tol, "sparse-projection", s, abs); } }
         else
         {
            double w = r.pick<double>({1, 0, -1, r.u(-3, 3)}); bool def = r.b(0.2); if (def) { w = 1; } DenseMatrix o = rnd(r, p, q, mag), x(o); for (int i = 0; i < p * q; i++) { x.GetData()[i] += w * want.GetData()[i]; }
            if (form == 3) { if (def) { AddwRtAP(R, *O, PP, o); } else { AddwRtAP(R, *O, PP, o, w); } c.closeMat(o, x, tol, "added-projection", s, abs + mag); }
            else { std::unique_ptr<SparseMatrix> os(sparse(r, o, r.b(), true)); if (def) { AddwRtAP(R, *O, PP, *os); } else { AddwRtAP(R, *O, PP, *os, w); } os->Finalize(); c.closeMat(dense(*os), x, tol, "added-sparse-projection", s, abs + mag); }
         }
         c.check(same(R, R0) && same(P, P0), "bases-unchanged", s); c.event("projections"); c.sig(fmt("rtap|%d|%d|%d|%d%d|%d", form, kind, std::min(n, 3) * 10 + std::min(m, 3), p == q, sq, alias));
      }
      else if (what == 2) // orthonormalisation
      {
         int n = sz(r, 1, 14, 129), k1 = r.i(0, std::min(6, n - 1)), k = r.i(1, std::max(1, std::min(7, n - k1))); if (n >= 25 && r.b(0.6)) { k = r.i(8, std::min(n - k1, 48)); if (r.b(0.3)) { k1 = r.i(1, n - k); } } if (k1 + k > n) { k1 = 0; } DenseMatrix a0 = full(r, n, std::max(k1, 1)), b; double mc, mc2;
         DenseMatrix none(n, 0), a = k1 ? qr(none, a0, mc2) : none; for (int j = 0; j < k1; j++) { double f = r.pick<double>({1, r.u(0.1, 5), 1e-4, 1e4}); for (int i = 0; i < n; i++) { a(i, j) *= f; } } // orthogonal, not normalised
         DenseMatrix m = full(r, n, k, mag), want = qr(a, m, mc), a1(a), got(m); bool gs = k1 == 0 && r.b(); if (k1 && r.b(0.2)) { continue; }
         if (gs) { modifiedGramSchmidt(got); } else { Orthonormalize(a, got); } std::string s = fmt("%d rows, %d given, %d columns, conditioning %.1e", n, k1, k, mc);
         if (mc > 1e-3) { c.closeMat(got, want, 1e-9 / (mc * mc) * 1e-1, gs ? "gram-schmidt" : "orthonormalize", s, 1.0); c.event("orthonormalisations"); c.sig(fmt("orth|%d|%d|%d|%d", gs, std::min(n, 8), k1, k)); }
         c.check(same(a, a1), "given-basis-unchanged", s);
         if (n - k1 >= 4)
         { // nearly parallel columns: orthogonality may be lost in proportion to the conditioning, not to its square
            int kk = std::min(3 + r.i(0, 2), n - k1 - 1); double d = r.pick<double>({1e-5, 1e-6, 1e-7}); DenseMatrix base = full(r, n, kk + 1), G(n, kk); for (int j = 0; j < kk; j++) for (int i = 0; i < n; i++) { G(i, j) = base(i, 0) + d * base(i, j + 1); }
            DenseMatrix G0(G); modifiedGramSchmidt(G); double loss = 0, res = 0; for (int i = 0; i < kk; i++) for (int j = 0; j < kk; j++) { ld t = 0; for (int z = 0; z < n; z++) { t += (ld)G(z, i) * G(z, j); } loss = std::max(loss, std::fabs((double)t - (i == j))); }
            double bc; qr(none, base, bc); if (kk >= 3 && bc > 0.03) { for (int j = 0; j < kk; j++) { std::vector<ld> v(n); for (int z = 0; z < n; z++) { v[z] = G0(z, j); } for (int pass = 0; pass < 4; pass++) for (int q = 0; q <= j; q++) { ld t = 0; for (int z = 0; z < n; z++) { t += (ld)G(z, q) * v[z]; } for (int z = 0; z < n; z++) { v[z] -= t * G(z, q); } } for (int z = 0; z < n; z++) { res = std::max(res, (double)fabsl(v[z])); } }
               c.check(loss <= 1e-12 / d, "orthogonality-of-near-parallel-columns", fmt("%d columns of %d rows, distance %.0e: %.2e", kk, n, d, loss)); c.check(res <= 1e-11, "near-parallel-columns-spanned", fmt("%.2e", res)); c.event("near-parallel sets"); double &mx = c.maxima["orthogonality loss x distance"]; mx = std::max(mx, loss * d); }
         }
      }
      else if (what <= 4) // products with selected rows
      {
         int n = sz(r, 1, 12, 129), w = sz(r, 1, 7, 65), ns = sz(r, 1, 9, 129); DenseMatrix M = rnd(r, n, w, mag), M0(M); Array<int> rows(ns); for (int i = 0; i < ns; i++) { rows[i] = r.i(0, n - 1); } if (r.b(0.2)) { rows[r.i(0, ns - 1)] = n - 1; rows[r.i(0, ns - 1)] = 0; } std::string s = fmt("%dx%d, %d rows", n, w, ns); int form = r.i(0, 2);
         if (form == 0) { Vector x = rndv(r, w), y = rndv(r, r.i(1, 12)), e(ns); for (int i = 0; i < ns; i++) { ld t = 0; for (int j = 0; j < w; j++) { t += (ld)M(rows[i], j) * x(j); } e(i) = t; } Vector x0(x); MultSubMatrix(M, rows, x, y); c.closeVec(y, e, tol, "row-product", s, w * mag); c.check(same(x, x0), "vector-unchanged"); }
         else { Vector x = rndv(r, ns), y = rndv(r, w, mag), e(w); for (int j = 0; j < w; j++) { ld t = form == 1 ? (ld)y(j) : 0; for (int i = 0; i < ns; i++) { t += (ld)M(rows[i], j) * x(i); } e(j) = t; } if (form == 1) { AddMultTransposeSubMatrix(M, rows, x, y); } else { MultTransposeSubMatrix(M, rows, x, y); } c.closeVec(y, e, tol, form == 1 ? "added-row-transpose-product" : "row-transpose-product", s, ns * mag); }
         c.check(same(M, M0), "matrix-unchanged"); c.event("row products"); c.sig(fmt("rows|%d|%d|%d|%d", form, n, w, ns));
      }
      else if (what <= 6) // R[rows]^t A P[rows]
      {
         int n = sz(r, 1, 12, 129), m = sz(r, 1, 12, 129), p = sz(r, 1, 5, 40), q = sz(r, 1, 5, 40), a = sz(r, 1, 7, 40), b = sz(r, 1, 7, 40); DenseMatrix R = rnd(r, n, p), P = rnd(r, m, q), A = rnd(r, a, b, mag), Rs(a, p), Ps(b, q); Array<int> rr(a), pr(b); for (int i = 0; i < a; i++) { rr[i] = r.i(0, n - 1); for (int j = 0; j < p; j++) { Rs(i, j) = R(rr[i], j); } } for (int i = 0; i < b; i++) { pr[i] = r.i(0, m - 1); for (int j = 0; j < q; j++) { Ps(i, j) = P(pr[i], j); } }
         double abs; DenseMatrix want = rtap(Rs, A, Ps, abs), o = rnd(r, p, q, mag), x(o), R0(R), P0(P), A0(A); for (int i = 0; i < p * q; i++) { x.GetData()[i] += want.GetData()[i]; } int form = r.i(0, 2); std::string s = fmt("%dx%d of %dx%d", a, b, n, m);
         if (form == 0) { AddSubMatrixRtAP(R, rr, A, P, pr, o); c.closeMat(o, x, tol, "added-row-projection", s, abs + mag); }
         else if (form == 1) { std::unique_ptr<SparseMatrix> os(r.b(0.3) ? new SparseMatrix(p, q) : sparse(r, o, r.b(), true)); bool empty = os->NumNonZeroElems() == 0; if (empty && !os->Finalized()) { x = want; } AddSubMatrixRtAP(R, rr, A, P, pr, *os); AddSubMatrixRtAP(R, rr, A, P, pr, *os); x += want; os->Finalize(); c.closeMat(dense(*os), x, tol, "added-sparse-row-projection", s, 2 * abs + mag); }
         else { DenseMatrix fresh; AddSubMatrixRtAP(R, rr, A, P, pr, fresh); c.closeMat(fresh, want, tol, "row-projection-into-new-matrix", s, abs); }
         c.check(same(R, R0) && same(P, P0) && same(A, A0), "bases-unchanged", s); c.event("row projections"); c.sig(fmt("subrtap|%d|%d%d|%d%d", form, std::min(p, 3), std::min(q, 3), std::min(a, 3), std::min(b, 3)));
      }
      else if (what <= 8) // tensors
      {
         int I = sz(r, 1, 5, 40), J = sz(r, 1, 5, 40), K = sz(r, 1, 5, 40); if (r.b(0.3)) { J = I; } if (r.b(0.2)) { I = J = K; } DenseTensor T(I, J, K); for (int k = 0; k < I * J * K; k++) { T.Data()[k] = r.u(-mag, mag); } Vector t0(I * J * K); for (int k = 0; k < I * J * K; k++) { t0(k) = T.Data()[k]; }
         Vector xi = rndv(r, I), xj = rndv(r, J), xk = rndv(r, K); double w = r.pick<double>({1, 0, -1, r.u(-3, 3)}); int form = r.i(0, 7); std::string s = fmt("%dx%dx%d", I, J, K); auto t = [&](int i, int j, int k) { return (ld)t0(i + I * (j + J * k)); }; double sc = I * J * mag;
         if (form <= 1)
         {
            Vector y = rndv(r, form == 0 ? r.i(1, 7) : K, mag), e(K); if (I == J && r.b(0.3)) { xj = xi; } for (int k = 0; k < K; k++) { ld a = form == 0 ? 0 : (ld)y(k); for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) { a += (form == 0 ? 1 : w) * t(i, j, k) * xi(i) * xj(j); } e(k) = a; }
            if (form == 0) { TensorContract(T, xi, xj, y); } else { TensorAddScaledContract(T, w, xi, xj, y); } c.closeVec(y, e, tol, form == 0 ? "tensor-contract" : "tensor-add-scaled-contract", s, sc);
         }
         else if (form == 2) { DenseMatrix M = rnd(r, I, J), e(I, J); for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) { ld a = 0; for (int k = 0; k < K; k++) { a += t(i, j, k) * xk(k); } e(i, j) = a; } TensorMult(T, xk, M); c.closeMat(M, e, tol, "tensor-mult", s, K * mag); }
         else if (form == 3) { DenseMatrix M = rnd(r, I, K, mag), e(I, K); for (int i = 0; i < I; i++) for (int k = 0; k < K; k++) { ld a = M(i, k); for (int j = 0; j < J; j++) { a += t(i, j, k) * xj(j); } e(i, k) = a; } TensorAddMultOnJ(T, xj, M); c.closeMat(M, e, tol, "tensor-mult-on-second", s, J * mag); }
         else
         {
            int ax = form & 1; bool scaled = form >= 6; DenseMatrix M = rnd(r, K, ax ? I : J, mag), e(M); double f = scaled ? w : 1;
            for (int k = 0; k < K; k++) for (int z = 0; z < (ax ? I : J); z++) { ld a = M(k, z); for (int y = 0; y < (ax ? J : I); y++) { a += f * (ax ? t(z, y, k) * xj(y) : t(y, z, k) * xi(y)); } e(k, z) = a; }
            if (scaled) { TensorAddScaledMultTranspose(T, w, ax ? xj : xi, ax, M); } else { TensorAddMultTranspose(T, ax ? xj : xi, ax, M); } c.closeMat(M, e, tol, fmt("tensor-transpose-axis%d%s", ax, scaled ? "-scaled" : ""), s, (I + J) * mag);
         }
         bool ok = true; for (int k = 0; k < I * J * K; k++) { ok = ok && biteq(T.Data()[k], t0(k)); } c.check(ok, "tensor-unchanged"); c.event("tensor products"); c.sig(fmt("tensor|%d|%d%d%d", form, I, J, K));
      }
      else if (what == 9) // adding blocks to a block matrix, copying block collections
      {
         int nr = sz(r, 1, 4, 10), nc = sz(r, 1, 4, 10); Array<int> ro(nr + 1), co(nc + 1); ro[0] = co[0] = 0; for (int i = 0; i < nr; i++) { ro[i + 1] = ro[i] + r.i(1, 4); } for (int i = 0; i < nc; i++) { co[i + 1] = co[i] + r.i(1, 4); } BlockMatrix B(ro, co); B.owns_blocks = true; DenseMatrix want(ro.Last(), co.Last());
         std::set<std::pair<int, int>> have; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { if (r.b(0.3)) { int h = ro[i + 1] - ro[i], w = co[j + 1] - co[j]; DenseMatrix d = sparsify(r, rnd(r, h, w, mag), 0.7); B.SetBlock(i, j, sparse(r, d, false)); want.CopyMN(d, ro[i], co[j]); have.insert({i, j}); } }
         int adds = sz(r, 1, 3, 25); std::string s = fmt("%dx%d blocks, %d additions", nr, nc, adds);
         for (int z = 0; z < adds; z++)
         {
            int a = r.i(1, nr), b = r.i(1, nc); std::vector<int> ri, ci; for (int i = 0; i < nr; i++) { ri.push_back(i); } for (int i = 0; i < nc; i++) { ci.push_back(i); } for (int i = nr - 1; i > 0; i--) { std::swap(ri[i], ri[r.i(0, i)]); } for (int i = nc - 1; i > 0; i--) { std::swap(ci[i], ci[r.i(0, i)]); }
            Array<int> ridx(a), cidx(b); for (int i = 0; i < a; i++) { ridx[i] = ri[i]; } for (int i = 0; i < b; i++) { cidx[i] = ci[i]; } MatrixBlocks mats(a, b); std::vector<DenseMatrix> keep;
            for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { int h = ro[ridx[i] + 1] - ro[ridx[i]], w = co[cidx[j] + 1] - co[cidx[j]]; DenseMatrix d(h, w); if (r.b(0.75)) { d = sparsify(r, rnd(r, h, w, mag), 0.7); mats(i, j) = sparse(r, d); have.insert({ridx[i], cidx[j]}); for (int p = 0; p < h; p++) for (int q = 0; q < w; q++) { want(ro[ridx[i]] + p, co[cidx[j]] + q) += d(p, q); } } keep.push_back(d); }
            int how = r.i(0, 2); if (how == 0) { AddToBlockMatrix(ridx, cidx, mats, B); }
            else { std::unique_ptr<MatrixBlocks> cp; if (how == 1) { cp.reset(new MatrixBlocks(r.i(1, 2), r.i(1, 2))); (*cp)(0, 0) = new SparseMatrix(2, 2); *cp = mats; } else { cp.reset(new MatrixBlocks(mats)); } if (r.b()) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (mats(i, j)) { *mats(i, j) *= 2.0; } } } if (r.b()) { mats.SetSize(r.i(1, 3), r.i(1, 3)); } c.check(cp->nrows == a && cp->ncols == b, "copy-shape"); AddToBlockMatrix(ridx, cidx, *cp, B); }
            if (how == 0) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (mats(i, j)) { c.check(same(dense(*mats(i, j)), keep[i * b + j]), "added-blocks-unchanged", s); } } }
         }
         for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { bool z = B.IsZeroBlock(i, j); c.check(z == !have.count({i, j}), "block-present", s); if (!z) { DenseMatrix w(ro[i + 1] - ro[i], co[j + 1] - co[j]); w.CopyMN(want, w.Height(), w.Width(), ro[i], co[j]); B.GetBlock(i, j).Finalize(); c.closeMat(dense(B.GetBlock(i, j)), w, 1e-14, "block-sum", s, mag); } }
         c.event("block additions"); c.sig(fmt("blocks|%d%d|%d", nr, nc, adds));
      }
      else if (what == 10) // text output, selected basis entries
      {
         int n = sz(r, 1, 8, 129), w = sz(r, 1, 5, 65); DenseMatrix M = rnd(r, n, w, r.pick<double>({1, 1e200, 1e-200})); if (r.b(0.3)) { M(0, 0) = 0; } std::string f = c.path("out.txt");
         PrintMatrix(M, f); std::vector<double> v = numbers(f); bool ok = (int)v.size() == n * w; for (int i = 0; ok && i < n * w; i++) { ok = std::fabs(v[i] - M(i / w, i % w)) <= 2e-15 * std::fabs(M(i / w, i % w)); } c.check(ok, "printed-matrix", fmt("%dx%d", n, w));
         Vector x; M.GetColumn(r.i(0, w - 1), x); PrintVector(x, f); v = numbers(f); ok = (int)v.size() == n; for (int i = 0; ok && i < n; i++) { ok = std::fabs(v[i] - x(i)) <= 2e-15 * std::fabs(x(i)); } c.check(ok, "printed-vector", fmt("%d", n));
         std::unique_ptr<SparseMatrix> sp(sparse(r, sparsify(r, rnd(r, n, w), 0.6))); { sp->Finalize(); PrintMatrix(*sp, f); v = numbers(f); DenseMatrix d = dense(*sp), g(n, w); ok = v.size() % 3 == 0; for (size_t i = 0; ok && i + 2 < v.size(); i += 3) { int a = (int)v[i] - 1, b = (int)v[i + 1] - 1; ok = a >= 0 && a < n && b >= 0 && b < w; if (ok) { g(a, b) += v[i + 2]; } } if (c.check(ok, "printed-sparse-layout")) { c.closeMat(g, d, 1e-10, "printed-sparse", "", 1.0); } }
         int col = r.i(0, w - 1), ns = sz(r, 1, 9, 129); Array<int> vd(ns); Vector e(ns), g = rndv(r, r.i(0, 9)); for (int i = 0; i < ns; i++) { int d = r.i(0, n - 1); bool neg = r.b(0.2); vd[i] = neg ? -1 - d : d; e(i) = neg ? -M(d, col) : M(d, col); } DenseMatrix M0(M); GetBasisElement(M, col, vd, g); c.check(same(g, e), "basis-entries", fmt("%d of %d", ns, n)); g *= 3.0; c.check(same(M, M0), "basis-unchanged"); c.event("files and basis entries"); c.sig(fmt("io|%d|%d|%d", n, w, std::min(ns, 4)));
      }
      else if (what == 11) // helpers on the reduction library's own matrices and vectors
      {
         int n = sz(r, 1, 7, 129), m = sz(r, 1, 7, 129), p = sz(r, 1, 4, 40), q = sz(r, 1, 4, 40); DenseMatrix A = rnd(r, n, m, mag), Bm = rnd(r, m, q), Cm = rnd(r, n, p); auto car = [](const DenseMatrix &d, bool dist) { CAROM::Matrix o(d.Height(), d.Width(), dist); for (int i = 0; i < d.Height(); i++) for (int j = 0; j < d.Width(); j++) { o(i, j) = d(i, j); } return o; };
         auto eq = [](const CAROM::Matrix &a, const DenseMatrix &b, double t) { bool ok = a.numRows() == b.Height() && a.numColumns() == b.Width(); for (int i = 0; ok && i < b.Height(); i++) for (int j = 0; ok && j < b.Width(); j++) { ok = t == 0 ? biteq(a(i, j), b(i, j)) : std::fabs(a(i, j) - b(i, j)) <= t; } return ok; };
         CAROM::Matrix cb = car(Bm, true), cc = car(Cm, true), o(p, q, false); double ab; DenseMatrix e = rtap(Cm, A, Bm, ab); Op O(A); CAROM::ComputeCtAB(O, cb, cc, o); c.check(eq(o, e, tol * ab + 1e-300), "projected-operator-of-library-bases", fmt("%dx%d bases %d %d", n, m, p, q)); c.check(eq(cb, Bm, 0) && eq(cc, Cm, 0), "library-bases-unchanged");
         DenseMatrix G = rnd(r, n, m); int i0 = r.i(0, n - 1), j0 = r.i(0, m - 1), bh = r.i(1, n - i0), bw = r.i(1, m - j0); DenseMatrix Bk = rnd(r, bh, bw); CAROM::Matrix cg = car(G, false); CAROM::SetBlock(car(Bk, false), i0, i0 + bh, j0, j0 + bw, cg); DenseMatrix Ge(G); for (int i = 0; i < bh; i++) for (int j = 0; j < bw; j++) { Ge(i0 + i, j0 + j) = Bk(i, j); } c.check(eq(cg, Ge, 0), "library-matrix-block", fmt("%dx%d at %d,%d of %dx%d", bh, bw, i0, j0, n, m));
         Vector gv = rndv(r, n), bv = rndv(r, bh); CAROM::Vector cv(gv.GetData(), n, false), cbv(bv.GetData(), bh, false); CAROM::SetBlock(cbv, i0, i0 + bh, cv); bool ok = true; for (int i = 0; i < n; i++) { ok = ok && biteq(cv(i), i >= i0 && i < i0 + bh ? bv(i - i0) : gv(i)); } c.check(ok, "library-vector-block");
         DenseMatrix D = rnd(r, r.i(1, 5), r.i(1, 5)); CAROM::CopyMatrix(cc, D); c.check(same(D, Cm), "copy-from-library-matrix", fmt("%dx%d", n, p));
         std::string f = c.path("lib.txt"); CAROM::PrintMatrix(cc, f); std::vector<double> v = numbers(f); ok = (int)v.size() == n * p; for (int i = 0; ok && i < n * p; i++) { ok = std::fabs(v[i] - Cm(i / p, i % p)) <= 2e-15 * std::fabs(Cm(i / p, i % p)); } c.check(ok, "printed-library-matrix", fmt("%dx%d", n, p));
         CAROM::PrintVector(cv, f); v = numbers(f); ok = (int)v.size() == n; for (int i = 0; ok && i < n; i++) { ok = std::fabs(v[i] - cv(i)) <= 2e-15 * std::fabs(cv(i)); } c.check(ok, "printed-library-vector");
         c.event("library matrix helpers"); c.sig(fmt("carom|%d%d|%d%d", n > 1, m > 1, p, q));
      }
      else // sparse matrix file
      {
         int n = sz(r, 1, 9, 129), w = sz(r, 1, 9, 65); std::unique_ptr<SparseMatrix> sp(sparse(r, sparsify(r, rnd(r, n, w, mag), r.pick<double>({0.0, 0.1, 0.5, 1.0})))); sp->Finalize(); if (sp->NumNonZeroElems() == 0) { continue; } std::string f = c.path("sp.h5");
         WriteSparseMatrixToHDF(sp.get(), f); std::unique_ptr<SparseMatrix> b(ReadSparseMatrixFromHDF(f)); c.check(b->Height() == n && b->Width() == w && b->Finalized() && same(dense(*b), dense(*sp)), "sparse-file", fmt("%dx%d with %d entries", n, w, sp->NumNonZeroElems()));
         c.event("sparse files"); c.sig(fmt("spfile|%d|%d", n, std::min(3, sp->NumNonZeroElems() / n)));
      }
   }
   c.sample(fmt("%d operations", nops));
}
VF_MAIN(1600, 40000)
