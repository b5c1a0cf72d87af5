// The reduced-order workflow (sampling, training, building, single runs) as the main program performs it, on generated problems.
#ifndef VERIF_ROM_GEN_HPP
#define VERIF_ROM_GEN_HPP
#include "solve_gen.hpp"
#include "main_workflow.hpp"
#include "linalg/BasisReader.h"
#include "hdf5_utils.hpp"
namespace vf { static const Sys *g_sys = NULL; static long g_problems = 0; }
// The workflow creates its problem by name; the link step redirects that call here (-Wl,--wrap).
extern "C" ParameterizedProblem *__wrap__Z24InitParameterizedProblemv() { vf::Prob *p = new vf::Prob; vf::fill_problem(*vf::g_sys, p); vf::g_problems++; return p; }
namespace vf {
struct Tag { std::string name, comp, var; int rank = 0, n = 0, sup = 0; DenseMatrix basis; };
struct Rom
{ // how one reduced model is built and used
   bool sep = false, byvar = false, listed = true; int level = 0, nx = 2, ny = 2; double lo[2] = {0.4, 0.5}, hi[2] = {1.2, 1.1}; std::string lin = "direct", type = "us", prec = "none", nl, more, dir, main = "  use_rom: true\n"; std::vector<Tag> tags; int nall = 1;
   std::string samples() const { return fmt("%s/run_sample", dir.c_str()); } // SampleGenerator::GetSamplePrefix
   std::string config(const Sys &s, double p0, double p1, bool rom = true) const
   {
      static const char *lv[] = {"none", "global", "component"};
      std::string y = fmt("single_run:\n  custom: {p0: %.17g, p1: %.17g}\nsample_generation:\n  maximum_number_of_snapshots: 400\n  file_path: {directory: %s, prefix: run}\n  parameters:\n", p0, p1, dir.c_str());
      for (int k = 0; k < 2; k++) { y += fmt("    - {key: single_run/custom/p%d, type: double, sample_size: %d, minimum: %.17g, maximum: %.17g}\n", k, k ? ny : nx, lo[k], hi[k]); }
      y += fmt("basis:\n  prefix: %s/basis\n  number_of_basis: %d\n", dir.c_str(), nall); if (listed && !tags.empty()) { y += "  tags:\n"; for (auto &t : tags) { y += fmt("    - {name: \"%s\", number_of_basis: %d", t.name.c_str(), t.n) + (t.sup ? fmt(", number_of_supremizer: %d}\n", t.sup) : std::string("}\n")); } }
      y += fmt("model_reduction:\n  separate_variable_basis: %s\n  ordering: %s\n  linear_solver_type: %s\n  linear_system_type: %s\n  preconditioner: %s\n  save_operator: {level: %s, prefix: %s/oper}\n", sep ? "true" : "false", byvar ? "variable" : "domain", lin.c_str(), type.c_str(), prec.c_str(), lv[level], dir.c_str()) + (nl.empty() ? "" : fmt("  nonlinear_handling: %s\n", nl.c_str())) + more;
      return sys_config(s, rom ? "  use_rom: true\n" : "  use_rom: false\n", y + fmt("save_solution:\n  enabled: true\n  file_path: {directory: %s, prefix: sol}\n", dir.c_str()));
   }
   std::string solution() const { return dir + "/sol.h5"; }
};
inline Vector read_vector(const std::string &file, const char *name)
{
   Vector v; hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { return v; } hid_t d = H5Dopen(f, name, H5P_DEFAULT); if (d >= 0) { hid_t sp = H5Dget_space(d); hssize_t n = H5Sget_simple_extent_npoints(sp); v.SetSize(n); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.GetData()); H5Sclose(sp); H5Dclose(d); } H5Fclose(f); return v;
}
inline int snapshot_rank(const std::string &file, double rel)
{
   CAROM::HDFDatabase db; if (!db.open(file + ".000000", "r")) { return -1; } int r, c; db.getInteger("snapshot_matrix_num_rows", r); db.getInteger("snapshot_matrix_num_cols", c); std::vector<double> v((size_t)r * c); db.getDoubleArray("snapshot_matrix", v.data(), r * c);
   CAROM::Matrix A(r, c, true), U(1, 1, true); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { A(i, j) = v[(size_t)i * c + j]; } CAROM::Vector S(1, false); CAROM::shim_svd(A, U, S); int k = 0; while (k < S.dim() && S(k) > rel * S(0) && S(k) > 0) { k++; } return k;
}
inline bool load_basis(const Rom &q, Tag &t)
{
   CAROM::BasisReader rd(q.dir + "/basis_" + t.name); auto M = rd.getSpatialBasis(t.n); DenseMatrix sup; int ns = 0;
   if (t.sup) { hid_t f = H5Fopen((q.dir + "/basis_" + t.comp + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { return false; } hdf5_utils::ReadDataset(f, "supremizer_basis", sup); H5Fclose(f); ns = sup.NumCols(); }
   if (t.sup > ns) { return false; } t.basis.SetSize(M->numRows(), t.n + t.sup); for (int i = 0; i < M->numRows(); i++) { for (int j = 0; j < t.n; j++) { t.basis(i, j) = (*M)(i, j); } for (int j = 0; j < t.sup; j++) { t.basis(i, t.n + j) = sup(i, j); } } return true;
}
// The reduced coordinates in the order subdomain by subdomain, variable by variable, against the solution vector stored subdomain by subdomain.
struct Lift { std::vector<int> tag, off, row; int N = 0, r = 0; };   // per block: its tag, first reduced and first full coordinate
inline Lift lift(const Rom &q, MultiBlockSolver &sv, int nv, const std::vector<std::string> &bt)
{
   Lift L; int nb = bt.size(); for (int k = 0; k < nb; k++) { int t = -1; for (size_t a = 0; a < q.tags.size(); a++) if (q.tags[a].name == bt[k]) { t = a; } L.tag.push_back(t); L.off.push_back(L.r); L.row.push_back(L.N); L.N += q.tags[t].basis.NumRows(); L.r += q.tags[t].basis.NumCols(); } return L;
}
inline Vector lift_up(const Rom &q, const Lift &L, const Vector &y) { Vector x(L.N); for (size_t k = 0; k < L.tag.size(); k++) { const DenseMatrix &B = q.tags[L.tag[k]].basis; Vector a(const_cast<double *>(y.GetData()) + L.off[k], B.NumCols()), b(x.GetData() + L.row[k], B.NumRows()); B.Mult(a, b); } return x; }
inline Vector project(const Rom &q, const Lift &L, const Vector &x) { Vector y(L.r); for (size_t k = 0; k < L.tag.size(); k++) { const DenseMatrix &B = q.tags[L.tag[k]].basis; Vector b(y.GetData() + L.off[k], B.NumCols()), a(const_cast<double *>(x.GetData()) + L.row[k], B.NumRows()); B.MultTranspose(a, b); } return y; }
// The solution vector stored by subdomains, split by variable (numbered block by block), and back.
inline void split_vars(MultiBlockSolver &sv, int nv, const Vector &U, Vector &u, Vector &p) { std::vector<double> a, b; int o = 0; for (int m = 0; m < sv.GetNumSubdomains(); m++) for (int v = 0; v < nv; v++) { int n = sv.GetGridFunction(m * nv + v)->Size(); for (int k = 0; k < n; k++) { (v ? b : a).push_back(U(o++)); } } u.SetSize(a.size()); p.SetSize(b.size()); for (size_t k = 0; k < a.size(); k++) { u(k) = a[k]; } for (size_t k = 0; k < b.size(); k++) { p(k) = b[k]; } }
inline void join_vars(MultiBlockSolver &sv, int nv, const Vector &u, const Vector &p, Vector &U) { U.SetSize(u.Size() + p.Size()); int o = 0, a = 0, b = 0; for (int m = 0; m < sv.GetNumSubdomains(); m++) for (int v = 0; v < nv; v++) { int n = sv.GetGridFunction(m * nv + v)->Size(); for (int k = 0; k < n; k++) { U(o++) = v ? p(b++) : u(a++); } } }
// K x for the linear part of the undecomposed equations, in block coordinates.
inline void apply_linear(const Sys &s, Ref &R, Residual &q, const Vector &u, const Vector &p, Vector &ru, Vector &rp)
{
   Vector x(R.U->GetVSize()), r(x.Size()); q.Qu->Mult(u, x); R.a->SpMat().Mult(x, r); if (s.saddle()) { Vector y(R.P->GetVSize()), z(y.Size()); q.Qp->Mult(p, y); R.b->SpMat().AddMultTranspose(y, r); R.b->SpMat().Mult(x, z); rp.SetSize(q.op.back()); q.Qp->MultTranspose(z, rp); } ru.SetSize(q.ou.back()); q.Qu->MultTranspose(r, ru);
}
inline void linear_load(const Sys &s, Ref &R, Residual &q, Vector &fu, Vector &fp) { fu.SetSize(q.ou.back()); q.Qu->MultTranspose(*R.f, fu); if (s.saddle()) { fp.SetSize(q.op.back()); q.Qp->MultTranspose(*R.g, fp); } }
inline double cond(const DenseMatrix &A) { CAROM::Matrix M(A.NumRows(), A.NumCols(), true), U(1, 1, true); for (int i = 0; i < A.NumRows(); i++) for (int j = 0; j < A.NumCols(); j++) { M(i, j) = A(i, j); } CAROM::Vector S(1, false); CAROM::shim_svd(M, U, S); double lo = S(S.dim() - 1); return lo > 0 ? S(0) / lo : 1e300; }
} // namespace vf
#endif
