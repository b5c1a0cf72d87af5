#include "common.hpp"
#include "hdf5_utils.hpp"
#include <climits>
using namespace mfem; using namespace vf;

static double hostile(Rng &r)
{
   static const double sp[] = {0.0, -0.0, 1e-310, -4.9e-324, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 1.0/3.0, -1e-17, 123456789.123456789};
   return r.b(0.3) ? sp[r.i(0, 10)] : (r.b() ? r.u(-1, 1) : r.u(-1, 1) * std::pow(10.0, r.i(-200, 200)));
}
static int hostileI(Rng &r) { static const int sp[] = {0, -1, INT_MIN, INT_MAX, 65536, -65537}; return r.b(0.3) ? sp[r.i(0, 5)] : (int)r.next(); }
static std::string hostileS(Rng &r)
{
   int n = r.pick<int>({0, 1, 7, 15, 16, 17, 31, 40, 255, 1000, 4097}); std::string s;
   for (int k = 0; k < n; k++) { s += (char)r.i(1, 255); }
   if (r.b(0.2)) { s = "with space/and.dots_" + s; }
   return s;
}
static int dimn(Rng &r) { return r.pick<int>({1, 1, 2, 3, 4, 5, 7, 8, 16, 33}); }
// sizes beyond the everyday ones: around powers of two, rounds of ten, and more than one I/O chunk
static int dim1(Rng &r) { return r.b(0.06) ? r.pick<int>({63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 8193, 10000, 16385, 65536, 65537, 100001}) : dimn(r); }
static void dim2(Rng &r, int &m, int &n, int cap = 100000)
{
   m = dimn(r); n = dimn(r);
   if (r.b(0.06)) { do { m = dim1(r); } while (m > cap); n = m > 600 ? r.i(1, 4) : r.pick<int>({1, 2, 3, 33, 64, 65, 100}); if (r.b()) { std::swap(m, n); } }
}
static std::string dcls(int n) { return n == 0 ? "0" : n == 1 ? "1" : n < 5 ? "s" : n < 60 ? "L" : n < 1000 ? "XL" : "XXL"; }

static SparseMatrix *rsparse(Rng &r, int h, int w, bool allow_empty)
{
   SparseMatrix *m = new SparseMatrix(h, w); double dens = r.pick<double>({0.05, 0.3, 1.0}); int nn = 0;
   for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (r.b(dens)) { m->Set(i, j, r.b(0.1) ? 0.0 : r.u(-3, 3)); nn++; }
   if (!nn && !allow_empty) { m->Set(r.i(0, h - 1), r.i(0, w - 1), 1.5); }
   m->Finalize(0); return m;
}
// same operator, entry by entry, bit exact; and same stored pattern
static bool eqs(const SparseMatrix &a, const SparseMatrix &b)
{
   if (a.Height() != b.Height() || a.Width() != b.Width() || !a.Finalized()) { return false; }
   DenseMatrix da, db; a.ToDenseMatrix(da); b.ToDenseMatrix(db);
   for (int j = 0; j < a.Width(); j++) for (int i = 0; i < a.Height(); i++) if (!(biteq(da(i, j), db(i, j)) || (da(i, j) == 0 && db(i, j) == 0))) { return false; }
   return a.NumNonZeroElems() == b.NumNonZeroElems();
}

struct Item { std::string kind, grp, name, shape; std::function<void(hid_t &)> write; std::function<bool(hid_t &, Rng &, bool, std::string &)> verify; };

#define D(x) std::make_shared<x>
template <class T> using sp = std::shared_ptr<T>;

// a table without entries, as other programs write it
static void empty2(hid_t g, const std::string &nm, int m, int n, hid_t type) { hsize_t d[2] = {(hsize_t)m, (hsize_t)n}; hid_t s = H5Screate_simple(2, d, NULL), v = H5Dcreate2(g, nm.c_str(), type, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dclose(v); H5Sclose(s); }

static Item make(Rng &r, int kind, const std::string &nm)
{
   Item it; it.name = nm;
   switch (kind)
   {
      case 0: { int v = hostileI(r); it.kind = "attr-int"; it.shape = "-"; it.write = [=](hid_t &g) { hdf5_utils::WriteAttribute(g, nm, v); };
            it.verify = [=](hid_t &g, Rng &, bool, std::string &) { int x = ~v; hdf5_utils::ReadAttribute(g, nm, x); return x == v; }; break; }
      case 1: { double v = hostile(r); it.kind = "attr-double"; it.shape = std::isfinite(v) ? "fin" : "nonfin"; it.write = [=](hid_t &g) { hdf5_utils::WriteAttribute(g, nm, v); };
            it.verify = [=](hid_t &g, Rng &, bool, std::string &) { double x = 42; hdf5_utils::ReadAttribute(g, nm, x); return biteq(x, v); }; break; }
      case 2: { bool v = r.b(); it.kind = "attr-bool"; it.shape = v ? "t" : "f"; it.write = [=](hid_t &g) { hdf5_utils::WriteAttribute(g, nm, v); };
            it.verify = [=](hid_t &g, Rng &, bool, std::string &) { bool x = !v; hdf5_utils::ReadAttribute(g, nm, x); return x == v; }; break; }
      case 3: { std::string v = hostileS(r); it.kind = "attr-string"; it.shape = fmt("%zu", v.size()); it.write = [=](hid_t &g) { hdf5_utils::WriteAttribute(g, nm, v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &d) { std::string x = dirty ? hostileS(q) : ""; hdf5_utils::ReadAttribute(g, nm, x); d = fmt("len %zu vs %zu", x.size(), v.size()); return x == v; }; break; }
      case 4: { BasisTag v(hostileS(r), r.b() ? "" : hostileS(r)); it.kind = "attr-tag"; it.shape = v.var == "" ? "novar" : "var"; it.write = [=](hid_t &g) { hdf5_utils::WriteAttribute(g, nm, v); };
            it.verify = [=](hid_t &g, Rng &, bool dirty, std::string &) { BasisTag x; if (dirty) { x = BasisTag("a", "b"); } hdf5_utils::ReadAttribute(g, nm, x); return x.comp == v.comp && x.var == v.var && x == v && x.print() == v.print(); }; break; }
      case 5: { int n = r.b(0.2) ? 0 : dim1(r); auto v = D(Array<int>)(n); for (int &x : *v) { x = hostileI(r); } it.kind = "array-int"; it.shape = dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &d) { Array<int> x; if (dirty) { x.SetSize(q.i(1, 40)); x = 77; } hdf5_utils::ReadDataset(g, nm, x); d = fmt("size %d vs %d", x.Size(), n);
               if (x.Size() != n) { return false; } for (int k = 0; k < n; k++) if (x[k] != (*v)[k]) { return false; } 
               if (n) { hsize_t *dims = nullptr; int nd = hdf5_utils::GetDatasetSize(g, nm, dims); bool ok = nd == 1 && (int)dims[0] == n; delete[] dims; return ok; } return true; }; break; }
      case 6: { int n = r.b(0.2) ? 0 : dim1(r); auto v = D(Array<double>)(n); for (double &x : *v) { x = hostile(r); } it.kind = "array-double"; it.shape = dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { Array<double> x; if (dirty) { x.SetSize(q.i(1, 40)); x = 77; } hdf5_utils::ReadDataset(g, nm, x);
               if (x.Size() != n) { return false; } for (int k = 0; k < n; k++) if (!biteq(x[k], (*v)[k])) { return false; } return true; }; break; }
      case 7: { int n = r.b(0.2) ? 0 : dim1(r); auto v = D(Array<bool>)(n); for (bool &x : *v) { x = r.b(); } it.kind = "array-bool"; it.shape = dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &, bool, std::string &) { Array<bool> x; hdf5_utils::ReadDataset(g, nm, x);
               if (x.Size() != n) { return false; } for (int k = 0; k < n; k++) if (x[k] != (*v)[k]) { return false; } return true; }; break; }
      case 8: { int m, n; dim2(r, m, n); bool none = r.b(0.15); if (none) { (r.b() ? m : n) = 0; } auto v = D(Array2D<int>)(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { (*v)(i, j) = hostileI(r); } it.kind = "array2d-int"; it.shape = dcls(m) + dcls(n);
            it.write = [=](hid_t &g) { if (none) { empty2(g, nm, m, n, H5T_NATIVE_INT); } else { hdf5_utils::WriteDataset(g, nm, *v); } };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { Array2D<int> x; if (dirty) { x.SetSize(q.i(1, 9), q.i(1, 9)); x = 5; } hdf5_utils::ReadDataset(g, nm, x);
               if (x.NumRows() != m || x.NumCols() != n) { return false; } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (x(i, j) != (*v)(i, j)) { return false; } return true; }; break; }
      case 9: { int m, n; dim2(r, m, n); bool none = r.b(0.15); if (none) { (r.b() ? m : n) = 0; } auto v = D(Array2D<double>)(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { (*v)(i, j) = hostile(r); } it.kind = "array2d-double"; it.shape = dcls(m) + dcls(n);
            it.write = [=](hid_t &g) { if (none) { empty2(g, nm, m, n, H5T_NATIVE_DOUBLE); } else { hdf5_utils::WriteDataset(g, nm, *v); } };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { Array2D<double> x; if (dirty) { x.SetSize(q.i(1, 9), q.i(1, 9)); x = 5; } hdf5_utils::ReadDataset(g, nm, x);
               if (x.NumRows() != m || x.NumCols() != n) { return false; } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!biteq(x(i, j), (*v)(i, j))) { return false; } return true; }; break; }
      case 10: { int n = dim1(r); auto v = D(Vector)(n); for (int k = 0; k < n; k++) { (*v)(k) = hostile(r); } it.kind = "vector"; it.shape = dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { Vector x; if (dirty) { x.SetSize(q.i(1, 60)); x = 5; } hdf5_utils::ReadDataset(g, nm, x);
               if (x.Size() != n) { return false; } for (int k = 0; k < n; k++) if (!biteq(x(k), (*v)(k))) { return false; } return true; }; break; }
      case 11: { int m, n; dim2(r, m, n); auto v = D(DenseMatrix)(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { (*v)(i, j) = hostile(r); } it.kind = "dense"; it.shape = dcls(m) + dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &d) { DenseMatrix x; if (dirty) { x.SetSize(q.i(1, 40), q.i(1, 40)); x = 5; } hdf5_utils::ReadDataset(g, nm, x); d = fmt("%dx%d vs %dx%d", x.Height(), x.Width(), m, n);
               if (x.Height() != m || x.Width() != n) { return false; } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!biteq(x(i, j), (*v)(i, j))) { return false; } return true; }; break; }
      case 12: { int m = dimn(r), n = dimn(r), l = r.b(0.1) ? r.pick<int>({7, 8, 9, 10, 16, 33, 65, 129}) : r.i(1, 6); if (l > 6) { m = std::min(m, 8); n = std::min(n, 8); } else if (r.b(0.05)) { (r.b() ? m : n) = r.pick<int>({64, 65, 100, 129}); } auto v = D(DenseTensor)(m, n, l); for (int k = 0; k < l; k++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { (*v)(i, j, k) = hostile(r); } it.kind = "tensor"; it.shape = dcls(m) + dcls(n) + dcls(l);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { DenseTensor x; if (dirty) { x.SetSize(q.i(1, 6), q.i(1, 6), q.i(1, 6)); x = 5.0; } hdf5_utils::ReadDataset(g, nm, x);
               if (x.SizeI() != m || x.SizeJ() != n || x.SizeK() != l) { return false; } for (int k = 0; k < l; k++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!biteq(x(i, j, k), (*v)(i, j, k))) { return false; } return true; }; break; }
      case 13: { int m, n; dim2(r, m, n, 5000); sp<SparseMatrix> v(rsparse(r, m, n, true)); it.kind = "sparse"; it.shape = dcls(m) + dcls(n) + (v->NumNonZeroElems() == 0 ? "e" : v->NumNonZeroElems() == m * n ? "f" : "p");
            it.write = [=](hid_t &g) { hdf5_utils::WriteSparseMatrix(g, nm, v.get()); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { sp<SparseMatrix> x(hdf5_utils::ReadSparseMatrix(g, nm));
               if (!eqs(*x, *v)) { return false; } Vector in(n), o1(m), o2(m); q.fill(in); x->Mult(in, o1); v->Mult(in, o2); o1 -= o2; return o1.Norml2() == 0.0; }; break; }
      case 14: { int nb = r.b(0.1) ? r.i(5, 13) : r.i(1, 4); auto off = D(Array<int>)(nb + 1); (*off)[0] = 0; for (int k = 0; k < nb; k++) { (*off)[k + 1] = (*off)[k] + r.i(1, 6); }
            auto v = D(BlockMatrix)(*off); v->owns_blocks = 1; std::string pat;
            for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) { bool has = r.b(0.7); pat += has ? '1' : '0'; if (has) { v->SetBlock(i, j, rsparse(r, (*off)[i + 1] - (*off)[i], (*off)[j + 1] - (*off)[j], true)); } }
            it.kind = "blockmatrix"; it.shape = fmt("%d:", nb) + pat; it.write = [=](hid_t &g) { hdf5_utils::WriteBlockMatrix(g, nm, v.get()); };
            it.verify = [=](hid_t &g, Rng &q, bool, std::string &) { Array<int> o; off->Copy(o); sp<BlockMatrix> x(hdf5_utils::ReadBlockMatrix(g, nm, o));
               if (x->NumRowBlocks() != nb || x->NumColBlocks() != nb) { return false; }
               for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) { bool z = v->IsZeroBlock(i, j) || v->GetBlock(i, j).NumNonZeroElems() == 0;
                  bool zx = x->IsZeroBlock(i, j) || x->GetBlock(i, j).NumNonZeroElems() == 0; if (z != zx) { return false; } if (!z && !eqs(x->GetBlock(i, j), v->GetBlock(i, j))) { return false; } } return true; }; break; }
      case 15: { int m = r.b(0.08) ? r.i(5, 12) : r.i(1, 4), n = r.b(0.08) ? r.i(5, 12) : r.i(1, 4); auto v = D(MatrixBlocks)(m, n); std::string pat;
            for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { bool has = r.b(0.7); pat += has ? '1' : '0'; if (has) { (*v)(i, j) = rsparse(r, dimn(r), dimn(r), true); } }
            it.kind = "matrixblocks"; it.shape = fmt("%dx%d:", m, n) + pat; it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { MatrixBlocks x; if (dirty) { x.SetSize(q.i(1, 3), q.i(1, 3)); x(0, 0) = rsparse(q, 3, 2, true); } hdf5_utils::ReadDataset(g, nm, x);
               if (x.nrows != m || x.ncols != n) { return false; }
               for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { bool z = !(*v)(i, j) || (*v)(i, j)->NumNonZeroElems() == 0; bool zx = !x(i, j) || x(i, j)->NumNonZeroElems() == 0;
                  if (z != zx) { return false; } if (!z && !eqs(*x(i, j), *(*v)(i, j))) { return false; } } return true; }; break; }
      case 16: { int n = r.b(0.2) ? 0 : dim1(r); auto v = D(Array<SampleInfo>)(n); for (auto &s : *v) { s.el = hostileI(r); s.qp = hostileI(r); s.qw = hostile(r); }
            IntegratorType ty = (IntegratorType)r.i(0, 3); it.kind = "samples"; it.shape = dcls(n) + fmt("t%d", (int)ty);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, ty, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool dirty, std::string &) { Array<SampleInfo> x; if (dirty) { x.SetSize(q.i(1, 9)); } hdf5_utils::ReadDataset(g, nm, ty, x);
               if (x.Size() != n) { return false; } for (int k = 0; k < n; k++) if (x[k].el != (*v)[k].el || x[k].qp != (*v)[k].qp || !biteq(x[k].qw, (*v)[k].qw)) { return false; } return true; }; break; }
      default: { int m, n; dim2(r, m, n); auto v = D(Array2D<bool>)(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { (*v)(i, j) = r.b(); } it.kind = "array2d-bool"; it.shape = dcls(m) + dcls(n);
            it.write = [=](hid_t &g) { hdf5_utils::WriteDataset(g, nm, *v); };
            it.verify = [=](hid_t &g, Rng &q, bool, std::string &) { Array2D<bool> x; hdf5_utils::ReadDataset(g, nm, x);
               if (x.NumRows() != m || x.NumCols() != n) { return false; } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (x(i, j) != (*v)(i, j)) { return false; } return true; }; break; }
   }
   return it;
}

// open HDF5 identifiers of every kind the helpers handle: none may outlive the call that opened it
static std::vector<hsize_t> handles() { std::vector<hsize_t> v; for (H5I_type_t t : {H5I_FILE, H5I_GROUP, H5I_DATATYPE, H5I_DATASPACE, H5I_DATASET, H5I_ATTR}) { hsize_t n = 0; H5Inmembers(t, &n); v.push_back(n); } return v; }
static std::string str(const std::vector<hsize_t> &v) { std::string s; for (auto n : v) { s += fmt("%llu ", (unsigned long long)n); } return s; }
void vf::setup(Ctx &) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; std::string fn = c.path("f.h5");
   int n = r.i(3, 14); std::vector<Item> items; std::vector<std::string> grps = {"", "A", "A/B", "grp with space"};
   for (int k = 0; k < n; k++) { Item it = make(r, k == 0 ? c.kase % 18 : r.i(0, 17), fmt("%s%d", r.b(0.3) ? "name.x-" : "n", k)); it.grp = r.pick(grps); items.push_back(it); }
   hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   for (auto &g : {"A", "A/B", "grp with space"}) { hid_t q = H5Gcreate(f, g, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(q); }
   auto with = [&](const std::string &g, std::function<void(hid_t &)> fn2) { if (g == "") { fn2(f); } else { hid_t q = H5Gopen2(f, g.c_str(), H5P_DEFAULT); fn2(q); H5Gclose(q); } };
   for (auto &it : items)
   {
      with(it.grp, [&](hid_t &g) { c.check(!hdf5_utils::pathExists(g, it.name), "exists-before", it.name); auto ids = handles(); it.write(g); c.check(handles() == ids, "handles-left-open-by-write:" + it.kind, "file group type space dataset attribute: " + str(ids) + "-> " + str(handles()));
         if (it.kind.compare(0, 4, "attr")) { c.check(hdf5_utils::pathExists(g, it.name), "exists-after", it.name); } });
      c.event("written " + it.kind);
      if (r.b(0.25)) { H5Fclose(f); f = H5Fopen(fn.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); }
      if (r.b(0.15)) { auto &o = items[r.i(0, &it - &items[0])]; std::string d; with(o.grp, [&](hid_t &g) { c.check(o.verify(g, r, r.b(), d), "roundtrip:" + o.kind, "interleaved " + o.shape + " " + d); }); }
   }
   H5Fclose(f);
   f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
   auto ids = handles();
   for (int k = 0; k < 2 * n; k++)
   {
      auto &o = items[k < n ? (k * 7 + 3) % n == 0 ? k : (n - 1 - k) : r.i(0, n - 1)]; std::string d; bool dirty = r.b();
      with(o.grp, [&](hid_t &g) { c.check(o.verify(g, r, dirty, d), "roundtrip:" + o.kind, o.grp + "/" + o.name + " shape " + o.shape + " " + d); });
      c.check(handles() == ids, "handles-left-open-by-read:" + o.kind, "file group type space dataset attribute: " + str(ids) + "-> " + str(handles())); ids = handles();
      c.event("read back " + o.kind); c.sig(o.kind + "|" + o.shape + (dirty ? "|dirty" : "|fresh") + fmt("|g%zu", o.grp.size() ? 1 + std::count(o.grp.begin(), o.grp.end(), '/') : 0));
   }
   H5Fclose(f);
   std::string s; for (auto &o : items) { s += o.kind + "(" + o.shape.substr(0, 12) + ") "; } c.sample(s);
}
VF_MAIN(1600, 40000)
