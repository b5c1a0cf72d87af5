// Solution files, restarts and the orderings of the solution vector: what a file holds, what a solver holds after reading it, and where an interrupted run ends.
#include "solve_gen.hpp"
#include "hdf5_utils.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }
static bool bits(const Vector &a, const Vector &b) { if (a.Size() != b.Size()) { return false; } for (int k = 0; k < a.Size(); k++) if (!biteq(a(k), b(k))) { return false; } return true; }
static double gap(const Vector &a, const Vector &b) { if (a.Size() != b.Size()) { return 1e300; } double e = 0, s = 1e-12; for (int k = 0; k < a.Size(); k++) { e = std::max(e, std::fabs(a(k) - b(k))); s = std::max(s, std::fabs(b(k))); } return e / s; }
struct File { bool ok = false; Vector x; int step = -99; double time = -99; bool timed = false; };
static File read(const std::string &fn)
{ // read with the HDF5 library itself
   File o; hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { return o; } hid_t d = H5Dopen(f, "solution", H5P_DEFAULT);
   if (d >= 0) { hid_t s = H5Dget_space(d); o.x.SetSize(H5Sget_simple_extent_npoints(s)); H5Sclose(s); o.ok = H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, o.x.GetData()) >= 0; H5Dclose(d); }
   if (H5Aexists(f, "timestep") > 0 && H5Aexists(f, "time") > 0) { hid_t a = H5Aopen(f, "timestep", H5P_DEFAULT); H5Aread(a, H5T_NATIVE_INT, &o.step); H5Aclose(a); a = H5Aopen(f, "time", H5P_DEFAULT); H5Aread(a, H5T_NATIVE_DOUBLE, &o.time); H5Aclose(a); o.timed = true; } H5Fclose(f); return o;
}
static std::string at(const std::string &dir, const std::string &pre, int step) { return dir + "/" + pre + fmt("_%08d.h5", step); }

static void unsteady(Ctx &c, Sys &s)
{
   Rng &r = c.rng; std::string dir = c.path(fmt("s%d", c.kase)), pre = r.pick<std::string>({"solution", "x", "a.b_c"}); mkdir(dir.c_str(), 0700); int iv = r.i(1, 3), cut = -1; s.nt = r.i(2, 7);
   int vis = r.pick<int>({0, 0, 1, 2}), vt = r.pick<int>({0, 1, 2, 3}), off = 0, frq = 1; std::string vy = vis ? fmt("visualization: {enabled: true, time_interval: %d, domain_offset: 0, file_path: {directory: %s, prefix: view}}\n", vt, dir.c_str()) : "";
   auto conf = [&](int nt, bool save, const std::string &from) { return sys_config(s, "", fmt("save_solution: {enabled: %s, restart_interval: %d, file_path: {directory: %s, prefix: %s}}\n", save ? "true" : "false", iv, dir.c_str(), pre.c_str()) + vy); };
   auto run = [&](int nt, bool save, const std::string &from, Vector &out)
   { load_config(c.path("u.yml"), conf(nt, save, from)); config.dict_["time-integration"]["number_of_timesteps"] = nt; if (from != "") { config.dict_["solver"]["use_restart"] = true; config.dict_["solver"]["restart_file"] = from; } Run R; prepare(s, R); int n = R.sv->GetNumSubdomains();
     if (vis == 2) { off = r.i(0, n - 1); frq = r.i(1, n); config.dict_["visualization"]["domain_offset"] = off; config.dict_["visualization"]["domain_frequency"] = frq; Run Q; prepare(s, Q); std::swap(R.sv, Q.sv); std::swap(R.prob, Q.prob); R.sv->InitVisualization(); } bool ok = R.sv->Solve();
     if (vis == 2) { for (int m = 0; m < n; m++) { std::string d = dir + fmt("/view_%d", m); bool shown = m >= off && m % frq == 0; c.check((access((d + fmt("/view_%d.pvd", m)).c_str(), R_OK) == 0) == shown, "subdomains-shown", s.sig + fmt(": %d with offset %d frequency %d", m, off, frq)); } std::string cmd = "rm -rf '" + dir + "'/view_*"; if (system(cmd.c_str())) {} c.event("runs with visualisation"); } out = *R.sv->GetSolution(); c.event("time steps", nt); return ok; };
   Vector whole, x; run(s.nt, true, "", whole); std::string tag = s.sig + fmt(" nt %d every %d%s", s.nt, iv, vis ? fmt(" shown every %d", vt).c_str() : ""); std::vector<int> have; if (whole.CheckFinite()) { c.event("run left the range of numbers"); return; }
   for (int k = 0; k <= s.nt + 1; k++)
   {
      File f = read(at(dir, pre, k)); bool due = k <= s.nt && k % iv == 0; if (!c.check(f.ok == due, "file-every-interval", tag + fmt(": step %d %s", k, f.ok ? "saved" : "missing")) || !due) { continue; }
      c.check(f.timed && f.step == k, "step-in-file", tag + fmt(": %d in the file of step %d", f.step, k)); c.close(f.time, k * s.dt, std::max(1.0, k * s.dt), 1e-12, "time-in-file", tag);
      if (k == s.nt) { x = whole; } else if (k) { run(k, false, "", x); } else { x.SetSize(0); } // the same run stopped there
      if (k) { c.check(gap(f.x, x) < 1e-11, "file-is-the-solution-at-its-step", tag + fmt(": step %d differs by %.3g", k, gap(f.x, x))); c.event("restart files judged"); }
      else if (s.viaprob) { Run R; load_config(c.path("u.yml"), conf(1, false, "")); prepare(s, R, false); int o = 0; double e = 0; for (int m = 0; m < R.sv->GetNumSubdomains(); m++) for (int v = 0; v < 2; v++) { GridFunction g(R.sv->GetGridFunction(m * 2 + v)->FESpace()); VectorFunctionCoefficient fu(s.dim, s.ic.vec()), fp(1, s.pic.vec()); g.ProjectCoefficient(v ? fp : fu); for (int i = 0; i < g.Size(); i++, o++) { e = std::max(e, std::fabs(g(i) - f.x(o))); } } c.close(e, 0, 1, 1e-12, "first-file-is-the-initial-state", tag); c.event("initial files judged"); }
      have.push_back(k);
   }
   if (have.empty()) { return; } cut = have[r.i(0, have.size() - 1)]; if (cut >= s.nt) { cut = have[0]; } if (cut >= s.nt) { return; }
   std::string copy = c.path("from.h5"); { std::ifstream a(at(dir, pre, cut), std::ios::binary); std::ofstream b(copy, std::ios::binary); b << a.rdbuf(); }
   std::string cmd = "rm -f '" + dir + "'/*.h5"; if (system(cmd.c_str())) {} run(s.nt, true, copy, x); c.check(gap(x, whole) < 1e-9, "restarted-run-ends-where-the-whole-run-does", tag + fmt(": from step %d differs by %.3g", cut, gap(x, whole))); c.event("restarts");
   for (int k = 0; k <= s.nt; k++) { File f = read(at(dir, pre, k)); bool due = k > cut && k % iv == 0; c.check(f.ok == due, "files-after-restart", tag + fmt(": step %d from %d", k, cut)); if (f.ok) { c.check(f.step == k, "step-in-file-after-restart", tag); c.close(f.time, k * s.dt, std::max(1.0, k * s.dt), 1e-12, "time-in-file-after-restart", tag); } }
   c.sig(fmt("restart|%s|nt%d|every%d|cut%d|vis%d|%s", s.comp ? "comp" : "sub", s.nt, iv, cut, vis ? 1 + vt : 0, s.viaprob ? "problem" : "bc")); c.sample(tag + fmt(", restarted at %d", cut));
}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; SysOpt o; static const int pd[] = {POISSON, LINELAST, STOKES, STEADYNS, UNSTEADYNS, ADVDIFF}; bool time = c.kase % 2; o.pdes = {time ? UNSTEADYNS : pd[c.kase / 2 % 6]}; o.maxorder = time ? 1 : 2; o.maxdofs = 260; o.dim3 = !time || r.b(0.2); Sys s = make_sys(c, r, o); if (time) { unsteady(c, s); return; }
   int nv = s.nvar(); std::string dir = c.path(fmt("d%d", c.kase)), pre = r.pick<std::string>({"solution", "p.q"}); mkdir(dir.c_str(), 0700); bool named = r.b(), en = r.b(0.85);
   std::string y = sys_config(s, "", en ? fmt("save_solution:\n  enabled: true\n  file_path: {directory: %s, prefix: %s}\n", dir.c_str(), pre.c_str()) : r.b() ? "save_solution: {enabled: false}\n" : ""); load_config(c.path("s.yml"), y);
   Run A, B; prepare(s, A, false); prepare(s, B, false); BlockVector &U = *A.sv->GetSolution(), &W = *B.sv->GetSolution(); int ns = A.sv->GetNumSubdomains(); bool solved = r.b(0.25) && s.direct;
   if (solved) { A.sv->BuildOperators(); A.sv->SetupBCOperators(); A.sv->Assemble(); solved = A.sv->Solve() && !U.CheckFinite(); } if (!solved) { for (int k = 0; k < U.Size(); k++) { U(k) = r.b(0.05) ? r.pick<double>({0.0, -0.0, 1e-310, 1e300, -1e-17}) : r.u(-2, 2); } } r.fill(W, 5, 6); Vector U0(U), W0(W);
   std::string fn = named ? dir + "/own name.h5" : dir + "/" + pre + ".h5"; int step = r.i(0, 9999); double tm = r.u(0, 20); bool timed = r.b(0.3) && en;
   if (r.b(0.3)) { std::ofstream q(fn); q << "an older file"; q.close(); if (!en) { unlink(fn.c_str()); } } if (timed) { A.sv->SaveSolutionWithTime(fn, step, tm); } else { A.sv->SaveSolution(named ? fn : ""); } c.check(bits(U, U0), "saving-leaves-the-solution", s.sig);
   File f = read(fn); if (!c.check(f.ok == en, "saved-when-enabled", s.sig + (en ? " enabled" : " disabled")) || !en) { if (!en) { c.event("disabled saves"); } return; } c.check(bits(f.x, U0), "file-holds-the-solution", s.sig);
   if (timed) { c.check(f.step == step && biteq(f.time, tm), "file-holds-step-and-time", s.sig); int st = -1; double t2 = -1; B.sv->LoadSolutionWithTime(fn, st, t2); c.check(st == step && biteq(t2, tm), "step-and-time-read-back", s.sig); } else { B.sv->LoadSolution(fn); } c.check(bits(W, U0), "loaded-solution", s.sig); c.event("solutions saved and loaded");
   { bool v = true; int k0 = 0; for (int k = 0; k < ns * nv; k++) { GridFunction *g = B.sv->GetGridFunction(k); for (int i = 0; i < g->Size(); i++, k0++) { v = v && biteq((*g)(i), U0(k0)); } } c.check(v && k0 == U0.Size(), "fields-show-the-loaded-solution", s.sig); }
   if (r.b(0.3)) { std::string bad = dir + "/bad.h5"; Vector z(U.Size() + (r.b() ? 1 : -1)); z = 1.; hid_t h = H5Fcreate(bad.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h, "solution", z); H5Fclose(h); bool gone = r.b(); int rc = forked([&]() { B.sv->LoadSolution(gone ? dir + "/none.h5" : bad); return 0; }); c.check(rc == 1, gone ? "missing-file-refused" : "wrong-size-refused", s.sig); c.event("refused files"); }
   // orderings: subdomain by subdomain, variable by variable, one variable at a time
   Array<int> os(ns * nv + 1), ov(ns * nv + 1); os = 0; ov = 0; for (int m = 0; m < ns; m++) for (int v = 0; v < nv; v++) { int n = A.sv->GetGridFunction(m * nv + v)->Size(); os[m * nv + v + 1] = n; ov[v * ns + m + 1] = n; } os.PartialSum(); ov.PartialSum(); BlockVector X(os), Y(ov), Z(os); r.fill(X); r.fill(Y); Z = 9.; Vector X0(X);
   A.sv->SortByVariables(X, Y); bool ok = true; for (int m = 0; m < ns; m++) for (int v = 0; v < nv; v++) for (int i = 0; i < X.BlockSize(m * nv + v); i++) { ok = ok && biteq(Y(ov[v * ns + m] + i), X0(os[m * nv + v] + i)); } c.check(ok && bits(X, X0), "sorted-by-variable", s.sig); A.sv->SortBySubdomains(Y, Z); c.check(bits(Z, X0), "sorted-back-by-subdomain", s.sig);
   for (int v = 0; v < nv; v++)
   {
      Array<int> ow(ns + 1); ow = 0; for (int m = 0; m < ns; m++) { ow[m + 1] = X.BlockSize(m * nv + v); } ow.PartialSum(); BlockVector V(ow), N(ow); r.fill(V); A.sv->GetVariableVector(v, X, V); ok = bits(X, X0); for (int m = 0; m < ns; m++) for (int i = 0; i < V.BlockSize(m); i++) { ok = ok && biteq(V(ow[m] + i), X0(os[m * nv + v] + i)); } c.check(ok, "variable-extracted", s.sig);
      r.fill(N); Vector N0(N); A.sv->SetVariableVector(v, N, X); ok = bits(N, N0); for (int m = 0; m < ns; m++) for (int w = 0; w < nv; w++) for (int i = 0; i < X.BlockSize(m * nv + w); i++) { ok = ok && biteq(X(os[m * nv + w] + i), w == v ? N0(ow[m] + i) : X0(os[m * nv + w] + i)); } c.check(ok, "variable-replaced", s.sig); X0 = X; }
   A.sv->CopySolution(&X); c.check(bits(U, X), "copied-solution", s.sig); c.event("orderings");
   if (s.pde == STEADYNS && solved)
   { // restarted from its own solution the solver stays there
      config.dict_["solver"]["use_restart"] = true; config.dict_["solver"]["restart_file"] = fn; Run D; prepare(s, D); if (D.sv->Solve()) { c.check(gap(*D.sv->GetSolution(), U0) < 1e-6, "steady-restart-stays", s.sig + fmt(" %.3g", gap(*D.sv->GetSolution(), U0))); c.event("steady restarts"); } }
   c.sig(fmt("file|%s|%s|dim%d|%s|%d%d%d", pde_name(s.pde), s.comp ? "comp" : "sub", s.dim, s.full_dg ? "dg" : "h1", named, timed, solved)); c.sample(s.sig + fmt(": %d values in %d blocks", U.Size(), ns * nv));
}
VF_MAIN(480, 4000)
