// Parameterized problems: parameters by name/index/config, defaults, boundary classification, data functions; against a table of formulas.
#include "common.hpp"
#include "parameterized_problem.hpp"
#include "input_parser.hpp"
#include <memory>
using namespace vf; using namespace mfem;
typedef std::map<std::string, double> PM; typedef std::vector<double> VD;
typedef std::function<VD(const VD &, double, PM &)> Fn;
static const double PI = std::acos(-1.0);
struct Bdr { int attr; std::function<int(PM &, bool)> type; Fn f; bool scalar; };   // type(params, any parameter set yet)
struct Ref { std::vector<std::pair<std::string, double>> par; std::vector<Bdr> bdr; Fn rhs; bool rhs_scalar = false; std::vector<Fn> ic; std::vector<Fn> gs, gv; bool isflow = false, comp_bdr = false; };
static VD g_x0; static double g_delu;
enum { Z = 0, D = 1, N = 2 };
static Bdr bd(int a, int t, Fn f = Fn(), bool sc = false) { return {a, [t](PM &, bool) { return t; }, f, sc}; }

static std::map<std::string, Ref> table()
{
   std::map<std::string, Ref> T;
   auto sum = [](const VD &x) { double s = 0; for (double v : x) { s += v; } return s; };
   { Ref r; r.par = {{"k", 1}, {"offset", 0}}; r.bdr = {bd(-1, Z)}; r.rhs_scalar = true;
     r.rhs = [sum](const VD &x, double, PM &p) { return VD{std::sin(2 * PI * (p["k"] * sum(x) + p["offset"]))}; }; T["poisson0"] = r; }
   { Ref r; for (int d = 0; d < 3; d++) { r.par.push_back({fmt("k%d", d), 0}); r.par.push_back({fmt("bdr_k%d", d), 0}); }
     r.par.push_back({"offset", 0.1}); r.par.push_back({"bdr_offset", 0}); r.par.push_back({"bdr_idx", -1}); r.comp_bdr = true; r.rhs_scalar = true;
     auto f = [](std::string pre) { return [pre](const VD &x, double, PM &p) { double s = 0; for (size_t d = 0; d < x.size(); d++) { s += p[pre + fmt("k%d", (int)d)] * x[d]; } return VD{std::sin(2 * PI * (s + p[pre + "offset"]))}; }; };
     r.rhs = f(""); r.bdr = {bd(-1, D, f("bdr_"), true)}; T["poisson_component"] = r; }
   { Ref r; r.par = {{"L", 1}, {"Lw", 0.2}, {"k", 1}, {"s", 0.6}}; r.bdr = {bd(-1, Z)}; r.rhs_scalar = true;
     r.rhs = [](const VD &x, double, PM &p) { double L = p["L"], R = 0; for (double v : x) { R += (v - L / 2) * (v - L / 2); } R = std::sqrt(R);
        double th = std::atan2(x[1] - L / 2, x[0] - L / 2); if (th < 0) { th += 2 * PI; }
        double sl = p["s"] * L / (4 * PI), d = 1e300; for (int n = -1; n < 2; n++) { d = std::min(d, std::fabs(R - sl * (th + 2 * PI * n))); }
        return VD{std::exp(-0.5 * d * d / p["Lw"] / p["Lw"]) * std::cos(2 * PI * p["k"] * d)}; }; T["poisson_spiral"] = r; }
   { Ref r; r.isflow = true; r.par = {{"nu", 1}, {"L", 1}, {"U", 1}, {"x0", 0.5}};
     Fn f = [](const VD &x, double, PM &p) { VD y(x.size(), 0.0); double yc = (x[1] - p["x0"]) / p["L"]; y[0] = p["U"] * (1 - 4 * yc * yc); return y; };
     int t[5] = {Z, N, Z, D, Z}; for (int b = 0; b < 5; b++) { r.bdr.push_back(bd(b + 1, t[b], f)); } T["channel_flow"] = r; }
   const char *xc[3] = {"_x", "_y", "_z"}, *uc[3] = {"_u", "_v", "_w"};
   Ref cf; cf.isflow = true; cf.par = {{"nu", 1}};
   for (int i = 0; i < 3; i++)
   { cf.par.push_back({std::string("u0") + xc[i], 0}); cf.par.push_back({std::string("du") + xc[i], 1}); cf.par.push_back({std::string("offsets") + xc[i], 0});
     for (int j = 0; j < 3; j++) { cf.par.push_back({std::string("k") + uc[i] + xc[j], 1}); } }
   Fn cfb = [xc, uc](const VD &x, double, PM &p) { VD y(x.size());
      for (size_t i = 0; i < x.size(); i++) { double s = 0; for (size_t j = 0; j < x.size(); j++) { s += p[std::string("k") + uc[i] + xc[j]] * x[j]; }
         y[i] = p[std::string("u0") + xc[i]] + p[std::string("du") + xc[i]] * std::sin(2 * PI * (s - p[std::string("offsets") + xc[i]])) - g_delu * (x[i] - g_x0[i]); } return y; };
   for (int b = 0; b < 5; b++) { cf.bdr.push_back(bd(b + 1, b < 4 ? D : Z, cfb)); }
   T["component_flow"] = cf;
   Ref fa = cf;
   auto dirn = [](const char *c, bool pos, int) { std::string k = c; return [k, pos](PM &p, bool set) { return !set ? (int)D : ((p[k] > 0) == pos ? (int)D : (int)N); }; };
   fa.bdr[0].type = dirn("u0_y", true, D); fa.bdr[1].type = dirn("u0_x", false, D); fa.bdr[2].type = dirn("u0_y", false, D); fa.bdr[3].type = dirn("u0_x", true, D);
   T["flow_past_array"] = fa;
   { Ref r = fa; r.bdr[4].type = [](PM &, bool) { return (int)N; };
     for (auto &q : {std::make_pair("q0", 1.0), std::make_pair("dq", 0.1), std::make_pair("qoffset", 0.0), std::make_pair("qk_x", 0.0), std::make_pair("qk_y", 0.0), std::make_pair("qk_z", 0.0)}) { r.par.push_back({q.first, q.second}); }
     for (auto &b : r.bdr) { b.scalar = true; b.f = [xc](const VD &x, double, PM &p) { double s = 0; for (size_t d = 0; d < x.size(); d++) { s += p[std::string("qk") + xc[d]] * x[d]; } return VD{p["q0"] + p["dq"] * std::sin(2 * PI * (s + p["qoffset"]))}; }; }
     T["advdiff_flow_past_array"] = r; }
   { Ref r; r.isflow = true; r.par = {{"nu", 1}, {"y0", 0}, {"y1", 1}, {"u0", 1}}; for (int m = 0; m < 2; m++) for (const char *s : {"amp", "ky", "freq", "t_offset"}) { r.par.push_back({s + std::to_string(m), 0}); }
     Fn f = [](const VD &x, double t, PM &p) { VD y(x.size(), 0.0); double g = p["y1"] - p["y0"]; y[0] = 4 * p["u0"] * (x[1] - p["y0"]) * (p["y1"] - x[1]) / (g * g);
        for (int m = 0; m < 2; m++) { auto q = [&](const char *s) { return p[s + std::to_string(m)]; }; y[1] += q("amp") * std::sin(PI * q("ky") * (x[1] - p["y0"]) / g) * std::sin(2 * PI * (q("freq") * t + q("t_offset"))); } return y; };
     int t[3] = {D, Z, N}; for (int b = 0; b < 3; b++) { r.bdr.push_back(bd(b + 1, t[b], f)); }
     r.ic = {[](const VD &x, double, PM &p) { VD y(x.size(), 0.0); double g = p["y1"] - p["y0"]; if (!(x[1] < p["y0"])) { y[0] = 4 * p["u0"] * (x[1] - p["y0"]) * (p["y1"] - x[1]) / (g * g); } return y; }, [](const VD &, double, PM &) { return VD{0.0}; }};
     T["backward_facing_step"] = r; }
   { Ref r; r.isflow = true; r.par = {{"nu", 1}, {"u0", 1}, {"L", 1}};
     Fn f = [](const VD &x, double, PM &p) { VD y(x.size(), 0.0); y[0] = 4 * p["u0"] * x[0] * (p["L"] - x[0]) / (p["L"] * p["L"]); return y; };
     int t[5] = {D, Z, D, Z, Z}; for (int b = 0; b < 5; b++) { r.bdr.push_back(bd(b + 1, t[b], f)); } T["lid_driven_cavity"] = r; }
   { Ref r; r.isflow = true; r.par = {{"nu", 1}, {"fx", 0}, {"fy", 0}, {"fz", 0}};
     r.rhs = [](const VD &x, double, PM &p) { VD y{p["fx"], p["fy"], p["fz"]}; y.resize(x.size()); return y; };
     r.bdr = {bd(5, Z)}; T["periodic_flow_past_array"] = r;
     int t[5] = {Z, Z, N, N, Z}; r.bdr.clear(); for (int b = 0; b < 5; b++) { r.bdr.push_back(bd(b + 1, t[b])); } T["force_driven_corner"] = r; }
   auto lam = [](const VD &, double, PM &p) { return VD{p["lambda"]}; }; auto mu = [](const VD &, double, PM &p) { return VD{p["mu"]}; };
   Fn disp = [](const VD &x, double, PM &p) { VD u(x.size(), 0.0); u.back() = -0.2 * x[0] * (p.count("rdisp_f") ? p["rdisp_f"] : function_factory::linelast_disp::rdisp_f); return u; };
   Fn dlc = [](const VD &x, double, PM &p) { VD u(x.size(), 0.0); u.back() = -0.2 * (x.back() - 5.0) * p["rdisp_f"]; return u; };
   { Ref r; r.par = {{"rdisp_f", 1}, {"lambda", 1}, {"mu", 1}}; r.gs = {lam, mu}; r.gv = {disp}; r.bdr = {bd(1, D, disp), bd(2, D, disp), bd(3, Z)}; T["linelast_disp"] = r;
     r.gv = {Fn()}; r.bdr = {bd(1, D, dlc), bd(2, D, dlc), bd(3, N)}; T["linelast_disp_lcantilever"] = r;
     r.bdr = {bd(1, N), bd(2, D, disp), bd(3, N), bd(4, D, disp), bd(5, N)}; T["linelast_disp_lattice"] = r;
     r.par[0].first = "rforce_f"; Fn tip = [](const VD &x, double, PM &p) { VD u(x.size(), 0.0); u.back() = -0.01 * p["rforce_f"]; return u; };
     r.bdr = {bd(1, N), bd(2, N, tip), bd(3, N), bd(4, D, disp), bd(5, N)}; T["linelast_force_cantilever"] = r; }
   { Ref r; r.par = {{"lambda", 3846153846.0}, {"mu", 769230769.0}, {"qwind_f", 500}, {"density", 78.5}, {"g", 9.81}}; r.gs = {lam, mu}; r.gv = {Fn()};
     r.rhs = [](const VD &x, double, PM &p) { VD u(x.size(), 0.0); u.back() = -p["density"] * p["g"]; return u; };
     r.bdr = {bd(1, N, [](const VD &x, double, PM &p) { VD u(x.size(), 0.0); u[0] = p["qwind_f"]; return u; }), bd(2, N), bd(3, N), bd(4, D, [](const VD &x, double, PM &) { return VD(x.size(), 0.0); }), bd(5, N)}; T["linelast_frame_wind"] = r; }
   { Ref r; for (const char *s : {"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy", "b_fx", "b_fy", "bx", "by"}) { r.par.push_back({s, 0}); }
     r.par.push_back({"lambda", 1}); r.par.push_back({"mu", 1});
     for (const char *s : {"xu", "xf", "yu", "yf", "bxf", "byf"}) { r.par.push_back({std::string(s) + "_amp", 1}); r.par.push_back({std::string(s) + "_freq", 1}); r.par.push_back({std::string(s) + "_offset", 0}); }
     auto load = [](std::string sw, std::string cx, std::string cy, std::string wx, std::string wy)
     { return [=](const VD &x, double, PM &p) { VD u(x.size(), 0.0); auto w = [&](std::string q, double s) { return p[q + "_amp"] * std::sin(PI * p[q + "_freq"] * (s / 3.0 + 2 * p[q + "_offset"])); };
          if (p[sw + "x"] >= 0.5) { u[0] = p[cx] + w(wx, x[0]); } if (p[sw + "y"] >= 0.5) { u[1] = p[cy] + w(wy, x[1]); } return u; }; };
     r.gs = {lam, mu}; r.gv = {load("b", "b_fx", "b_fy", "bxf", "byf")};
     r.bdr = {bd(1, N, load("d", "d_fx", "d_fy", "xf", "yf")), bd(2, N, load("r", "r_fx", "r_fy", "xf", "yf")), bd(3, N, load("u", "u_fx", "u_fy", "xf", "yf")), bd(4, D, load("l", "l_ux", "l_uy", "xu", "yu")), bd(5, N)};
     T["linelast_cwtrain"] = r; }
   return T;
}

static std::map<std::string, Ref> T; static std::vector<std::string> names;
void vf::setup(Ctx &) { T = table(); for (auto &e : T) { names.push_back(e.first); } }

static void evalVec(Ctx &c, const char *what, const std::string &pn, function_factory::GeneralVectorFunction *f, const Fn &ref, const VD &x, double t, PM p, int outdim)
{
   Vector X(x.size()), y(outdim); for (size_t k = 0; k < x.size(); k++) { X(k) = x[k]; } y = c.rng.b() ? 1e300 : std::nan("");
   f(X, t, y); VD e = ref(x, t, p);
   std::string key = pn + "/" + what; c.event("vector function values");
   if (!c.check(y.Size() == (int)e.size(), key + "/size", fmt("dim %d got %d", (int)e.size(), y.Size()))) { return; }
   double sc = 1e-3; for (double v : e) { sc = std::max(sc, std::fabs(v)); }
   for (auto &q : p) { sc = std::max(sc, std::min(100.0, std::fabs(q.second)) * 1e-2); }
   for (size_t k = 0; k < e.size(); k++) { if (!c.close(y(k), e[k], sc, 1e-9, key, fmt("component %d", (int)k))) { return; } }
   Vector y2(outdim); y2 = -7.0; f(X, t, y2); bool same = true; for (int k = 0; k < y.Size(); k++) { same = same && biteq(y(k), y2(k)); }
   c.check(same, key + "/same-input-same-value");
}
static void evalSc(Ctx &c, const char *what, const std::string &pn, function_factory::GeneralScalarFunction *f, const Fn &ref, const VD &x, double t, PM p)
{
   Vector X(x.size()); for (size_t k = 0; k < x.size(); k++) { X(k) = x[k]; }
   double v = f(X, t), e = ref(x, t, p)[0]; c.event("scalar function values");
   c.close(v, e, std::max(1.0, std::fabs(e)), 1e-9, pn + "/" + what); c.check(biteq(v, f(X, t)), pn + "/" + what + "/same-input-same-value");
}

static void observe(Ctx &c, const std::string &pn, ParameterizedProblem *P, Ref &R, PM &p, bool set)
{
   Rng &r = c.rng;
   c.check(P->GetProblemName() == pn, pn + "/name"); c.check(P->GetNumParams() == (int)R.par.size(), pn + "/number-of-parameters", fmt("%d", P->GetNumParams()));
   if (R.isflow) { c.check(function_factory::flow_problem::nu == p["nu"], pn + "/viscosity"); }
   if (!c.check(P->battr.Size() == (int)R.bdr.size() && P->bdr_type.Size() == (int)R.bdr.size(), pn + "/boundary-count", fmt("%d", P->battr.Size()))) { return; }
   if (!R.bdr[0].scalar && !R.rhs_scalar) { c.check(P->vector_bdr_ptr.Size() >= (int)R.bdr.size(), pn + "/boundary-function-table-too-short", fmt("%d entries for %d boundaries", P->vector_bdr_ptr.Size(), (int)R.bdr.size())); }
   bool two_d = pn == "linelast_cwtrain" && false; int dim = two_d ? 2 : r.i(2, 3);
   for (int rep = 0; rep < 2; rep++)
   {
      VD x(dim); const double far = r.b(0.08) ? 30 : 1; for (auto &v : x) { v = r.b(0.15) ? (double)r.i(0, 1) : far * r.u(-1.5, 2.5); } double t = r.b(0.3) ? 0.0 : r.b(0.08) ? r.u(-100, 1000) : r.u(-2, 5);
      if (r.b(0.3)) { g_delu = r.u(-1, 1); } g_x0 = VD(dim); for (auto &v : g_x0) { v = r.u(-1, 1); }
      function_factory::flow_problem::del_u = g_delu; function_factory::flow_problem::x0.SetSize(dim); for (int d = 0; d < dim; d++) { function_factory::flow_problem::x0(d) = g_x0[d]; }
      for (int b = 0; b < (int)R.bdr.size(); b++)
      {
         int attr = R.bdr[b].attr; if (R.comp_bdr) { attr = p["bdr_idx"] >= 0 ? 1 + (int)std::floor(p["bdr_idx"]) : -1; }
         c.check(P->battr[b] == attr, pn + "/boundary-attribute", fmt("slot %d got %d expected %d", b, P->battr[b], attr));
         c.check((int)P->bdr_type[b] == R.bdr[b].type(p, set), pn + "/boundary-type", fmt("slot %d attribute %d got %d expected %d", b, attr, (int)P->bdr_type[b], R.bdr[b].type(p, set)));
         int ty = R.bdr[b].type(p, set);
         if (R.bdr[b].scalar)
         { auto *f = P->scalar_bdr_ptr[b]; if (ty == D || f) { if (c.check(f != NULL, pn + "/boundary-function-missing")) { evalSc(c, "boundary-value", pn, f, R.bdr[b].f, x, t, p); } } }
         else
         {
            auto *f = b < P->vector_bdr_ptr.Size() ? P->vector_bdr_ptr[b] : NULL;
            if (R.bdr[b].f) { if (c.check(f != NULL, pn + "/boundary-function-missing", fmt("slot %d", b))) { evalVec(c, "boundary-value", pn, f, R.bdr[b].f, x, t, p, dim); } }
            else if (ty != Z) { c.check(f == NULL, pn + "/unexpected-boundary-function", fmt("slot %d", b)); }
         }
      }
      if (R.rhs_scalar) { if (c.check(P->scalar_rhs_ptr != NULL, pn + "/source-missing")) { evalSc(c, "source", pn, P->scalar_rhs_ptr, R.rhs, x, t, p); } }
      else if (R.rhs) { if (c.check(P->vector_rhs_ptr != NULL, pn + "/source-missing")) { evalVec(c, "source", pn, P->vector_rhs_ptr, R.rhs, x, t, p, dim); } }
      else { c.check(P->vector_rhs_ptr == NULL && P->scalar_rhs_ptr == NULL, pn + "/unexpected-source"); }
      for (int k = 0; k < (int)R.ic.size(); k++) { if (c.check(P->ic_ptr.Size() > k && P->ic_ptr[k], pn + "/initial-missing")) { evalVec(c, "initial", pn, P->ic_ptr[k], R.ic[k], x, t, p, k == 0 ? dim : 1); } }
      for (int k = 0; k < (int)R.gs.size(); k++) { if (c.check(P->general_scalar_ptr.Size() > k && P->general_scalar_ptr[k], pn + "/material-missing")) { evalSc(c, k ? "mu" : "lambda", pn, P->general_scalar_ptr[k], R.gs[k], x, t, p); } }
      for (int k = 0; k < (int)R.gv.size(); k++)
      {
         auto *f = P->general_vector_ptr.Size() > k ? P->general_vector_ptr[k] : NULL;
         if (R.gv[k]) { if (c.check(f != NULL, pn + "/general-function-missing")) { evalVec(c, "general-vector", pn, f, R.gv[k], x, t, p, dim); } } else { c.check(f == NULL, pn + "/unexpected-general-function"); }
      }
      if (pn == "advdiff_flow_past_array")
      {
         FlowProblem *fp = function_factory::advdiff_problem::flow_problem; Ref &F = T["flow_past_array"];
         if (c.check(fp != NULL && fp->battr.Size() == 5 && fp->bdr_type.Size() == 5, pn + "/carrier-flow"))
            for (int b = 0; b < 5; b++) { c.check((int)fp->bdr_type[b] == F.bdr[b].type(p, set), pn + "/carrier-flow-boundary-type", fmt("slot %d", b)); if (fp->vector_bdr_ptr[b]) { evalVec(c, "carrier-flow-boundary-value", pn, fp->vector_bdr_ptr[b], F.bdr[b].f, x, t, p, dim); } }
      }
   }
}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng;
   int nprob = r.i(1, 3); std::string hist;
   for (int q = 0; q < nprob; q++)
   {
      std::string pn = (q == 0) ? names[c.kase % names.size()] : r.pick(names); Ref &R = T[pn];
      auto draw = [&](const std::string &n) -> double {
         if (n == "bdr_idx") { return r.b(0.3) ? -r.u(0.01, 2) : r.u(0, 3.999); }
         if (n == "L" || n == "Lw" || n == "s") { return r.b(0.06) ? r.u(3, 40) : r.u(0.1, 3); } if (n == "y0") { return r.u(-1, 0.4); } if (n == "y1") { return r.u(0.6, 2); }
         if (n.size() == 2 && (n[1] == 'x' || n[1] == 'y') && std::string("lrdub").find(n[0]) != std::string::npos) { return r.pick<double>({0, 1, 0.5, 0.4999, r.u()}); }
         return r.b(0.1) ? 0.0 : r.b(0.04) ? r.u(-60, 60) : r.u(-3, 3); };
      std::vector<std::string> single; std::string fn = c.path("prob.yml");
      PM sv; { std::ofstream o(fn); o << "parameterized_problem:\n  name: " << pn << "\nsingle_run:\n  decoy:\n    k: 77\n  " << pn << ":\n"; int n = r.i(1, std::min(8, (int)R.par.size()));
         for (int k = 0; k < n; k++) { auto &pp = r.pick(R.par); if (sv.count(pp.first)) { continue; } std::string s = fmt("%.17g", draw(pp.first)); sv[pp.first] = std::stod(s); o << "    " << pp.first << ": " << s << "\n"; } }
      config = InputParser(fn);
      std::unique_ptr<ParameterizedProblem> P(InitParameterizedProblem()); hist += pn + " ";
      if (!c.check(P != nullptr, pn + "/factory")) { continue; }
      PM p; for (auto &e : R.par) { p[e.first] = e.second; }
      std::set<int> idx; for (auto &e : R.par) { idx.insert(P->GetParamIndex(e.first)); }
      c.check((int)idx.size() == (int)R.par.size() && *idx.begin() == 0 && *idx.rbegin() == (int)R.par.size() - 1, pn + "/indexes", "parameter indexes are not 0..n-1, each once");
      bool set = false; observe(c, pn, P.get(), R, p, set); c.sig(pn + "|default");
      int nop = r.i(1, 5);
      for (int o = 0; o < nop; o++)
      {
         int op = r.i(0, 3);
         if (op == 0) { auto &e = r.pick(R.par); double v = draw(e.first); P->SetParams(e.first, v); p[e.first] = v; c.sig(pn + "|name|" + e.first); set = true; }
         else if (op == 1)
         {
            std::vector<std::string> pool; for (auto &e : R.par) { pool.push_back(e.first); } for (int k = (int)pool.size() - 1; k > 0; k--) { std::swap(pool[k], pool[r.i(0, k)]); }
            int n = r.b(0.2) ? (int)pool.size() : r.i(1, (int)pool.size()); Array<int> ix; Vector v(n); for (int k = 0; k < n; k++) { ix.Append(P->GetParamIndex(pool[k])); v(k) = draw(pool[k]); p[pool[k]] = v(k); }
            P->SetParams(ix, v); c.sig(pn + fmt("|index|%s", n == (int)pool.size() ? "all" : n == 1 ? "one" : "some")); set = true;
         }
         else if (op == 2) { P->SetSingleRun(); for (auto &e : sv) { p[e.first] = e.second; } c.sig(pn + "|config"); set = true; }
         else if (r.b(0.5))
         {
            std::string bad = r.pick<std::string>({"", "K", "nu2", "offset ", "unknown", "bdr_k3"}); if (p.count(bad)) { continue; }
            ParameterizedProblem *q2 = P.get(); int rc = forked([&]() { q2->SetParams(bad, 1.0); return 0; }, nullptr, 30);
            c.check(rc == 1, pn + "/unknown-parameter-stops", fmt("name '%s' outcome %d", bad.c_str(), rc)); c.event("unknown parameter names"); c.sig(pn + "|unknown");
         }
         c.event("parameter settings"); observe(c, pn, P.get(), R, p, set);
      }
   }
   if (c.kase % 97 == 3)
   {
      std::string fn = c.path("bad.yml"); { std::ofstream o(fn); o << "parameterized_problem:\n  name: " << r.pick<std::string>({"poisson1", "Poisson0", "stokes", "linelast"}) << "\n"; }
      int rc = forked([&]() { config = InputParser(fn); ParameterizedProblem *q = InitParameterizedProblem(); return q != NULL; }, nullptr, 30);
      c.check(rc == 1, "unknown-problem-stops", fmt("outcome %d", rc)); c.event("unknown problem names"); c.sig("unknown problem");
   }
   c.sample(hist);
}
VF_MAIN(1200, 30000)
