// Helper of the demonstrations: a row of square components, written and loaded as a component-wise domain in the current directory.
#pragma once
#include "mfem.hpp"
#include "etc.hpp"
#include "input_parser.hpp"
#include "hdf5_utils.hpp"
#include "component_topology_handler.hpp"
#include "topology_handler.hpp"
#include <cstdio>
#include <cmath>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace mfem;
inline void yaml(const std::string &text) { std::ofstream o("in.yml"); o << text; o.close(); config = InputParser("in.yml"); }
// unit square, n x n elements; attributes 1 bottom, 2 right, 3 top, 4 left
inline void square(const std::string &file, int n, Element::Type t = Element::QUADRILATERAL, double skew = 0)
{
   Mesh m = Mesh::MakeCartesian2D(n, n, t, true, 1, 1, false); m.SetCurvature(1);
   GridFunction *x = m.GetNodes();
   for (int k = 0; k < x->FESpace()->GetNDofs(); k++)
   {
      double &a = (*x)(x->FESpace()->DofToVDof(k, 0)), &b = (*x)(x->FESpace()->DofToVDof(k, 1));
      double s = skew * std::sin(M_PI * a) * std::sin(M_PI * b); a += s; b -= s;
   }
   std::ofstream o(file); o.precision(17); m.Print(o);
}
// comps: component names (files <name>.mesh); types: component of each cell in the row; returns the configuration text
inline std::string row(const std::vector<std::string> &comps, const std::vector<int> &types, const std::string &h5 = "g.h5", const std::string &extra = "", const std::string &portextra = "")
{
   hid_t f = H5Fcreate(h5.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   int nc = comps.size(), nm = types.size(); hdf5_utils::WriteAttribute(g, "number_of_components", nc);
   for (int c = 0; c < nc; c++) { hdf5_utils::WriteAttribute(g, std::to_string(c), comps[c]); }
   Array<int> mt(nm); Array2D<double> cf(nm, 6); cf = 0.0; for (int m = 0; m < nm; m++) { mt[m] = types[m]; cf(m, 0) = m; }
   hdf5_utils::WriteDataset(g, "meshes", mt); hdf5_utils::WriteDataset(g, "configuration", cf); H5Gclose(g);
   std::vector<std::string> names; std::vector<std::pair<int, int>> pc; Array2D<int> itf(nm - 1, 5);
   for (int m = 0; m + 1 < nm; m++)
   {
      std::string n = "p" + std::to_string(types[m]) + std::to_string(types[m + 1]); int k = 0; while (k < (int)names.size() && names[k] != n) { k++; }
      if (k == (int)names.size()) { names.push_back(n); pc.push_back({types[m], types[m + 1]}); }
      int v[5] = {m, m + 1, 2, 4, k}; for (int d = 0; d < 5; d++) { itf(m, d) = v[d]; }
   }
   g = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); int nr = names.size(); hdf5_utils::WriteAttribute(g, "number_of_references", nr);
   for (int k = 0; k < nr; k++) { hdf5_utils::WriteAttribute(g, std::to_string(k), names[k]); }
   if (nm > 1) { hdf5_utils::WriteDataset(g, "interface", itf); } H5Gclose(g);
   Array2D<int> bd(2 * nm + 2, 3); int q = 0;
   for (int m = 0; m < nm; m++) for (int a : {1, 3}) { bd(q, 0) = a; bd(q, 1) = m; bd(q, 2) = a; q++; }
   bd(q, 0) = 4; bd(q, 1) = 0; bd(q, 2) = 4; q++; bd(q, 0) = 2; bd(q, 1) = nm - 1; bd(q, 2) = 2;
   hdf5_utils::WriteDataset(f, "boundary", bd); H5Fclose(f);
   std::string y = "mesh:\n  type: component-wise\n  component-wise:\n    global_config: \"" + h5 + "\"\n" + extra + "    components:\n";
   for (auto &c : comps) { y += "      - name: \"" + c + "\"\n        file: \"" + c + ".mesh\"\n"; }
   if (nr) { y += "    ports:\n"; }
   for (int k = 0; k < nr; k++)
   { y += "      - name: \"" + names[k] + "\"\n" + portextra + "        comp1: {name: \"" + comps[pc[k].first] + "\", attr: 2}\n        comp2: {name: \"" + comps[pc[k].second] + "\", attr: 4}\n        comp2_configuration: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0]\n"; }
   return y;
}
#define REQUIRE(x) do { if (!(x)) { fprintf(stderr, "FAILED: %s\n", #x); fflush(stderr); _exit(1); } } while (0)
