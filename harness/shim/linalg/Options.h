#ifndef VERIF_SHIM_OPTIONS_H
#define VERIF_SHIM_OPTIONS_H
namespace CAROM {
class Options {
public:
   Options(int dim_, int max_samples_ = -1, bool update_right_SV_ = false, bool = false)
      : dim(dim_), samples_per_time_interval(max_samples_) {}
   Options(int dim_, int max_samples_, int, bool)
      : dim(dim_), samples_per_time_interval(max_samples_) {}
   int dim, samples_per_time_interval;
   int max_basis_dimension = -1;
   bool static_svd_preserve_snapshot = false;
   Options &setMaxBasisDimension(int n) { max_basis_dimension = n; return *this; }
   Options &setRandomizedSVD(bool, int = -1, int = 1) { return *this; }
   Options &setIncrementalSVD(double, double, double, double, bool = false, bool = false, bool = false) { return *this; }
};
}
#endif
