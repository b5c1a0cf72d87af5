#ifndef VERIF_SHIM_BASISREADER_H
#define VERIF_SHIM_BASISREADER_H
#include "linalg/BasisGenerator.h"
namespace CAROM {
class BasisReader {
   std::string base; std::shared_ptr<Matrix> out;
public:
   BasisReader(const std::string &b, Database::formats = Database::formats::HDF5, int = -1) : base(b) {}
   std::shared_ptr<Matrix> getSpatialBasis(int n)
   { HDFDatabase db; bool ok=db.open(base+".000000","r"); assert(ok); (void)ok; int r,c; db.getInteger("spatial_basis_num_rows",r); db.getInteger("spatial_basis_num_cols",c);
     assert(n>0 && n<=c); std::vector<double> v((size_t)r*c); db.getDoubleArray("spatial_basis",v.data(),r*c);
     out=std::make_shared<Matrix>(r,n,true); for(int i=0;i<r;i++)for(int j=0;j<n;j++)(*out)(i,j)=v[(size_t)i*c+j]; return out; }
};
}
#endif
