#ifndef VERIF_SHIM_BASISGENERATOR_H
#define VERIF_SHIM_BASISGENERATOR_H
#include "linalg/Matrix.h"
#include "linalg/Options.h"
#include "utils/HDFDatabase.h"
#include <algorithm>
#include <numeric>
namespace CAROM {
// one-sided Jacobi SVD: columns of A -> U*S (thin)
inline void shim_svd(const Matrix &A, Matrix &U, Vector &S)
{
   int m = A.numRows(), n = A.numColumns();
   std::vector<std::vector<double>> c(n, std::vector<double>(m));
   for (int i=0;i<m;i++) for (int j=0;j<n;j++) c[j][i]=A(i,j);
   for (int sweep=0; sweep<60; sweep++) {
      double off=0;
      for (int p=0;p<n;p++) for (int q=p+1;q<n;q++) {
         double a=0,b=0,g=0; for (int i=0;i<m;i++){a+=c[p][i]*c[p][i];b+=c[q][i]*c[q][i];g+=c[p][i]*c[q][i];}
         if (a==0||b==0||std::fabs(g)<=1e-16*std::sqrt(a*b)) continue;
         off=std::max(off,std::fabs(g)/std::sqrt(a*b));
         double z=(b-a)/(2*g), t=(z>=0?1.0:-1.0)/(std::fabs(z)+std::sqrt(1+z*z)), cs=1/std::sqrt(1+t*t), sn=cs*t;
         for (int i=0;i<m;i++){double x=c[p][i],y=c[q][i]; c[p][i]=cs*x-sn*y; c[q][i]=sn*x+cs*y;}
      }
      if (off<1e-15) break;
   }
   std::vector<double> s(n); for (int j=0;j<n;j++){double a=0; for(double x:c[j])a+=x*x; s[j]=std::sqrt(a);}
   std::vector<int> id(n); std::iota(id.begin(),id.end(),0);
   std::stable_sort(id.begin(),id.end(),[&](int x,int y){return s[x]>s[y];});
   int k=std::min(m,n); U.setSize(m,k); S.setSize(k);
   for (int j=0;j<k;j++){ S(j)=s[id[j]]; for(int i=0;i<m;i++) U(i,j)= s[id[j]]>0? c[id[j]][i]/s[id[j]]:0.0; }
}
class BasisGenerator {
   Options opt; std::string base; int nsamp = 0; std::vector<double> data; // column after column
   std::shared_ptr<Matrix> snap, basis; std::shared_ptr<Vector> sv;
   void svd() { Matrix A(opt.dim,nsamp,true); for(int j=0;j<nsamp;j++)for(int i=0;i<opt.dim;i++)A(i,j)=data[(size_t)j*opt.dim+i];
      basis=std::make_shared<Matrix>(1,1,true); sv=std::make_shared<Vector>(1,false); shim_svd(A,*basis,*sv); }
public:
   BasisGenerator(Options o, bool, const std::string &b = "", Database::formats = Database::formats::HDF5) : opt(o), base(b) {}
   bool takeSample(double *u, bool = true) { if (opt.samples_per_time_interval>0 && nsamp>=opt.samples_per_time_interval) return false;
      data.insert(data.end(),u,u+opt.dim); nsamp++; basis.reset(); snap.reset(); return true; }
   int getNumSamples() const { return nsamp; }
   std::shared_ptr<const Matrix> getSnapshotMatrix() { snap=std::make_shared<Matrix>(opt.dim,nsamp,true);
      for(int j=0;j<nsamp;j++)for(int i=0;i<opt.dim;i++)(*snap)(i,j)=data[(size_t)j*opt.dim+i]; return snap; }
   std::shared_ptr<const Matrix> getSpatialBasis() { if(!basis) svd(); return basis; }
   std::shared_ptr<const Vector> getSingularValues() { if(!basis) svd(); return sv; }
   void writeSnapshot() { auto s=getSnapshotMatrix(); write(base+"_snapshot","snapshot_matrix",*s); }
   void endSamples(const std::string & = "basis") { svd(); write(base,"spatial_basis",*basis); }
   void loadSamples(const std::string &f, const std::string &kind = "snapshot", int cut = (int)1e9, Database::formats = Database::formats::HDF5)
   { HDFDatabase db; bool ok=db.open(f+".000000","r"); assert(ok); (void)ok; std::string k = kind=="snapshot"?"snapshot_matrix":"spatial_basis";
     int r,c; db.getInteger(k+"_num_rows",r); db.getInteger(k+"_num_cols",c); assert(r==opt.dim); std::vector<double> v((size_t)r*c); db.getDoubleArray(k,v.data(),r*c);
     for(int j=0;j<std::min(c,cut);j++){ std::vector<double> col(r); for(int i=0;i<r;i++)col[i]=v[(size_t)i*c+j]; bool t=takeSample(col.data()); assert(t); (void)t; } }
   static void write(const std::string &f, const std::string &k, const Matrix &m)
   { HDFDatabase db; bool ok=db.create(f+".000000"); assert(ok); (void)ok; db.putInteger(k+"_num_rows",m.numRows()); db.putInteger(k+"_num_cols",m.numColumns());
     db.putDoubleArray(k,m.getData(),m.numRows()*m.numColumns()); }
};
}
#endif
