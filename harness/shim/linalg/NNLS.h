#ifndef VERIF_SHIM_NNLS_H
#define VERIF_SHIM_NNLS_H
#include "linalg/Matrix.h"
#include <algorithm>
namespace CAROM {
enum class NNLS_termination { LINF, L2 };
// Lawson-Hanson NNLS on Gt^T x ~ (lb+ub)/2, stopping once the residual lies within (ub-lb)/2.
class NNLSSolver {
   double tol; int maxnnz; NNLS_termination crit;
public:
   typedef void (*Hook)(const Matrix &, const Vector &, const Vector &, Vector &); static Hook &hook() { static Hook h = nullptr; return h; } // may replace a solution
   static std::vector<bool> &log() { static std::vector<bool> c; return c; }   // per call: whether it met its bounds
   NNLSSolver(double const_tol = 1e-14, int = 0, int max_nnz = 0, int = 0, double = 1e-4, double = 1e-14, int = 100000, int = 100000,
              NNLS_termination c = NNLS_termination::LINF) : tol(const_tol), maxnnz(max_nnz), crit(c) {}
   void normalize_constraints(Matrix &, Vector &, Vector &) {}
   void solve_parallel_with_scalapack(const Matrix &Gt, const Vector &lb, const Vector &ub, Vector &soln)
   {
      int n = Gt.numRows(), m = Gt.numColumns();
      std::vector<double> b(m), x(n,0.0), res(m); double half2=0; std::vector<double> half(m);
      for (int i=0;i<m;i++){ b[i]=0.5*(lb(i)+ub(i)); half[i]=0.5*(ub(i)-lb(i)); half2+=half[i]*half[i]; }
      std::vector<char> P(n,0); res=b;
      auto done=[&](){ if(crit==NNLS_termination::L2){double s=0;for(double v:res)s+=v*v;return s<=half2;} for(int i=0;i<m;i++) if(std::fabs(res[i])>half[i]) return false; return true; };
      auto lsq=[&](std::vector<int> &id){ // solve min |A_P z - b| by QR (MGS twice)
         int k=id.size(); std::vector<std::vector<double>> q(k,std::vector<double>(m)),R(k,std::vector<double>(k,0.0));
         for(int j=0;j<k;j++){ for(int i=0;i<m;i++) q[j][i]=Gt(id[j],i); double n0=0; for(double v:q[j])n0+=v*v; n0=std::sqrt(n0);
            for(int rep=0;rep<2;rep++) for(int l=0;l<j;l++){double s=0;for(int i=0;i<m;i++)s+=q[l][i]*q[j][i];R[l][j]+=s;for(int i=0;i<m;i++)q[j][i]-=s*q[l][i];}
            double s=0;for(double v:q[j])s+=v*v; s=std::sqrt(s); R[j][j]=s; if(s<=1e-13*n0){R[j][j]=0;} else for(double &v:q[j])v/=s; }
         std::vector<double> y(k),z(k,0.0); for(int j=0;j<k;j++){double s=0; if(R[j][j]!=0) for(int i=0;i<m;i++)s+=q[j][i]*b[i]; y[j]=s;}
         for(int j=k-1;j>=0;j--){ if(R[j][j]==0){z[j]=0;continue;} double s=y[j]; for(int l=j+1;l<k;l++) s-=R[j][l]*z[l]; z[j]=s/R[j][j]; }
         return z; };
      auto update=[&](){ for(int i=0;i<m;i++){double s=b[i]; for(int j=0;j<n;j++) if(x[j]!=0) s-=Gt(j,i)*x[j]; res[i]=s;} };
      std::vector<char> banned(n,0);
      for (int it=0; it<3*n+10 && !done(); it++) {
         int best=-1; double bv=0; for(int j=0;j<n;j++) if(!P[j]&&!banned[j]){double s=0;for(int i=0;i<m;i++)s+=Gt(j,i)*res[i]; if(s>bv){bv=s;best=j;}}
         if(best<0) break; P[best]=1; bool progressed=true;
         for(;;){ std::vector<int> id; for(int j=0;j<n;j++) if(P[j]) id.push_back(j); auto z=lsq(id); double a=2; for(size_t k=0;k<id.size();k++) if(z[k]<=0){ double d=x[id[k]]-z[k]; double t=d>0? x[id[k]]/d:0.0; a=std::min(a,t);}
            if(a>=2){ for(size_t k=0;k<id.size();k++) x[id[k]]=z[k]; break; }
            for(size_t k=0;k<id.size();k++) x[id[k]]+=a*(z[k]-x[id[k]]);
            bool drop=false; for(size_t k=0;k<id.size();k++) if(z[k]<=0 && x[id[k]]<=1e-14){ if(id[k]==best) progressed=false; x[id[k]]=0;P[id[k]]=0;drop=true;} if(!drop) break; }
         if(!progressed) banned[best]=1; else std::fill(banned.begin(),banned.end(),0);
         update();
      }
      log().push_back(done()); for(int j=0;j<n;j++) soln(j)=x[j];
      if (hook()) { hook()(Gt, lb, ub, soln); }
   }
};
}
#endif
