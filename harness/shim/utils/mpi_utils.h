#ifndef VERIF_SHIM_MPI_UTILS_H
#define VERIF_SHIM_MPI_UTILS_H
#include <mpi.h>
#include <vector>
namespace CAROM {
inline int split_dimension(const int n, const MPI_Comm &comm = MPI_COMM_WORLD)
{ int s, r; MPI_Comm_size(comm,&s); MPI_Comm_rank(comm,&r); return n/s + ((r < n%s) ? 1 : 0); }
inline int get_global_offsets(const int local, std::vector<int> &off, const MPI_Comm &comm = MPI_COMM_WORLD)
{ int s; MPI_Comm_size(comm,&s); std::vector<int> n(s); MPI_Allgather(&local,1,MPI_INT,n.data(),1,MPI_INT,comm);
  off.assign(s+1,0); for (int k=0;k<s;k++) off[k+1]=off[k]+n[k]; return off[s]; }
}
#endif
