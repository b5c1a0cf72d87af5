#ifndef VERIF_SHIM_HDFDATABASE_H
#define VERIF_SHIM_HDFDATABASE_H
#include "hdf5.h"
#include <string>
#include <cassert>
namespace CAROM {
struct Database { enum class formats { HDF5, CSV, HDF5_MPIO }; };
class HDFDatabase {
   hid_t f = -1;
   void put(const std::string &k, hid_t t, const void *p, int n)
   { hsize_t d = n; hid_t s = H5Screate_simple(1,&d,NULL); hid_t ds = H5Dcreate2(f,k.c_str(),t,s,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
     assert(ds>=0); if (n) { herr_t e = H5Dwrite(ds,t,H5S_ALL,H5S_ALL,H5P_DEFAULT,p); assert(e>=0); (void)e; } H5Dclose(ds); H5Sclose(s); }
   void get(const std::string &k, hid_t t, void *p, int n)
   { hid_t ds = H5Dopen2(f,k.c_str(),H5P_DEFAULT); assert(ds>=0); hid_t s = H5Dget_space(ds); hssize_t m = H5Sget_simple_extent_npoints(s); assert(m==n); (void)m;
     if (n) { herr_t e = H5Dread(ds,t,H5S_ALL,H5S_ALL,H5P_DEFAULT,p); assert(e>=0); (void)e; } H5Sclose(s); H5Dclose(ds); }
public:
   ~HDFDatabase() { close(); }
   bool create(const std::string &n) { f = H5Fcreate(n.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); return f>=0; }
   bool open(const std::string &n, const std::string &m) { f = H5Fopen(n.c_str(), m=="r"?H5F_ACC_RDONLY:H5F_ACC_RDWR, H5P_DEFAULT); return f>=0; }
   bool close() { if (f>=0) H5Fclose(f); f=-1; return true; }
   void putIntegerArray(const std::string &k, const int *p, int n) { put(k,H5T_NATIVE_INT,p,n); }
   void putDoubleArray(const std::string &k, const double *p, int n) { put(k,H5T_NATIVE_DOUBLE,p,n); }
   void putInteger(const std::string &k, int v) { put(k,H5T_NATIVE_INT,&v,1); }
   void getInteger(const std::string &k, int &v) { get(k,H5T_NATIVE_INT,&v,1); }
   void getIntegerArray(const std::string &k, int *p, int n) { get(k,H5T_NATIVE_INT,p,n); }
   void getDoubleArray(const std::string &k, double *p, int n) { get(k,H5T_NATIVE_DOUBLE,p,n); }
   int getDoubleArraySize(const std::string &k)
   { hid_t ds = H5Dopen2(f,k.c_str(),H5P_DEFAULT); assert(ds>=0); hid_t s = H5Dget_space(ds); int m = (int)H5Sget_simple_extent_npoints(s); H5Sclose(s); H5Dclose(ds); return m; }
};
}
#endif
