From 3abb8b33f3b037c91b1703e2a5bf0543af642ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 01/43] fix: give a sparse matrix read back without entries
 valid (empty) storage

A stored sparse matrix with no entries was read back with null index and
data arrays, i.e. as an unfinalized matrix whose Mult dereferences null.
---
 src/hdf5_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..c72440c 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -202,6 +202,10 @@ SparseMatrix* ReadSparseMatrix(hid_t &source, std::string matrix_name)
    j_read.StealData(&jp);
    data_read.StealData(&vp);
 
+   // A matrix without entries still needs non-null storage to be a finalized one.
+   if (!jp) jp = new int[0];
+   if (!vp) vp = new double[0];
+
    SparseMatrix *mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
 
    errf = H5Gclose(grp_id);
-- 
2.43.0


From 4bf97d2d9996f44a63222dba38a68acd0401d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 02/43] fix: zero the unloaded components of the component-wise
 training loads

---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..c6338df 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From ae8bcb9df9f7736bb922d76a7e6c1b2268b8ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 03/43] fix: keep the body force of periodic_flow_past_array at
 the spatial dimension

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index c6338df..7c1a750 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -222,7 +222,7 @@ void force(const Vector &x, double t, Vector &y)
 {
    const int dim = x.Size();
    y.SetSize(dim);
-   y = f;
+   for (int d = 0; d < dim; d++) y(d) = f(d);
 }
 
 }  // namespace periodic_flow_past_array
-- 
2.43.0


From 24557d7bd6ddf0b825cd408b39455a693bad8bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 04/43] fix: set the number of parameters of the linear
 elasticity problems

---
 src/parameterized_problem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 7c1a750..d8ef112 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1019,6 +1019,8 @@ ForceDrivenCorner::ForceDrivenCorner()
 LinElastDisp::LinElastDisp()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(3);
    battr.SetSize(3);
@@ -1061,6 +1063,8 @@ LinElastDisp::LinElastDisp()
 LinElastDispLCantilever::LinElastDispLCantilever()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(3);
    battr.SetSize(3);
@@ -1103,6 +1107,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
 LinElastDispLattice::LinElastDispLattice()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1160,6 +1166,8 @@ LinElastDispLattice::LinElastDispLattice()
 LinElastForceCantilever::LinElastForceCantilever()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1216,6 +1224,8 @@ LinElastForceCantilever::LinElastForceCantilever()
 LinElastFrameWind::LinElastFrameWind()
     : LinElastProblem()
 {
+   param_num = 5;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1328,6 +1338,8 @@ AdvDiffFlowPastArray::~AdvDiffFlowPastArray()
 LinElastComponentWiseTrain::LinElastComponentWiseTrain()
     : LinElastProblem()
 {
+   param_num = 40;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
-- 
2.43.0


From 75a83c5a82cd2342b9bd4def6859b2e91355129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 05/43] fix: mark boundary attribute 5 of linelast_frame_wind
 as unloaded

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index d8ef112..4172bbd 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1252,7 +1252,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From 3d5d7eecc8057e32f2e39ca48ec7fc92a8df74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:17 +0000
Subject: [PATCH 06/43] fix: close the global configuration file when it holds
 no boundary data

---
 src/component_topology_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..86caee4 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
-- 
2.43.0


From 8b6dc7acf22d1a450c84e01abb73af2b6367e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:17 +0000
Subject: [PATCH 07/43] fix: close the group of a port that is already set up
 when reading port files

---
 src/component_topology_handler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 86caee4..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -459,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From b93680227f01089cef9d615004ecf11e9f3b3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:23 +0000
Subject: [PATCH 08/43] fix: evaluate interface geometry and traces at the same
 point when side 1 is the second element of the parent face

---
 src/topology_handler.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/topology_handler.cpp b/src/topology_handler.cpp
index 3f5670a..16cb86e 100644
--- a/src/topology_handler.cpp
+++ b/src/topology_handler.cpp
@@ -439,8 +439,18 @@ Array<int> SubMeshTopologyHandler::FindParentInterfaceInfo(const int pface,
       Infs[0] = face_inf[0];
       Infs[1] = face_inf[1];
    } else {
-      Infs[0] = face_inf[1];
-      Infs[1] = face_inf[0];
+      // The interface geometry is evaluated on the face of mesh i, which follows the local face of its own element.
+      // The relative orientation between two elements is thus carried by mesh j.
+      const int ori = face_inf[1] % 64;
+      int inv_ori = ori;   // for segments the inverse is itself.
+      switch (pmesh->GetFaceGeometry(pface))
+      {
+         case Geometry::TRIANGLE:   inv_ori = Geometry::Constants<Geometry::TRIANGLE>::InvOrient[ori]; break;
+         case Geometry::SQUARE:     inv_ori = Geometry::Constants<Geometry::SQUARE>::InvOrient[ori]; break;
+         default: break;
+      }
+      Infs[0] = face_inf[1] - ori;
+      Infs[1] = face_inf[0] + inv_ori;
    }
 
    return Infs;
-- 
2.43.0


From 81f99a6a30eab01902e815d0ddbfb9a64581b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 09/43] fix: keep the Lax-Friedrichs gradient finite where both
 states are at rest

---
 src/interfaceinteg.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..837982f 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1384,7 +1384,11 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    du.Add(-1.0, u2);
 
    if (u1_lg_u2)
-      AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
+   {
+      // at rest on both sides, [ u ] = 0 and there is nothing to add.
+      if (u1mag > 0.0)
+         AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
+   }
    else
       AddMult_a_VWt(normag / u2mag, du, u2, gradu2);
 
-- 
2.43.0


From 3cf5a96b03ef764d599c4cb8328f56e6f8510fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 10/43] fix: pass the integration rule given to the
 Lax-Friedrichs flux on to its virtual bases

---
 include/interfaceinteg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/interfaceinteg.hpp b/include/interfaceinteg.hpp
index 4f25137..cbb1d1a 100644
--- a/include/interfaceinteg.hpp
+++ b/include/interfaceinteg.hpp
@@ -303,7 +303,8 @@ private:
 
 public:
    DGLaxFriedrichsFluxIntegrator(Coefficient &q, VectorCoefficient *ud = NULL, const IntegrationRule *ir = NULL)
-      : InterfaceNonlinearFormIntegrator(ir), Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator") {}
+      : NonlinearFormIntegrator(ir), HyperReductionIntegrator(ir),
+        InterfaceNonlinearFormIntegrator(ir), Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator") {}
 
    virtual ~DGLaxFriedrichsFluxIntegrator() {};
 
-- 
2.43.0


From 17bce7c176753f5982fcc06bfe3e1d784789da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:41 +0000
Subject: [PATCH 11/43] fix: differentiate convection by a prescribed velocity
 field with that field

---
 src/hyperreduction_integ.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..d42c6ea 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // a prescribed advection velocity does not depend on the solution.
+      if (vQ) continue;
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +440,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +456,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // a prescribed advection velocity does not depend on the solution.
+   if (vQ) return;
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +490,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +521,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +533,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   if (vQ)
+      ELV = 0.0;
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From e4ec802ba25ed8ed56f93d963ab987a04c27c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:18 +0000
Subject: [PATCH 12/43] fix: release the type and the string that reading a
 string attribute allocates

---
 src/hdf5_utils.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index c72440c..155e17e 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -52,20 +52,15 @@ void ReadAttribute(hid_t &source, std::string attribute, std::string &value)
    attr = H5Aopen_name(source, attribute.c_str());
    hid_t tmp = H5Aget_type(attr);
 
-   // hid_t attrType = hdf5_utils::GetNativeType(tmp);
-   // status = H5Aread(attr, attrType, &tmp_str);
-
-   /*
-      For some reason H5Aread deletes tmp_str.
-      If tmp_str is not a pointer,
-      it leads to double-free at the end of this fuction.
-   */
-   std::string *tmp_str = new std::string;
-   status = H5Aread(attr, tmp, tmp_str);
+   // H5Aread allocates the variable-length string, and leaves it to us to free.
+   char *tmp_str = NULL;
+   status = H5Aread(attr, tmp, &tmp_str);
    assert(status >= 0);
 
+   H5Tclose(tmp);
    H5Aclose(attr);
-   value = tmp_str->c_str();
+   value = (tmp_str) ? tmp_str : "";
+   H5free_memory(tmp_str);
 }
 
 void WriteAttribute(hid_t &dest, std::string attribute, const std::string &value)
-- 
2.43.0


From 2118575df8a215b92366d5564c728c4b0cdb5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 13/43] fix: close the dataspaces opened by the HDF5 dataset
 helpers

---
 include/hdf5_utils.hpp | 5 +++++
 src/hdf5_utils.cpp     | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index 1a31d9b..e69395f 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -146,6 +146,7 @@ void ReadDataset(hid_t &source, std::string dataset, Array<T> &value)
       H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
    }
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -169,6 +170,7 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    value.SetSize(dims[0], dims[1]);
    if ((dims[0] == 0) || (dims[1] == 0))
    {
+      H5Sclose(dspace_id);
       errf = H5Dclose(dset_id);
       assert(errf >= 0);
 
@@ -178,6 +180,7 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -207,6 +210,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Array<T> &value)
       assert(errf >= 0);
    }
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -230,6 +234,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Array2D<T> &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 155e17e..8a85b61 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -39,6 +39,7 @@ int GetDatasetSize(hid_t &source, std::string dataset, hsize_t* &dims)
    errf = H5Sget_simple_extent_dims(dspace_id, dims, NULL);
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 
@@ -110,6 +111,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -133,6 +135,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseMatrix &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -164,6 +167,7 @@ void ReadDataset(hid_t &source, std::string dataset, std::vector<std::string> &v
    errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, &tmp_strs);
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -355,6 +359,7 @@ void ReadDataset(hid_t &source, std::string dataset, Vector &value)
    hid_t dataType = hdf5_utils::GetType(value[0]);
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -377,6 +382,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Vector &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -401,6 +407,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -425,6 +432,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseTensor &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   H5Sclose(dspace_id);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
-- 
2.43.0


From 928c7d90db37b17df7dc0f9a31b9204d7c0c0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 14/43] fix: do not write the fast convection gradient into
 external data of an earlier assembly

---
 src/hyperreduction_integ.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index d42c6ea..09786ae 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -532,15 +532,16 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
       gradEF.Add(x(k), *((*gradEFs)[k]));
    gradEF *= w;
 
-   ELV.SetSize(dim, nbasis);
+   // ELV may still refer to the external data of an earlier assembly.
+   DenseMatrix vecs(dim, nbasis);
    if (vQ)
-      ELV = 0.0;
+      vecs = 0.0;
    else
-      Mult(gradEF, *shape1, ELV);
+      Mult(gradEF, *shape1, vecs);
 
    for (int k = 0; k < nbasis; k++)
    {
-      ELV.GetColumnReference(k, vec2);
+      vecs.GetColumnReference(k, vec2);
       (*gradEFs)[k]->AddMult(vec1, vec2, w);
    }
 
@@ -548,7 +549,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    for (int k = 0; k < nbasis; k++)
    {
       jac.GetColumnReference(k, jac_col);
-      ELV.GetColumnReference(k, vec2);
+      vecs.GetColumnReference(k, vec2);
       shape1->AddMultTranspose(vec2, jac_col);
    }
 }
-- 
2.43.0


From 8ca433e645206f6c7e4fe9b3e6fea18a4ede58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:44 +0000
Subject: [PATCH 15/43] fix: tell interior from boundary faces by the face
 itself in the fast Lax-Friedrichs gradient

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 837982f..2acaea7 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1830,7 +1830,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From a7d3f0a8fe794f2f71d5820283b49d8aeba5d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:44 +0000
Subject: [PATCH 16/43] fix: release the samples an element already held when
 loading others

---
 src/hyperreduction_integ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 09786ae..f32060a 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -82,6 +82,7 @@ void EQPElement::Load(hid_t file_id, const std::string &dsetname, const Integrat
    errf = H5Gclose(grp_id);
    assert(errf >= 0);
 
+   DeletePointers(samples);
    samples.SetSize(el.Size());
    for (int k = 0; k < el.Size(); k++)
       samples[k] = new EQPSample(SampleInfo({.el=el[k], .qp=qp[k], .qw=qw[k]}));
-- 
2.43.0


From bf248a42453beb3bf79a5b25c0bd23018eaef2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 17/43] fix: contract the tensor with every entry of the vector
 along its second axis

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..be29674 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From a5da6cba3ff65358dd95194095bbe1246166799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 18/43] fix: size the row pointers of a sparse matrix read from
 file by its rows

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index be29674..099478d 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -374,7 +374,7 @@ SparseMatrix* ReadSparseMatrixFromHDF(const std::string filename)
    hdfIO.getIntegerArray("size", &size[0], 2);
 
    const int n_entry = hdfIO.getDoubleArraySize("data");
-   Array<int> i_read(n_entry), j_read(n_entry);
+   Array<int> i_read(size[0]+1), j_read(n_entry);
    Vector data_read(n_entry);
    hdfIO.getIntegerArray("I", i_read.Write(), size[0]+1);
    hdfIO.getIntegerArray("J", j_read.Write(), i_read[size[0]]);
-- 
2.43.0


From c6bc61eaa5be59e3823c5218d8d6980406b4d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 19/43] fix: start from zero when adding a submatrix projection
 to a new matrix

---
 src/linalg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 099478d..7e8a844 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -524,7 +524,11 @@ void AddSubMatrixRtAP(const DenseMatrix& R, const Array<int> &Rrows,
       assert((rmax >= 0) && (rmax < P.NumRows()));
    }
 
-   RAP.SetSize(height, width);
+   if ((RAP.NumRows() != height) || (RAP.NumCols() != width))
+   {
+      RAP.SetSize(height, width);
+      RAP = 0.0;
+   }
    Vector tmp(Arow), RAP_col;
 
    const double *d_P = P.Read();
-- 
2.43.0


From 945785816596572a5f68a76e3de11aea9023f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 20/43] fix: copy the blocks when a block collection is
 copy-constructed

---
 include/linalg_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/linalg_utils.hpp b/include/linalg_utils.hpp
index 9957631..850e5af 100644
--- a/include/linalg_utils.hpp
+++ b/include/linalg_utils.hpp
@@ -59,6 +59,9 @@ struct MatrixBlocks
    MatrixBlocks(const Array2D<SparseMatrix *> &mats)
    { *this = mats; }
 
+   MatrixBlocks(const MatrixBlocks &matblock) : nrows(0), ncols(0), blocks(0, 0)
+   { *this = matblock; }
+
    ~MatrixBlocks() { DeletePointers(blocks); }
 
    void SetSize(const int w, const int h)
-- 
2.43.0


From 009eb1d43d2dadffff079d9e496503920634f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 21/43] fix: invert the diagonal blocks of the operator a block
 smoother is given

---
 src/block_smoother.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..745ab10 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -16,22 +16,9 @@ namespace mfem
 */
 
 BlockSmoother::BlockSmoother(const BlockMatrix &a)
-   : MatrixInverse(a),
-     oper(&a),
-     num_row_blocks(a.NumRowBlocks()),
-     num_col_blocks(a.NumColBlocks()),
-     row_offsets(a.RowOffsets()),
-     col_offsets(a.ColOffsets())
+   : MatrixInverse(a)
 {
-   assert(num_row_blocks == num_col_blocks);
-
-   diag_inv.SetSize(num_row_blocks);
-   diag_inv = NULL;
-   for (int b = 0; b < num_row_blocks; b++)
-   {
-      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
-      diag_inv[b]->Invert();
-   }
+   BlockSmoother::SetOperator(a);
 }
 
 BlockSmoother::~BlockSmoother()
@@ -48,6 +35,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   row_offsets = oper->RowOffsets();
+   col_offsets = oper->ColOffsets();
+   assert(num_row_blocks == num_col_blocks);
+
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   diag_inv = NULL;
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From 618ca3dce9a3d7978e2ff7a8b8c9f2abb5bf2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:58 +0000
Subject: [PATCH 22/43] fix: keep the line search bracket when its ends tie
 with the minimum

---
 src/linalg_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 7e8a844..c46d393 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -877,8 +877,9 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
          J_arr[1] = fbx, J_arr[2] = fb;
       }
 
-      fb = J_arr.Min();
-      int idx = J_arr.Find(fb); assert(idx > 0);
+      // the ends may tie with the minimum, which is always inside the bracket.
+      int idx = (J_arr[2] < J_arr[1]) ? 2 : 1;
+      fb = J_arr[idx];
       fa = J_arr[idx-1]; fc = J_arr[idx+1];
       a = x_arr[idx-1]; b = x_arr[idx]; c = x_arr[idx+1];
    }
-- 
2.43.0


From dda5e5c100a7162dbe9b10a8ae2ced9510baccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:58 +0000
Subject: [PATCH 23/43] fix: fall back to the golden section when the parabolic
 estimate is undefined

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index c46d393..911f3fa 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -855,7 +855,7 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
       if ( (c-a) < b * lin_tol + eps ) break;
       
       double b_new = b - 0.5 * ( pow(b-a, 2) * (fb-fc) - pow(b-c, 2) * (fb-fa) ) / ( (b-a) * (fb-fc) - (b-c) * (fb-fa) );
-      if ((b_new > c) || (b_new < a) || (abs(log10((c-b) / (b-a))) > 1.0))
+      if (!(b_new <= c) || !(b_new >= a) || (abs(log10((c-b) / (b-a))) > 1.0))
          if ( b > 0.5 * (a+c) )
             b_new = b - Cr * (b-a);
          else
-- 
2.43.0


From b6de780c3d011431b1378e75a25e729a9e1c428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:58 +0000
Subject: [PATCH 24/43] fix: reset the convergence flag of the minimizer and
 stop at a stationary start

---
 src/linalg_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 911f3fa..f20290b 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -900,10 +900,14 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    double res0 = sqrt(Jmin);
    printf("Initial iteration: ||r|| = %.4E\n", res0);
 
+   converged = ((res0 == 0.0) || (res0 < abs_tol));
+   if (converged) return;
+
    Gradient(rhs, sol, g);
 
    g *= -1.0; xi = g; h = g;
    double gg0 = g * g;
+   if (gg0 == 0.0) return;
 
    double b0 = ib / sqrt(gg0);
 
-- 
2.43.0


From c632ecde71685a1f5e4ef1a317d73748f825c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 25/43] fix: keep the generated default mesh file name alive
 until it is used

---
 utils/1d_mesh.cpp        | 5 +++--
 utils/cubic_mesh.cpp     | 5 +++--
 utils/rectangle_mesh.cpp | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/utils/1d_mesh.cpp b/utils/1d_mesh.cpp
index 9938eee..75493b3 100644
--- a/utils/1d_mesh.cpp
+++ b/utils/1d_mesh.cpp
@@ -75,6 +75,7 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
+   std::string outputFile(meshFileString);
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       oss << "1d";
@@ -88,9 +89,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      outputFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(outputFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/cubic_mesh.cpp b/utils/cubic_mesh.cpp
index 2fcac5c..f6cf6e7 100644
--- a/utils/cubic_mesh.cpp
+++ b/utils/cubic_mesh.cpp
@@ -182,6 +182,7 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
+   std::string outputFile(meshFileString);
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       if (el_type_ == Element::HEXAHEDRON)
@@ -221,9 +222,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      outputFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(outputFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/rectangle_mesh.cpp b/utils/rectangle_mesh.cpp
index 862c8a8..a81d2e4 100644
--- a/utils/rectangle_mesh.cpp
+++ b/utils/rectangle_mesh.cpp
@@ -165,6 +165,7 @@ printf("%s\n", meshFileString);
    }
 
    // Output the resulting mesh to a file
+   std::string outputFile(meshFileString);
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       if (el_type_ == Element::QUADRILATERAL)
@@ -204,9 +205,9 @@ printf("%s\n", meshFileString);
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      outputFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(outputFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
-- 
2.43.0


From 579d3a8cef915d01e5f3a46c17b2ea22a9b12a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 26/43] fix: use one-dimensional vectors in the one-dimensional
 mesh tool

---
 utils/1d_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/1d_mesh.cpp b/utils/1d_mesh.cpp
index 75493b3..b2800c7 100644
--- a/utils/1d_mesh.cpp
+++ b/utils/1d_mesh.cpp
@@ -51,7 +51,7 @@ int main(int argc, char *argv[])
    if (per_mesh) {
      std::vector<int> v2v(orig_mesh.GetNV());
      std::vector<Vector> translations;
-     translations = {Vector({a_,0.0})};
+     translations = {Vector({a_})};
      v2v = orig_mesh.CreatePeriodicVertexMapping(translations);
      mesh = Mesh::MakePeriodic(orig_mesh,v2v);
      std::cout << "created periodic mesh." << std::endl;
@@ -69,9 +69,9 @@ int main(int argc, char *argv[])
    printf("number of elements: %d\n", numElem);
    for (int el = 0; el < numElem; el++) {
      int attr = mesh.GetAttribute(el);
-     Vector center(2);
+     Vector center(1);
      mesh.GetElementCenter(el, center);
-     printf("Element %d: %d - (%f, %f)\n", el, attr, center(0), center(1));
+     printf("Element %d: %d - (%f)\n", el, attr, center(0));
    }
 
    // Output the resulting mesh to a file
-- 
2.43.0


From c3e5fa06d8466e00b17595bf90c692b7f8d723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 27/43] fix: convert three-dimensional meshes in their own
 space dimension

---
 utils/gmsh2mfem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/gmsh2mfem.cpp b/utils/gmsh2mfem.cpp
index 4012253..6afdec7 100644
--- a/utils/gmsh2mfem.cpp
+++ b/utils/gmsh2mfem.cpp
@@ -39,18 +39,18 @@ int main(int argc, char *argv[])
 
    // Promote to high order mesh
    if (order_ >1)
-      mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+      mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
    
    // Force mesh to be nonconforming
    if (force_nc_)
    {
       if (mesh.GetNodalFESpace())
       {
-         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
       else
       {
-         mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
    }
    
-- 
2.43.0


From 387eab9e3315cc33a8159a477b45d41a1c303e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 28/43] fix: reduce profiling times over the profiler's own
 communicator and leave the counters alone

---
 include/etc.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/etc.hpp b/include/etc.hpp
index 9aad33e..16bde8b 100644
--- a/include/etc.hpp
+++ b/include/etc.hpp
@@ -58,7 +58,7 @@ public:
     TimeProfiler(const std::string &title_, MPI_Comm comm_=MPI_COMM_WORLD)
         : title(title_), comm(comm_)
     {
-        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+        MPI_Comm_rank(comm, &rank);
         calls.SetSize(0);
         names.clear();
         indices.clear();
@@ -124,10 +124,11 @@ public:
         Array<double> times(nfunc);
         for (int k = 0; k < nfunc; k++)
             times[k] = timers[k]->RealTime();
-        double total = times.Sum();
+        Array<int> ncalls(calls);
 
-        MPI_Reduce(MPI_IN_PLACE, times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
-        MPI_Reduce(MPI_IN_PLACE, calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : times.GetData(), times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : ncalls.GetData(), ncalls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        double total = times.Sum();
 
         if (rank == 0)
         {
@@ -139,7 +140,7 @@ public:
             printf("%20s\t%20s\t%20s\t%20s\n", "Function", "Total time", "Calls", "Time per call");
             for (int k = 0; k < nfunc; k++)
             {
-                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], calls[k], times[k] / calls[k]);
+                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], ncalls[k], times[k] / ncalls[k]);
             }
             if (compute_sum)
                 printf("%20s\t%20.5e\t%20d\t%20.5e\n", "Total time", total, 1, total);
-- 
2.43.0


From fb7032d9b11b88b89cd94ff3e29ae6f39487132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 29/43] fix: apply Dirichlet conditions to elasticity operators
 on continuous subdomain spaces too

---
 src/linelast_solver.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..c282fd3 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,19 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From 06f9cc6b0d441092f9edc1f33214e52328bbfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 30/43] fix: index zero velocity boundaries by their place
 among the global boundary attributes

---
 src/stokes_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..fa3909e 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1138,7 +1138,10 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
             if (problem->battr[b] == -1)
             { nz_dbcs = false; break; }
             else
-               nz_dbcs[b] = false;
+            {
+               const int idx = global_bdr_attributes.Find(problem->battr[b]);
+               if (idx >= 0) nz_dbcs[idx] = false;
+            }
          }
       }
       SetComplementaryFlux(nz_dbcs);
-- 
2.43.0


From a3698db9f196cea13c79e4a45803edc46694d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:07 +0000
Subject: [PATCH 31/43] fix: factor systems of non-symmetric interior penalty
 forms as unsymmetric

---
 src/linelast_solver.cpp | 4 +++-
 src/poisson_solver.cpp  | 4 +++-
 src/stokes_solver.cpp   | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index c282fd3..47eb61f 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -292,7 +292,9 @@ void LinElastSolver::AssembleOperator()
       globalMat_hypre = new HypreParMatrix(MPI_COMM_WORLD, sys_glob_size, sys_row_starts, globalMat_mono);
 
       mumps = new MUMPSSolver(MPI_COMM_SELF);
-      mumps->SetMatrixSymType(MUMPSSolver::MatType::SYMMETRIC_POSITIVE_DEFINITE);
+      // the interior penalty form is symmetric only for alpha = -1.
+      mumps->SetMatrixSymType((alpha == -1.0) ? MUMPSSolver::MatType::SYMMETRIC_POSITIVE_DEFINITE
+                                              : MUMPSSolver::MatType::UNSYMMETRIC);
       mumps->SetOperator(*globalMat_hypre);
    }
 }
diff --git a/src/poisson_solver.cpp b/src/poisson_solver.cpp
index 948ed83..59d58a1 100644
--- a/src/poisson_solver.cpp
+++ b/src/poisson_solver.cpp
@@ -588,6 +588,8 @@ void PoissonSolver::SetMUMPSSolver()
 {
    assert(globalMat_hypre);
    mumps = new MUMPSSolver(MPI_COMM_SELF);
-   mumps->SetMatrixSymType(MUMPSSolver::MatType::SYMMETRIC_POSITIVE_DEFINITE);
+   // the interior penalty form is symmetric only for sigma = -1.
+   mumps->SetMatrixSymType((sigma == -1.0) ? MUMPSSolver::MatType::SYMMETRIC_POSITIVE_DEFINITE
+                                           : MUMPSSolver::MatType::UNSYMMETRIC);
    mumps->SetOperator(*globalMat_hypre);
 }
\ No newline at end of file
diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index fa3909e..617330b 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -491,7 +491,8 @@ void StokesSolver::SetupMUMPSSolver(bool set_oper, const MUMPSSolver::MatType ma
    systemOp_hypre = new HypreParMatrix(MPI_COMM_SELF, sys_glob_size, sys_row_starts, systemOp_mono);
 
    mumps = new MUMPSSolver(MPI_COMM_SELF);
-   mumps->SetMatrixSymType(mat_type);
+   // the interior penalty form is symmetric only for sigma = -1.
+   mumps->SetMatrixSymType((sigma == -1.0) ? mat_type : MUMPSSolver::MatType::UNSYMMETRIC);
    if (set_oper) mumps->SetOperator(*systemOp_hypre);
 }
 
-- 
2.43.0


From 41a4daa8b08d04c745c20c23be08b6c1cd0d84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 32/43] fix: precomputed interface samples honour the basis
 offset of their component

---
 include/rom_interfaceform.hpp |  3 ++-
 src/rom_interfaceform.cpp     | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/rom_interfaceform.hpp b/include/rom_interfaceform.hpp
index 4193c71..37a177c 100644
--- a/include/rom_interfaceform.hpp
+++ b/include/rom_interfaceform.hpp
@@ -141,7 +141,8 @@ private:
    void PrecomputeEQPSample(const IntegrationRule &ir,
                             FaceElementTransformations *tr1, FaceElementTransformations *tr2,
                             FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-                            const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample);
+                            const DenseMatrix &basis1, const DenseMatrix &basis2,
+                            const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample);
 };
 
 } // namespace mfem
diff --git a/src/rom_interfaceform.cpp b/src/rom_interfaceform.cpp
index 13e5dca..64bbc63 100644
--- a/src/rom_interfaceform.cpp
+++ b/src/rom_interfaceform.cpp
@@ -778,6 +778,7 @@ void ROMInterfaceForm::PrecomputeCoefficients()
    FaceElementTransformations *tr1, *tr2;
    FiniteElementSpace *fes1 = NULL, *fes2 = NULL;
    DenseMatrix *basis1 = NULL, *basis2 = NULL;
+   int basis1_offset, basis2_offset;
    int c1, c2;
 
    for (int k = 0; k < fnfi.Size(); k++)
@@ -798,6 +799,9 @@ void ROMInterfaceForm::PrecomputeCoefficients()
          basis1 = comp_basis[c1];
          basis2 = comp_basis[c2];
 
+         basis1_offset = comp_basis_dof_offsets[c1];
+         basis2_offset = comp_basis_dof_offsets[c2];
+
          fes1 = comp_fes[c1];
          fes2 = comp_fes[c2];
 
@@ -814,7 +818,7 @@ void ROMInterfaceForm::PrecomputeCoefficients()
             topol_handler->GetInterfaceTransformations(mesh1, mesh2, &(*interface_infos)[itf], tr1, tr2);
 
             PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2,
-                                *basis1, *basis2, *sample);
+                                *basis1, *basis2, basis1_offset, basis2_offset, *sample);
          }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
          if (c1 == c2)
@@ -826,7 +830,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
 void ROMInterfaceForm::PrecomputeEQPSample(
    const IntegrationRule &ir, FaceElementTransformations *tr1, FaceElementTransformations *tr2,
    FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-   const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample)
+   const DenseMatrix &basis1, const DenseMatrix &basis2,
+   const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample)
 {
    const int nbasis1 = basis1.NumCols();
    const int nbasis2 = basis2.NumCols();
@@ -837,6 +842,13 @@ void ROMInterfaceForm::PrecomputeEQPSample(
    Array<int> vdofs1, vdofs2;
    fes1->GetElementVDofs(tr1->Elem1No, vdofs1);
    fes2->GetElementVDofs(tr2->Elem1No, vdofs2);
+
+   if (basis1_offset > 0)
+      for (int v = 0; v < vdofs1.Size(); v++)
+         vdofs1[v] += basis1_offset;
+   if (basis2_offset > 0)
+      for (int v = 0; v < vdofs2.Size(); v++)
+         vdofs2[v] += basis2_offset;
    
    int dim = fe1->GetDim();
    int ndofs1 = fe1->GetDof();
-- 
2.43.0


From 0462b2f1d3e6934232fb7b0aeebcf450090f85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 33/43] fix: write zero, not uninitialised memory, for the
 coordinate a 2D sample point lacks

---
 src/rom_nonlinearform.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index 9b7bf00..fa93e94 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -1541,11 +1541,11 @@ void ROMNonlinearForm::SaveDomainEQPCoords(const int k, hid_t file_id, const std
       ElementTransformation *T = fes->GetElementTransformation(el);
       const IntegrationPoint &ip = ir->IntPoint(eqp_sample->info.qp);
 
-      double x[3];
-      Vector transip(x, 3);
+      Vector transip;
       T->Transform(ip, transip);
 
-      eqp_coords.SetRow(i, transip);
+      for (int d = 0; d < eqp_coords.NumCols(); d++)
+         eqp_coords(i, d) = (d < transip.Size()) ? transip(d) : 0.0;
    }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
    assert(file_id >= 0);
-- 
2.43.0


From 7cc4f3a02555f40ac701b8420a8d1900b9f34e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 34/43] fix: restart files hold the solution of their own time
 step

---
 src/unsteady_ns_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..8bde51a 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -124,6 +124,8 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
           (((step+1) % restart_interval) == 0))
       {
          restart_file = string_format(file_fmt, sol_dir.c_str(), sol_prefix.c_str(), step+1);
+         /* copy to original solution variable */
+         SortBySubdomains(*U_step, *U);
          SaveSolutionWithTime(restart_file, step+1, time);
       }
 
-- 
2.43.0


From 4ae14922586a3af4c5cf5732181db6c6d98bfd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:31 +0000
Subject: [PATCH 35/43] fix: skip subdomains without a visualization collection
 when setting the time

---
 src/multiblock_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..45aefdc 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -485,6 +485,8 @@ void MultiBlockSolver::SaveVisualization(const int step, const double time)
 
    for (int m = 0; m < paraviewColls.Size(); m++)
    {
+      // subdomains not chosen for visualization have no collection.
+      if (!paraviewColls[m]) continue;
       paraviewColls[m]->SetCycle(step);
       paraviewColls[m]->SetTime(time);
    }
-- 
2.43.0


From 8978099367f4864326b48a8875301dc3bd80f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 36/43] fix: velocity offsets of the EQP steady Navier-Stokes
 ROM follow the block layout

---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..e8cef0d 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k] + 1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From 0d46623bce3115d2689110b5ed47c793cee410fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 37/43] fix: EQP training on a mesh without interior faces
 takes no interior-face samples

---
 src/rom_nonlinearform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index fa93e94..ba9e506 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -752,8 +752,20 @@ void ROMNonlinearForm::TrainEQP(const CAROM::Matrix &snapshots, const double eqp
       UpdateDomainIntegratorSampling(k, samples);
    }
 
+   // A mesh of a single element has no interior face to sample.
+   bool interior_face = false;
+   for (int f = 0; f < mesh->GetNumFaces(); f++)
+      interior_face = interior_face || mesh->FaceIsInterior(f);
+
    for (int k = 0; k < fnfi.Size(); k++)
    {
+      if (!interior_face)
+      {
+         samples.SetSize(0);
+         UpdateInteriorFaceIntegratorSampling(k, samples);
+         continue;
+      }
+
       SetupEQPSystemForInteriorFaceIntegrator(snapshots_work, fnfi[k], Gt, rhs_Gw, fidxs);
       TrainEQPForIntegrator(fnfi[k], Gt, rhs_Gw, eqp_tol, samples);
       for (int s = 0; s < samples.Size(); s++)
-- 
2.43.0


From 98dcb3e45ee5330f7ae8ea14e63276dc26fca336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 38/43] fix: release the transformed vertices after matching a
 port

---
 src/component_topology_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 0f1ca80..0d9eca4 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -878,6 +878,7 @@ void ComponentTopologyHandler::BuildPortDataFromInput(const YAML::Node port_dict
          mfem_error("BuildPortDataFromInput: Cannot find the matching vertex!\n");
       }
    }  // for (int v1 = 0; v1 < vtx1.Size(); v1++)
+   DeletePointers(x2_trns);
 
    for (int b2 = 0; b2 < be2.Size(); b2++)
    {
-- 
2.43.0


From 144da479ded584254a3c51978a22dd2b7bb916a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 39/43] fix: release the component mass operators of a ROM
 element collection

---
 src/rom_element_collection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom_element_collection.cpp b/src/rom_element_collection.cpp
index 47ffa6d..54be8df 100644
--- a/src/rom_element_collection.cpp
+++ b/src/rom_element_collection.cpp
@@ -36,6 +36,7 @@ ROMLinearElement::ROMLinearElement(
 ROMLinearElement::~ROMLinearElement()
 {
    DeletePointers(comp);
+   DeletePointers(mass);
    for (int c = 0; c < bdr.Size(); c++)
    {
       DeletePointers((*bdr[c]));
-- 
2.43.0


From f174109ac0881cf2f20dab507db1e5b3b954136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 40/43] fix: do not leak the vectors that become column
 references

---
 src/hyperreduction_integ.cpp | 6 +++---
 src/nonlinear_integ.cpp      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index f32060a..4d3bbdd 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -521,7 +521,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
 
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
-   Vector vec1(dim), vec2(dim);
+   Vector vec1(dim), vec2;
    if (vQ)
       vQ->Eval(vec1, T, ip);
    else
@@ -622,7 +622,7 @@ void IncompressibleInviscidFluxNLFIntegrator::AssembleElementGrad(
    EF.UseExternalData(elfun.GetData(), nd, dim);
 
    double w;
-   Vector vec1(dim), vec2(nd), vec3(nd);
+   Vector vec1(dim), vec2(nd), vec3;
 
    const IntegrationRule *ir = IntRule ? IntRule : &GetRule(el, trans);
 
@@ -711,7 +711,7 @@ void IncompressibleInviscidFluxNLFIntegrator::AssembleQuadratureGrad(
 
    EF.UseExternalData(elfun.GetData(), nd, dim);
 
-   Vector vec1(dim), vec2(nd), vec3(nd);
+   Vector vec1(dim), vec2(nd), vec3;
 
    const IntegrationRule *ir = IntRule ? IntRule : &GetRule(el, trans);
 
diff --git a/src/nonlinear_integ.cpp b/src/nonlinear_integ.cpp
index df76084..3d7a5da 100644
--- a/src/nonlinear_integ.cpp
+++ b/src/nonlinear_integ.cpp
@@ -74,7 +74,7 @@ void TemamTrilinearFormIntegrator::AssembleElementGrad(
    EF.UseExternalData(elfun.GetData(), nd, dim);
 
    double w;
-   Vector u1(dim), vec2(nd), vec3(nd);
+   Vector u1(dim), vec2(nd), vec3;
 
    const IntegrationRule *ir = IntRule ? IntRule : &GetRule(el, trans);
 
-- 
2.43.0


From eb073d90b87d294ad1a5ca0cfe44ef94857b07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:13 +0000
Subject: [PATCH 41/43] fix: list the basis tags of adv-diff with one basis per
 variable

---
 src/main_workflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..1dd3328 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -121,6 +121,7 @@ std::vector<BasisTag> GetGlobalBasisTagList(const TopologyHandlerMode &topol_mod
       else if (solver_type == "stokes")      var_list = StokesSolver::GetVariableNames();
       else if (solver_type == "steady-ns")   var_list = SteadyNSSolver::GetVariableNames();
       else if (solver_type == "linelast")   var_list = LinElastSolver::GetVariableNames();
+      else if (solver_type == "adv-diff")   var_list = AdvDiffSolver::GetVariableNames();
       else if (solver_type == "unsteady-ns")   var_list = UnsteadyNSSolver::GetVariableNames();
       else
       {
-- 
2.43.0


From 5ac176ebffd7f3fe17332c1bcd0f24849896b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:33 +0000
Subject: [PATCH 42/43] fix: lattice_cantilever builds the lattice size it is
 given

---
 utils/python/linelast_comp.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/python/linelast_comp.py b/utils/python/linelast_comp.py
index fab9990..74a91ca 100644
--- a/utils/python/linelast_comp.py
+++ b/utils/python/linelast_comp.py
@@ -78,8 +78,6 @@ def SimpleL():
     return
 
 def LatticeCantilever(nx, ny):
-    nx = 2
-    ny = 2
     l = 4.0
     w = 1.0
 
-- 
2.43.0


From 71bb358dc6261da8a3097c926e688379d4d46249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:33 +0000
Subject: [PATCH 43/43] fix: read_output reads the datasets that result files
 hold

---
 utils/python/read_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/python/read_output.py b/utils/python/read_output.py
index a05f1ea..0d872ea 100644
--- a/utils/python/read_output.py
+++ b/utils/python/read_output.py
@@ -26,7 +26,7 @@ def collectResults(format_, nSample, attrs):
     for k, filename in enumerate(filenames):
         with h5py.File(filename, 'r') as f:
             for a, attr in enumerate(attrs):
-                results[a, k] = f.attrs[attr]
+                results[a, k] = f[attr][0]
     
     results = np.sort(results)
 
-- 
2.43.0

