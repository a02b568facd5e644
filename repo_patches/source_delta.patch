From 71d273db09b0b2db7bbe9931df2b731806de5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 01/86] fix: self-assignment of a Structure emptied it

---
 source/nblist/include/structure.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 6f7821a37c73194f6177dc57db77818de3453ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 02/86] fix: supercell of a supercell lost the origin of the
 first one

---
 source/nblist/include/structure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 6d0bb46..5f1e930 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -580,7 +580,7 @@ void Structure<CoordType>::make_supercell(const int *scaling_matrix) {
 
     // Step 3.3. Calculate `pseudo_origin` and assign it to `this->pseudo_origin`
     for (int ii=0; ii<3; ii++) {
-        this->pseudo_orgin[ii] = (
+        this->pseudo_orgin[ii] += (
             range[0][0] * this->basis_vectors[0][ii] + 
             range[1][0] * this->basis_vectors[1][ii] + 
             range[2][0] * this->basis_vectors[2][ii]
-- 
2.43.0


From 41268571c02da6d8680d730a4a97d557f5f277a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 03/86] fix: home cell of a supercell with even scaling factors
 was misidentified

Supercell numbers its cells with x running fastest; make_supercell() laid
them out with z running fastest, so the owned atoms of e.g. a 3x2x1
supercell were those of a neighbouring cell.
---
 source/nblist/include/structure.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 5f1e930..69e0768 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -548,9 +548,9 @@ void Structure<CoordType>::make_supercell(const int *scaling_matrix) {
 
     // Step 3.2. Calculate `cart_coords` and assign it to `this->cart_coords`
     int atom_idx = 0;
-    for (int ii=range[0][0]; ii <= range[0][1]; ii++) {
+    for (int kk=range[2][0]; kk <= range[2][1]; kk++) {    // x runs fastest, as in `Supercell::calc_prim_cell_idx`
         for (int jj=range[1][0]; jj <= range[1][1]; jj++) {
-            for (int kk=range[2][0]; kk <= range[2][1]; kk++) {
+            for (int ii=range[0][0]; ii <= range[0][1]; ii++) {
                 for (int prim_atom_idx=0; prim_atom_idx<num_atoms_prim; prim_atom_idx++) {
                     //std::cout << ii << ", " << jj << ", " << kk << std::endl;
                     this->cart_coords[atom_idx][0] = (
-- 
2.43.0


From 967a5ea2ab6f40903b078d2e18be1872f6d491b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 04/86] fix: BasicStructureInfo::operator= returned nothing

---
 source/nblist/include/binLinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..a93a9c6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
-- 
2.43.0


From 7847597799b62bfb19c419025e37c85c5be2ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:33 +0000
Subject: [PATCH 05/86] fix: self-assignment of Supercell, BinLinkedList and
 NeighborList read freed memory

---
 source/nblist/include/binLinkedList.h | 6 ++++++
 source/nblist/include/neighborList.h  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index a93a9c6..2f69c20 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -396,6 +396,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -744,6 +747,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
-- 
2.43.0


From b44872ff46fb7ec0913860a60ac2a9e6a244994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:08 +0000
Subject: [PATCH 06/86] fix: an atom on the upper face of the box was put into
 a bin that does not exist

---
 source/nblist/include/binLinkedList.h | 29 ++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 2f69c20..67361de 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -3,6 +3,7 @@
 
 
 #include <vector>
+#include <algorithm>
 #include <cassert>
 #include "./structure.h"
 #include "../../core/include/vec3Operation.h"
@@ -112,6 +113,8 @@ public:
 
     void _build();
 
+    int get_bin_idx_along(CoordType coord, int axis) const;     // always in [0, this->num_bin_xyz[axis])
+
     int get_bin_idx(int prim_atom_idx) const;
 
     int get_num_neigh_bins() const;
@@ -826,9 +829,9 @@ void BinLinkedList<CoordType>::_build() {
     int tmp_bin_idx;
     for (int ii=0; ii<this->supercell.get_num_atoms(); ii++) {
         const CoordType* atom_coord = this->supercell.get_structure().get_cart_coords()[ii];
-        tmp_bin_idx_xyz[0] = std::floor( (atom_coord[0] - this->min_limit_xyz[0]) / this->bin_size_xyz[0] );
-        tmp_bin_idx_xyz[1] = std::floor( (atom_coord[1] - this->min_limit_xyz[1]) / this->bin_size_xyz[1] );
-        tmp_bin_idx_xyz[2] = std::floor( (atom_coord[2] - this->min_limit_xyz[2]) / this->bin_size_xyz[2] );
+        tmp_bin_idx_xyz[0] = this->get_bin_idx_along(atom_coord[0], 0);
+        tmp_bin_idx_xyz[1] = this->get_bin_idx_along(atom_coord[1], 1);
+        tmp_bin_idx_xyz[2] = this->get_bin_idx_along(atom_coord[2], 2);
         tmp_bin_idx = (
             tmp_bin_idx_xyz[0] + 
             tmp_bin_idx_xyz[1] * this->num_bin_xyz[0] + 
@@ -840,6 +843,22 @@ void BinLinkedList<CoordType>::_build() {
 }
 
 
+/**
+ * @brief Bin index of a coordinate along one axis. An atom on the upper face of the box 
+ *        (or beyond a face) belongs to the outermost bin.
+ * 
+ * @tparam CoordType 
+ * @param coord 
+ * @param axis 
+ * @return int 
+ */
+template <typename CoordType>
+int BinLinkedList<CoordType>::get_bin_idx_along(CoordType coord, int axis) const {
+    int bin_idx = std::floor( (coord - this->min_limit_xyz[axis]) / this->bin_size_xyz[axis] );
+    return std::max(0, std::min(bin_idx, this->num_bin_xyz[axis] - 1));
+}
+
+
 /**
  * @brief 
  *          S1. 找到 prim_atom_idx 在 `center_cell` 中对应的 `atom_idx`
@@ -858,7 +877,7 @@ int BinLinkedList<CoordType>::get_bin_idx(int prim_atom_idx) const {
     // Step 2. 根据 `atom_cart_coord` 计算原子所属的 bin_idx
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++) {
-        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = this->get_bin_idx_along(atom_cart_coord[ii], ii);
     }
 
     return (
@@ -917,7 +936,7 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++)
-        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = this->get_bin_idx_along(atom_cart_coord[ii], ii);
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
-- 
2.43.0


From bd340e6280f9d6fdb52d7050bb237848016156c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 07/86] fix: neighbours were listed twice when the bins wrap
 around onto each other

---
 source/nblist/include/binLinkedList.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 67361de..9dea5ae 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -964,8 +964,13 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 for (int pp=0; pp<3; pp++) {
                     if (this->pbc_xyz[pp] == false) {   // 无周期性
                         neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
+                    } else if (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] - this->num_bin_xyz[pp] >= bin_idx_xyz[pp] - num_extened_neigh_bins[pp]) {
+                        // fewer bins than candidates: an earlier candidate wraps onto the same bin
+                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = -1;
                     } else {
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] + this->num_bin_xyz[pp] ) % this->num_bin_xyz[pp];                        
+                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] % this->num_bin_xyz[pp];
+                        if (neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] < 0)
+                            neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] += this->num_bin_xyz[pp];
                     }
                 }
                 //printf("this->num_bins_xyz[%d][3] = [%d, %d, %d]\n", this->num_bin_xyz[0], this->num_bin_xyz[1], this->num_bin_xyz[2]);                
-- 
2.43.0


From 2a0ba762a1581fada42f5a7331fd249c6aebde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 08/86] fix: get_natoms() counted elements in order of
 appearance instead of ascending atomic number

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..238ecbe 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -627,7 +627,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From 1eb648131e803001c9014c29230f58b11ce8a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 09/86] fix: DStructure.from_file() ignored its `sort` argument

---
 matersdk/io/publicLayer/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 238ecbe..f8d6d96 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -60,6 +60,8 @@ class DStructure(Structure):
                 coords_are_cartesian=False) # atom.config 默认均为分数坐标
 
         structure.__class__ = cls
+        if sort:
+            structure.reformat_elements_()
         return structure
     
     
-- 
2.43.0


From ba6a24f4a92b9ede8ca8ef39b2f726643108a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 10/86] fix: DStructure.from_str() used attributes
 ACstrExtractor does not have

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index f8d6d96..ef83389 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -91,9 +91,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From 6ff550eba87dd5172123f315ce42d361bffa496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 11/86] fix: reformat_elements() permuted the species but not
 their coordinates, and needed magmom

---
 matersdk/io/publicLayer/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index ef83389..28d5065 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -257,16 +257,16 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
         ### Step 2.4. `site_properties`
         new_site_properties = {}
         ### Step 2.4.1. `magmom`
-        new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
-        
-        new_site_properties.update({"magmom": new_magmom})
+        if "magmom" in self.site_properties:
+            new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
+            new_site_properties.update({"magmom": new_magmom})
         #print(new_site_properties)
         
         structure = DStructure(
-- 
2.43.0


From aa79c2a23c35a28484a480f8c970f58681abb33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 12/86] fix: remove_vacanies() removed real atoms when there
 were several vacancies

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 28d5065..d582e45 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -365,8 +365,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 2d6710035e402e2a3bb33abd08cd1766dba94f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 13/86] fix: ACExtractor mixed stale cached lines with the
 current file (linecache)

---
 matersdk/io/pwmat/utils/acextractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..5990435 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, "r") as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,10 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
-        for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+        with open(self.atom_config_path, "r") as f:
+            rows_lst:List[str] = f.readlines()
+        for row_idx in [idx_row, idx_row+1, idx_row+2]:
+            row_content:List[str] = rows_lst[row_idx].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From ee56ace71b25ac653454b4301c3cb0a11eae81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 14/86] fix: ACstrExtractor.get_magmoms() always reported that
 there are no magnetic moments

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 5990435..e23eab3 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -330,7 +330,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[-1]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From e23e5767e8c5c74c6a82be40075597a4025a0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 15/86] fix: OutFermi, Report and Inkpt returned stale lines of
 a rewritten file (linecache)

---
 matersdk/io/pwmat/input/inkpt.py     | 17 +++++++++++++----
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..295e5b0 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -30,6 +29,16 @@ class Inkpt(object):
         self.a0 = self._get_a0()
     
     
+    def _read_line(self, line_no:int):
+        '''
+        Description
+        -----------
+            1. 读取 IN.KPT 的第 `line_no` 行 (从 1 开始)
+        '''
+        with open(self.in_kpt_path, "r") as f:
+            return f.readlines()[line_no - 1]
+    
+    
     def _get_iflag(self):
         '''
         Description
@@ -42,7 +51,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._read_line(2)
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +68,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._read_line(2)
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +83,7 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        line_1 = self._read_line(1)
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..390f42b 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _read_line(self, line_no:int):
+        '''
+        Description
+        -----------
+            1. 读取 REPORT 的第 `line_no` 行 (从 1 开始)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[line_no - 1]
+    
+    
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._read_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._read_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._read_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From ed6100321f499ae975f1bf1539aec36001272890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 16/86] fix: bands sharing the CBM/VBM were looked up at the
 wrong k-point and with a wrong band index

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 390f42b..3b41eec 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -270,8 +270,10 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == cbm_spin) and (idx_band + 1 == cbm_band):
+                    continue    # 已经在 cbm_dict 中
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt-1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -331,11 +333,13 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == vbm_spin) and (idx_band + 1 == vbm_band):
+                    continue    # 已经在 vbm_dict 中
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt-1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From 186bf56ccc1d1d1ee7a08743fc54091ee3959e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 17/86] fix: get_bandgap() of a metal failed with a TypeError

---
 matersdk/io/pwmat/output/report.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 3b41eec..ccd3d71 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -368,6 +368,9 @@ class Report(object):
         vbm_dict = self.get_vbm(out_fermi_path=out_fermi_path)
         cbm_dict = self.get_cbm(out_fermi_path=out_fermi_path)
         
+        if (vbm_dict is None) or (cbm_dict is None):    # 金属没有带隙
+            return 0.0
+        
         ### Step 2. 得到带隙的大小
         bandgap = cbm_dict["energies"][0] - vbm_dict["energies"][0]
         
-- 
2.43.0


From 505379c586af7f971bc899c0f9761a8bbc3ec880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 18/86] fix: get_frame_info() returned atomic energies and
 moments in another order than its labels

---
 matersdk/io/pwmat/utils/mvextractor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From c8ac58001d004f14b9d6d73fd1896029f0cd6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 19/86] fix: the length of a k-path segment was wrong for
 non-orthogonal lattices

---
 matersdk/calculation/kpath/kpathSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..2206ddb 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,8 +143,9 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(
+                                    position_dest_array - position_start_array,
+                                    reciprocal_lattice_crystalloggraphic)
                                 )
                         num_bandpoint = np.ceil(path_length/density)
                     
-- 
2.43.0


From 09b6bf96ee42b1f4a56d3cde0296f44cd3d3d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 20/86] fix: structures read from a trajectory did not carry
 the atomic forces and energies

---
 matersdk/io/publicLayer/structure.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d582e45..f3a6a5d 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -90,11 +90,19 @@ class DStructure(Structure):
         '''
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
+            # 每个原子的受力与能量（没有该信息时为 0），供 `get_atomic_force()`、`get_atomic_energy()` 使用
+            try:
+                atomic_energy = atom_config_str_extractor.get_eatoms().reshape(-1, 1)
+            except AttributeError:
+                atomic_energy = np.zeros((atom_config_str_extractor.get_num_atoms(), 1))
             structure = Structure(
                             lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
                             species=atom_config_str_extractor.get_types(),
                             coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
-                            coords_are_cartesian=coords_are_cartesian)
+                            coords_are_cartesian=coords_are_cartesian,
+                            site_properties={
+                                "atomic_force": atom_config_str_extractor.get_fatoms().reshape(-1, 3),
+                                "atomic_energy": atomic_energy})
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From e4c0284f2021f0860e623d8545fcb4900221596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 21/86] fix: Movement could not be instantiated (two abstract
 methods were missing)

---
 matersdk/io/pwmat/output/movement.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..b834a78 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -317,5 +317,29 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 得到某一帧的体积 (unit: 埃^3)
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(
+                    self,
+                    rcut:float,
+                    scaling_matrix:List[int]=[3, 3, 3]):
+        '''
+        Description
+        -----------
+            1. 得到所有帧中，所有原子的最大近邻原子数目 (不包括自身)
+        '''
+        return max(
+                StructureNeighborsUtils.get_max_num_nbrs_real(
+                            structure=tmp_structure,
+                            rcut=rcut,
+                            scaling_matrix=scaling_matrix)
+                for tmp_structure in self.get_all_frame_structures())
-- 
2.43.0


From 2ec25a60a13b926bb2e2da20283b1f7b58cabd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 22/86] fix: get_frame_energy() misread headers without a
 trailing SCF field

---
 matersdk/io/pwmat/output/movement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index b834a78..7780546 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,10 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1] )
+        energy_p = float( first_row_lst[equal_1_idx+2] )
+        energy_k = float( first_row_lst[equal_1_idx+3].rstrip(",") )
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From 5755cd95859d7dae6b2624f1b3972d76c0921580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 23/86] fix: pools of cpu_count()-2 processes cannot be created
 on machines with one or two cores

---
 matersdk/data/struct_collection.py | 6 +++---
 matersdk/feature/avg/avgbond.py    | 2 +-
 matersdk/feature/avg/msd.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..4a26f59 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -420,7 +420,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -438,7 +438,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -470,7 +470,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..56aaa08 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From 44ea305504698942966be51496a331760c7bc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 24/86] fix: type_map.raw listed the type indices instead of
 the elements

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 4a26f59..918a97f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -221,7 +221,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From 2e34ab50ad23ea798dcdb0a4d206d72d4220d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 25/86] fix: save_all_info() called DStructure.to() with
 arguments it does not have

---
 matersdk/data/struct_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 918a97f..ff4bca5 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -361,8 +361,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
-- 
2.43.0


From 2217761145a012cc95984a49d33c6cc61dc2906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 26/86] fix: indexing a StructCollection with an integer failed

---
 matersdk/data/struct_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index ff4bca5..ed3084f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -79,6 +79,9 @@ class StructCollection(object):
     
 
     def __getitem__(self, index:int):
+        if not isinstance(index, slice):    # 单个 frame 也返回 StructCollection
+            index = range(self.num_structures)[index]
+            index = slice(index, index+1)
         return_structures_lst = self.structures_lst[index]
         return_total_energys_array = self.total_energys_array[index]
         return_potential_energys_array = self.potential_energys_array[index]
-- 
2.43.0


From 72d224e66bec1835d091c92250d4c077f76543fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 27/86] fix: merged data sets got the formula_dict of whichever
 set was read last

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..fa3bfd4 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        formula_dict = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 8fafc72a246bbf3e1c991743d2e44dfbf96d6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 28/86] fix: padding of the neighbour indices named atom 1 when
 an atom sits at the origin

---
 matersdk/io/publicLayer/neigh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..68cd440 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -183,11 +183,13 @@ class StructureNeighborsUtils(object):
         )
         
         efficient_center_idx = 0    # 记录填写到第几个有效行
+        num_nbrs_lst = []           # 每个有效行的近邻原子数
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
             if mask_efficient_rows[tmp_center]:
                 tmp_max_num_nbrs_real = np.count_nonzero(tmp_mask)
                 new_nbr_coords[efficient_center_idx, :tmp_max_num_nbrs_real, :] = key_nbr_coords[tmp_center][tmp_mask][:]
+                num_nbrs_lst.append(tmp_max_num_nbrs_real)
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
@@ -196,7 +198,10 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                if tmp_nbr_idx < num_nbrs_lst[tmp_center_idx]:
+                    tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                else:   # zero-padding: 没有近邻原子 (坐标 [0, 0, 0] 处可能恰好有原子)
+                    tmp_neigh_list.append(0)
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
         
-- 
2.43.0


From 7edc8c1b22632aac70ccd62751e85fb87d159605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 29/86] fix: the mean squared displacement was taken from the
 previous frame, not from the origin

---
 matersdk/feature/avg/msd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index d9c10dc..e3b96ed 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -65,7 +65,7 @@ class Msd(object):
         parameters_lst:List[List] = []
         for tmp_frame_idx in range(1, len(self.structures_lst)):
             parameters_lst.append([
-                        self.structures_lst[tmp_frame_idx-1],
+                        self.structures_lst[0],
                         self.structures_lst[tmp_frame_idx]]
             )
         
@@ -90,7 +90,7 @@ class Msd(object):
         parameters_lst:List[List] = []
         for tmp_frame_idx in range(1, len(self.structures_lst)):
             parameters_lst.append([
-                            self.structures_lst[tmp_frame_idx-1],
+                            self.structures_lst[0],
                             self.structures_lst[tmp_frame_idx]]
             )
         
-- 
2.43.0


From aa493eb25122da97bd72960183e37eff6f4bdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 30/86] fix: a bond was paired with itself in the bond angle
 statistics

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..66fc6d5 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 56aaa08..784fbb9 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From 3736791f94d77f5eeda74d70faca30895fc6b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 31/86] fix: collinear bonds gave a NaN bond angle

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 66fc6d5..30e2b01 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -76,7 +76,7 @@ class AvgAngle(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1.0, 1.0)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 784fbb9..1d69d80 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -190,7 +190,7 @@ class AvgBond(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1.0, 1.0)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)
             return angle_degree
-- 
2.43.0


From 66c9d69dfecde1e36f51a3f0ed62bf2c3bd28bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 32/86] fix: a selection of frames without virials could not be
 exported

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index ed3084f..a43b3b9 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -306,7 +306,7 @@ class StructCollection(object):
         try:    # 不包含 Virial 信息
             virial_tensors_array = np.array([struct_collection.virial_tensors_array[tmp_index] for tmp_index in indices_lst])
         except IndexError as e:
-            virial_tensors_array = np.zeros(10);
+            virial_tensors_array = np.array([])
             
                 
         return StructCollection(
-- 
2.43.0


From 42e2de635eb48b2e9075cd72d85fc94bf312350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 33/86] fix: save_all_info() failed for trajectories without
 virials

---
 matersdk/data/struct_collection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index a43b3b9..7955956 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -399,10 +399,11 @@ class StructCollection(object):
                     arr=self.structures_lst[tmp_idx].get_atomic_force()
             )
             # 8. virial
-            np.save(
-                    file=os.path.join(tmp_image_dir_path, "virial.npy"),
-                    arr=self.virial_tensors_array[tmp_idx]
-            )
+            if len(self.virial_tensors_array) > 0:  # 不包含 Virial 信息时为 np.array([])
+                np.save(
+                        file=os.path.join(tmp_image_dir_path, "virial.npy"),
+                        arr=self.virial_tensors_array[tmp_idx]
+                )
             # 9. atomic_number
             np.save(
                     file=os.path.join(tmp_image_dir_path, "atomic_number.npy"),
-- 
2.43.0


From c3800d94ef81fd15bdbac0bb1538e7273e7378e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:38 +0000
Subject: [PATCH 34/86] fix: smooth-edition features and derivatives did not
 vanish beyond rcut

The neighbour list may reach further than the feature's rcut; the features of
those neighbours were 1/r (and the derivative that of the polynomial) instead of 0.
---
 matersdk/feature/deepmd/se_pair.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..5b9f709 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,8 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        # `structure_neighbors` 的截断半径可能大于 `rcut`
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d<rcut, dp_feature_pair_s, 0)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -344,6 +346,10 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 dvv_mask_2
         )        
         
+        ### Step 1.2.5. r >= rcut: vv = 0, dvv = 0
+        vv = np.where(self.dp_feature_pair_d<self.rcut, vv, 0)
+        dvv = np.where(self.dp_feature_pair_d<self.rcut, dvv, 0)
+        
         
         ### Step 2. Calculate the derivative of (1/r * vv)
         # tildeR_deriv.shape = (num_centers, num_nbrs, 4, 3)
-- 
2.43.0


From e9390d4144786b9a1b4cdcd7a0abec25c6b07e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:34 +0000
Subject: [PATCH 35/86] fix: KMesh passed an argument DStructure.from_file()
 does not have

KMesh(...) always failed with a TypeError.
---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From 2a96fa236285e38b9cc9183cde2f0b1d426706df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:57 +0000
Subject: [PATCH 36/86] fix: spin-polarised band reports could not be read

The check that both spins have the same shape compared the shape of one with
the values of the other, which raises a ValueError.
---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index ccd3d71..7533740 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From 4156b984e7ab92974f4921678a90e94eede5c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:29 +0000
Subject: [PATCH 37/86] fix: the DOS of an element included elements whose
 symbol starts with it

The columns of "S" were found by prefix, so Si, Sc, Sn... were added to it.
---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..decc1d1 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -111,7 +111,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = [tmp_column.split('-')[0] == tmp_element for tmp_column in df_dos.columns]
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
-- 
2.43.0


From 14fa9d3fd51397a9da759e26c982b6faf81adbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:29 +0000
Subject: [PATCH 38/86] fix: the fat-band weight of an element included other
 columns

The columns were found by prefix: "S" also summed Si, Sc..., and "K" the KPOINT column.
---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..08bd7fb 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -161,8 +161,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_cols_lst = [tmp_col for tmp_col in df.columns if tmp_col.split('-')[0] == tmp_element]
+            tmp_serie_element = df.loc[:, tmp_cols_lst].sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
-- 
2.43.0


From f6262527966be6525be05737150d9fb45baa6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:29 +0000
Subject: [PATCH 39/86] fix: an orbital of S also selected the same orbital of
 Os, As...

get_orbital_dfs_lst() looked for the name anywhere in the column name.
---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 08bd7fb..a1e28b7 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -188,7 +188,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From 729f63120956615fe33bb2c1697c8b52f991791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:29 +0000
Subject: [PATCH 40/86] fix: the fat bands lost their column names

With current pandas, np.array_split() turns a DataFrame into bare arrays, so the
(unordered) element columns could not be told apart.
---
 .../io/pwmat/output/fatabandstructureTxt.py     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index a1e28b7..c84a7ba 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -122,6 +122,17 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 将 pd.DataFrame 按照不同能带分为 List[pd.DataFrame]
+                - `np.array_split()` 会丢失新版 pandas 的 columns
+        '''
+        idxs_lst = np.array_split(np.arange(len(df)), self.num_bands)
+        return [df.iloc[tmp_idxs] for tmp_idxs in idxs_lst]
+    
+    
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +147,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -172,7 +183,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -192,6 +203,6 @@ class FatbandStructure(object):
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From 600fe363677bfa3805657e2004636a961512ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:30 +0000
Subject: [PATCH 41/86] fix: a Dostotalspin object deleted the backup file of
 another one

All readers of one DOS file shared <file>.bak, so `d = Dostotalspin(p)` executed
twice left the second object without its data (and an existing .bak was lost).
---
 matersdk/io/pwmat/output/dostotalspin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index decc1d1..a10192b 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -1,4 +1,5 @@
 import os 
+import tempfile
 import pandas as pd
 
 
@@ -47,8 +48,12 @@ class Dostotalspin(object):
         ### Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
         folder_path = os.path.dirname(self.dos_totalspin_path)
         filename = os.path.basename(self.dos_totalspin_path)
-        bak_dosfile_path = os.path.join(folder_path, "{0}.bak".format(filename))
-        with open(bak_dosfile_path, "w") as f:
+        # 每个对象使用自己的备份文件，销毁时不影响读取同一文件的其他对象
+        fd, bak_dosfile_path = tempfile.mkstemp(
+                                    prefix="{0}.".format(filename),
+                                    suffix=".bak",
+                                    dir=folder_path if folder_path else ".")
+        with os.fdopen(fd, "w") as f:
             f.writelines(lines_lst)
         
         return bak_dosfile_path
-- 
2.43.0


From 4d605ea4a3d89523bca00c41b07fe5a538b0081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:42 +0000
Subject: [PATCH 42/86] fix: batch_perturb() called DStructure.to() with
 arguments it does not have

Every call failed with a TypeError after creating the output folder.
---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From d01e946c3e293220c60a24a91ea91fdc9fb877a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:17 +0000
Subject: [PATCH 43/86] fix: structures with a left-handed cell could not be
 perturbed

No rotation makes all diagonal elements of a left-handed cell positive, so the
assertion on the handedness of the rotation failed.
---
 matersdk/adalearn/generator/perturbation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index c3ee7ad..dcfb389 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -96,6 +96,8 @@ class PerturbStructure(object):
             rot[1][1] = -1
         if atoms.cell[2][2] < 0 :
             rot[2][2] = -1
+        if np.linalg.det(rot) < 0 : # 左手系晶胞: 旋转不改变手性
+            rot[2][2] = -rot[2][2]
         assert(np.linalg.det(rot) == 1)
         new_system = DStructure(
                 lattice=np.matmul(atoms.cell, rot),
-- 
2.43.0


From f93fc7af200649b8788f470e4a1746ef7b71508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:29 +0000
Subject: [PATCH 44/86] fix: slurm script puts every #SBATCH directive on its
 own line

---
 matersdk/hpc/slurm/job.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..865ae86 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
             f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From cd4a0544a31a86fa6c13ba99c0558cfae097a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 45/86] fix: slurm script omits options that were not requested

---
 matersdk/hpc/slurm/job.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 865ae86..8a6118c 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -59,12 +59,20 @@ class Job(object):
         current_path = os.getcwd()
         with open(os.path.join(current_path, filename), 'w') as f:
             f.write("#!/bin/bash\n")
-            f.write("#SBATCH --partition={0}\n".format(self.partition))
-            f.write("#SBATCH --job-name={0}\n".format(self.name))
-            f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
-            f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            if self.partition is not None:
+                f.write("#SBATCH --partition={0}\n".format(self.partition))
+            if self.name is not None:
+                f.write("#SBATCH --job-name={0}\n".format(self.name))
+            if self.num_nodes is not None:
+                f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
+            if self.num_tasks_per_node is not None:
+                f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
+            if self.num_threads_per_core is not None:
+                f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            if self.num_gpus is not None:
+                f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            if self.num_gpus_per_task is not None:
+                f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
             f.write("\n\n\n")
-            f.write("{0}".format(self.command))
\ No newline at end of file
+            if self.command is not None:
+                f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From 9245fd9ae40ed40690625117b5b75af7e97bc9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 46/86] fix: nblist binding hands ownership of firstneigh to
 its array (leak per call)

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From e369bcbb0d60b09609e170331f7b517b40a13576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 47/86] fix: nblist binding reads arrays of any layout and
 dtype by value

---
 source/nblist/bind/nblist_bind.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 5aaf6df..6a73678 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -52,9 +52,15 @@ PyObject* find_info4mlff(
 
     // Step 1. Init matersdk::Structure<double>
     // Step 1.1. 
-    PyArrayObject* lattice_py_array = (PyArrayObject*)lattice_py;
-    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)atomic_numbers_py;
-    PyArrayObject* frac_coords_py_array = (PyArrayObject*)frac_coords_py;
+    PyArrayObject* lattice_py_array = (PyArrayObject*)PyArray_FROM_OTF(lattice_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)PyArray_FROM_OTF(atomic_numbers_py, NPY_INT, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    PyArrayObject* frac_coords_py_array = (PyArrayObject*)PyArray_FROM_OTF(frac_coords_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (!lattice_py_array || !atomic_numbers_py_array || !frac_coords_py_array) {
+        Py_XDECREF(lattice_py_array);
+        Py_XDECREF(atomic_numbers_py_array);
+        Py_XDECREF(frac_coords_py_array);
+        return NULL;
+    }
     int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
 
@@ -75,6 +81,9 @@ PyObject* find_info4mlff(
         frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
         frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
     }
+    Py_DECREF(lattice_py_array);
+    Py_DECREF(atomic_numbers_py_array);
+    Py_DECREF(frac_coords_py_array);
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-- 
2.43.0


From 0cbe0f5aed425e0e56b02e279fba305aef1b69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:57 +0000
Subject: [PATCH 48/86] fix: nblist binding rejects a neighbor width smaller
 than the neighbor count (heap overflow)

---
 source/nblist/bind/nblist_bind.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 6a73678..863224c 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -107,6 +107,12 @@ PyObject* find_info4mlff(
 
     // Step 2.2. Build 
     matersdk::NeighborList<double> neighbor_list(structure, rcut, pbc_xyz, sort);
+    for (int ii=0; ii<num_atoms; ii++) {
+        if ((int)neighbor_list.get_neighbor_lists()[ii].size() > umax_num_neigh_atoms) {
+            PyErr_SetString(PyExc_ValueError, "umax_num_neigh_atoms is smaller than the number of neighbor atoms.");
+            return NULL;
+        }
+    }
 
     // Step 3. Call matersdk::NeighborList<double>::find_info4mlff()
     int inum = (int)num_atoms;
-- 
2.43.0


From be4acffa05ab9345021b88f98c84b4a5d48e4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:42 +0000
Subject: [PATCH 49/86] fix: TildeR copy constructor allocates room for every
 species (heap overflow)

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..fa91d85 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From 42890bc6b5db75e18d3e77fa8d9f1122fbc9d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:42 +0000
Subject: [PATCH 50/86] fix: TildeR self-assignment keeps the object (use after
 free)

---
 source/descriptor/deepmd/include/se.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index fa91d85..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
-- 
2.43.0


From 7e885466e39a070757e8997b25ad928991b84104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 51/86] fix: in-place TildeR::deriv frees its index tables

---
 source/descriptor/deepmd/include/se.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 637bb4d..5539072 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -2456,6 +2456,8 @@ void TildeR<CoordType>::deriv(
 
 
     // Step . Free memory
+    free(cstart_idxs);
+    free(nstart_idxs);
     free(num_center_atoms_lst);
 }
 
-- 
2.43.0


From 53f97c348609b02f041e6a2752b0452766e1bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:36 +0000
Subject: [PATCH 52/86] fix: EnvMatrixOp and Se4pwOp read non-contiguous
 tensors by value

---
 source/descriptor/deepmd/src/envMatrixOp.cc | 20 ++++++---
 source/descriptor/deepmd/src/se4pw_op.cc    | 50 ++++++++++++++-------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/source/descriptor/deepmd/src/envMatrixOp.cc b/source/descriptor/deepmd/src/envMatrixOp.cc
index 0145ddc..4296775 100644
--- a/source/descriptor/deepmd/src/envMatrixOp.cc
+++ b/source/descriptor/deepmd/src/envMatrixOp.cc
@@ -77,16 +77,22 @@ torch::autograd::variable_list EnvMatrixFunction::forward(
 
     // Step 3. find tilde_r_tensor, tilde_r_deriv_tensor
     for (int ii=0; ii<batch_size; ii++) {
-        int* ilist = ilist_tensor[ii].data_ptr<int>();
-        int* numneigh = numneigh_tensor[ii].data_ptr<int>();
-        int* firstneigh = firstneigh_tensor[ii].data_ptr<int>();
-        int* types = types_tensor[ii].data_ptr<int>();
-        int* umax_num_neigh_atoms_lst = umax_num_neigh_atoms_lst_tensor[ii].data_ptr<int>();
+        at::Tensor ilist_tensor_ii = ilist_tensor[ii].contiguous();
+        at::Tensor numneigh_tensor_ii = numneigh_tensor[ii].contiguous();
+        at::Tensor firstneigh_tensor_ii = firstneigh_tensor[ii].contiguous();
+        at::Tensor types_tensor_ii = types_tensor[ii].contiguous();
+        at::Tensor umax_num_neigh_atoms_lst_tensor_ii = umax_num_neigh_atoms_lst_tensor[ii].contiguous();
+        at::Tensor relative_coords_tensor_ii = relative_coords_tensor[ii].contiguous();
+        int* ilist = ilist_tensor_ii.data_ptr<int>();
+        int* numneigh = numneigh_tensor_ii.data_ptr<int>();
+        int* firstneigh = firstneigh_tensor_ii.data_ptr<int>();
+        int* types = types_tensor_ii.data_ptr<int>();
+        int* umax_num_neigh_atoms_lst = umax_num_neigh_atoms_lst_tensor_ii.data_ptr<int>();
         
         if (relative_coords_tensor.scalar_type() == torch::kFloat32) {
             float* tilde_r = tilde_r_tensor[ii].data_ptr<float>();
             float* tilde_r_deriv = tilde_r_deriv_tensor[ii].data_ptr<float>();
-            float* relative_coords = relative_coords_tensor[ii].data_ptr<float>();
+            float* relative_coords = relative_coords_tensor_ii.data_ptr<float>();
             EnvMatrix<float>::find_value_deriv(
                 tilde_r,
                 tilde_r_deriv,
@@ -103,7 +109,7 @@ torch::autograd::variable_list EnvMatrixFunction::forward(
         } else {
             double* tilde_r = tilde_r_tensor[ii].data_ptr<double>();
             double* tilde_r_deriv = tilde_r_deriv_tensor[ii].data_ptr<double>();
-            double* relative_coords = relative_coords_tensor[ii].data_ptr<double>();
+            double* relative_coords = relative_coords_tensor_ii.data_ptr<double>();
             EnvMatrix<double>::find_value_deriv(
                 tilde_r,
                 tilde_r_deriv,
diff --git a/source/descriptor/deepmd/src/se4pw_op.cc b/source/descriptor/deepmd/src/se4pw_op.cc
index 6caf014..6e9f947 100644
--- a/source/descriptor/deepmd/src/se4pw_op.cc
+++ b/source/descriptor/deepmd/src/se4pw_op.cc
@@ -51,6 +51,7 @@ torch::autograd::variable_list Se4pwOp::forward(
     types.to(int_dtype);
     num_neigh_atoms_lst.to(int_dtype);
     
+    at::Tensor num_neigh_atoms_lst_c = num_neigh_atoms_lst.contiguous();
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor tilde_r = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4}, tensor_options);
     at::Tensor tilde_r_deriv = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4, 3}, tensor_options);
@@ -58,6 +59,11 @@ torch::autograd::variable_list Se4pwOp::forward(
 
     if (dtype == torch::kFloat32) {
         for (int ii=0; ii<batch_size; ii++) {
+            at::Tensor ilist_ii = ilist[ii].contiguous();
+            at::Tensor numneigh_ii = numneigh[ii].contiguous();
+            at::Tensor firstneigh_ii = firstneigh[ii].contiguous();
+            at::Tensor x_ii = x[ii].contiguous();
+            at::Tensor types_ii = types[ii].contiguous();
             float* tilde_r_ptr = tilde_r[ii].data_ptr<float>();
             float* tilde_r_deriv_ptr = tilde_r_deriv[ii].data_ptr<float>();
             float* relative_coords_ptr = relative_coords[ii].data_ptr<float>();
@@ -67,18 +73,23 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<float>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_ii.data_ptr<int>(),
+                    numneigh_ii.data_ptr<int>(),
+                    firstneigh_ii.data_ptr<int>(),
+                    x_ii.data_ptr<float>(),
+                    types_ii.data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_c.data_ptr<int>(),
                     (float)rcut,
                     (float)rcut_smooth);
         }
     } else {
         for (int ii=0; ii<batch_size; ii++) {   // loop over all images in this batch
+            at::Tensor ilist_ii = ilist[ii].contiguous();
+            at::Tensor numneigh_ii = numneigh[ii].contiguous();
+            at::Tensor firstneigh_ii = firstneigh[ii].contiguous();
+            at::Tensor x_ii = x[ii].contiguous();
+            at::Tensor types_ii = types[ii].contiguous();
             double* tilde_r_ptr = tilde_r[ii].data_ptr<double>();
             double* tilde_r_deriv_ptr = tilde_r_deriv[ii].data_ptr<double>();
             double* relative_coords_ptr = relative_coords[ii].data_ptr<double>();
@@ -88,13 +99,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<double>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_ii.data_ptr<int>(),
+                    numneigh_ii.data_ptr<int>(),
+                    firstneigh_ii.data_ptr<int>(),
+                    x_ii.data_ptr<double>(),
+                    types_ii.data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_c.data_ptr<int>(),
                     rcut,
                     rcut_smooth);
         }
@@ -125,20 +136,25 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
     types.to(int_dtype);
     num_neigh_atoms_lst.to(int_dtype);
 
+    at::Tensor num_neigh_atoms_lst_c = num_neigh_atoms_lst.contiguous();
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor prim_indices = at::zeros({batch_size, inum, tot_num_neigh_atoms}).to(int_dtype);
 
     for (int ii=0; ii<batch_size; ii++) {
+        at::Tensor ilist_ii = ilist[ii].contiguous();
+        at::Tensor numneigh_ii = numneigh[ii].contiguous();
+        at::Tensor firstneigh_ii = firstneigh[ii].contiguous();
+        at::Tensor types_ii = types[ii].contiguous();
         int* prim_indices_ptr = prim_indices[ii].data_ptr<int>();
         Se4pw<double>::get_prim_indices_from_matersdk(
             prim_indices_ptr,
             inum,
-            ilist[ii].data_ptr<int>(),
-            numneigh[ii].data_ptr<int>(),
-            firstneigh[ii].data_ptr<int>(),
-            types[ii].data_ptr<int>(),
+            ilist_ii.data_ptr<int>(),
+            numneigh_ii.data_ptr<int>(),
+            firstneigh_ii.data_ptr<int>(),
+            types_ii.data_ptr<int>(),
             ntypes,
-            num_neigh_atoms_lst.data_ptr<int>());
+            num_neigh_atoms_lst_c.data_ptr<int>());
     }
 
     return prim_indices;
-- 
2.43.0


From e02b8a5950836d423849382b6e5372cdd7d54f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 53/86] fix: assignment operators of the radial bases return
 their target

---
 source/descriptor/mtp/include/mtpMRadial.h | 5 ++++-
 source/descriptor/mtpr/include/basis.h     | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..0d8f46d 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -369,7 +369,8 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.result = nullptr;
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
-    }    
+    }
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
-- 
2.43.0


From ba4a141bfa85c12bac854c8c9ab35a87a04f2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 54/86] fix: self-assignment of the radial bases keeps the
 object (use after free)

---
 source/descriptor/mtp/include/mtpMRadial.h | 6 ++++++
 source/descriptor/mtpr/include/basis.h     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 0d8f46d..cede7f4 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,9 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +512,9 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..8aa892a 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,6 +226,9 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
@@ -444,6 +447,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
-- 
2.43.0


From d28d7fbbdfd9a4e0827567e98f50edd9097dd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 55/86] fix: default-constructed MtpQ owns no memory (free of
 an uninitialised pointer)

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index cede7f4..753ff58 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From 53771ac49d1c9276fd14b3657535eb170ea19ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 56/86] fix: copying an empty RQ_Chebyshev does not dereference
 a null pointer

---
 source/descriptor/mtpr/include/basis.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 8aa892a..8ceb73c 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -408,8 +408,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = nullptr;
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -463,8 +464,9 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = nullptr;
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
-- 
2.43.0


From e4308f467fb6827c1b9fa171b84d6da47dc73de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:48 +0000
Subject: [PATCH 57/86] fix: assigning over an empty radial basis releases its
 buffers

---
 source/descriptor/mtp/include/mtpMRadial.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 753ff58..5b04cb0 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -322,7 +322,7 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPol
     if (this == &rhs)
         return *this;
 
-    if (this->size_ != 0) {
+    if (this->result != nullptr) {
         this->size_ = 0;
         this->rcut = 0;
         this->rcut_smooth = 0;
@@ -350,7 +350,7 @@ template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
+        if (this->result != nullptr) {
             this->size_ = 0;
             this->rcut = 0;
             this->rcut_smooth = 0;
@@ -515,7 +515,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
     if (this == &rhs)
         return *this;
 
-    if (this->size_ != 0) {
+    if (this->result != nullptr) {
         this->size_ = 0;
         free(this->result);
         free(this->deriv2r);
@@ -536,7 +536,7 @@ template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
+        if (this->result != nullptr) {
             this->size_ = 0;
             free(this->result);
             free(this->deriv2r);
-- 
2.43.0


From b12a728b48afbe1ad31c55064da12ef74a796635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 58/86] fix: assigning an empty RB_Chebyshev leaves no dangling
 pointers (double free)

---
 source/descriptor/mtpr/include/basis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 8ceb73c..5b8d7c2 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -233,6 +233,9 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
         free(this->_vals);
         free(this->_ders2uu);
         free(this->_ders2r);
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
-- 
2.43.0


From aba75f70f17c549f17de8ae03986bc04c712743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 59/86] fix: assignment operators of the MTP level classes
 return their target

---
 source/descriptor/mtp/src/mtpLevel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
-- 
2.43.0


From 310436ebc1cf3245bd5cdfb384220e9371149523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 60/86] fix: copying a default MtpMCoeffPair keeps its level

---
 source/descriptor/mtp/src/mtpLevel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..baeda40 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -32,7 +32,7 @@ MtpMCoeffPair::MtpMCoeffPair(std::pair<int, int> coeff_pair)
 MtpMCoeffPair::MtpMCoeffPair(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
-    this->_calc_level();
+    this->_level = rhs._level;
 }
 
 MtpMCoeffPair::~MtpMCoeffPair()
@@ -44,7 +44,7 @@ MtpMCoeffPair::~MtpMCoeffPair()
 MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
-    this->_calc_level();
+    this->_level = rhs._level;
     return *this;
 }
 
-- 
2.43.0


From 3f56ec7deb2de6da6e255c5afd7ac581cf1db588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 61/86] fix: MtpMCoeffPairCombs lists every contraction once

---
 source/descriptor/mtp/src/mtpLevel.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index baeda40..2b8570b 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -195,8 +195,15 @@ void MtpMCoeffPairCombs::_build()
     for (int ii=0; ii<=this->_max_level; ii++) {
         std::vector<std::vector<MtpMCoeffPair>> tmp_combs = get_all_schemes4lev(ii, 0, 0);
         std::vector<std::vector<MtpMCoeffPair>> tmp_contracted_combs = get_contracted_combs(tmp_combs);
-        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs)
-            this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        std::set<std::vector<std::pair<int, int>>> unique_combs;    // pairs of equal level are enumerated in every order
+        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs) {
+            std::vector<std::pair<int, int>> tmp_key;
+            for (const MtpMCoeffPair& tmp_cp : tmp_contracted_comb)
+                tmp_key.push_back(tmp_cp.coeff_pair());
+            std::sort(tmp_key.begin(), tmp_key.end());
+            if (unique_combs.insert(tmp_key).second)
+                this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        }
     }
 }
 
-- 
2.43.0


From 9bbe333773375acb5389917f9005cf5217776578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 62/86] fix: MtpMCoeffPairCombs::operator[] can be instantiated

---
 source/descriptor/mtp/include/mtpLevel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/include/mtpLevel.h b/source/descriptor/mtp/include/mtpLevel.h
index 6619da2..1072be9 100644
--- a/source/descriptor/mtp/include/mtpLevel.h
+++ b/source/descriptor/mtp/include/mtpLevel.h
@@ -74,7 +74,7 @@ public:
     template <typename Arg>
     decltype(auto) operator[](Arg&& arg)
     {
-        return this->_coeff_pair_combs[std::forward(arg)];
+        return this->_coeff_pair_combs[std::forward<Arg>(arg)];
     }
 
     void show() const;
-- 
2.43.0


From 5d537c792703c58853cd966d5878d1a382809c9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 63/86] fix: MtpParam move assignment takes over the right
 table and returns its target

_alpha_index_times was set to the other object's _alpha_index_basic (double
free, wrong table) and the function fell off its end.
---
 source/descriptor/mtpr/src/mtpParam.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..7ea5408 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
@@ -256,6 +256,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_moment_mapping = nullptr;
     }
 
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From efad778155d280d965b2736abf0f607b67d8bdc1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 64/86] fix: MtpParam assigned to itself keeps its tables

The assignment released its own tables first and copied from nothing.
---
 source/descriptor/mtpr/src/mtpParam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7ea5408..2656658 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,6 +177,9 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
-- 
2.43.0


From 7272017cae76b740214074c6fc35e5b3efcefe30 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 65/86] fix: assigning a MtpParam without a table leaves no
 dangling pointer

The released pointer was kept when the other object's table was empty and
released again by the destructor; a zero-sized table was never released.
---
 source/descriptor/mtpr/src/mtpParam.cc | 42 +++++++++++---------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 2656658..ad98da7 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -181,18 +181,15 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
         return *this;
 
     this->_alpha_moments_count = 0;
-    if (this->_alpha_index_basic_count != 0) {
-        free(this->_alpha_index_basic);
-        this->_alpha_index_basic_count = 0;
-    }
-    if (this->_alpha_index_times_count != 0) {
-        free(this->_alpha_index_times);
-        this->_alpha_index_times_count = 0;
-    }
-    if (this->_alpha_scalar_moments != 0) {
-        free(this->_alpha_moment_mapping);
-        this->_alpha_scalar_moments = 0;
-    }
+    free(this->_alpha_index_basic);
+    this->_alpha_index_basic = nullptr;
+    this->_alpha_index_basic_count = 0;
+    free(this->_alpha_index_times);
+    this->_alpha_index_times = nullptr;
+    this->_alpha_index_times_count = 0;
+    free(this->_alpha_moment_mapping);
+    this->_alpha_moment_mapping = nullptr;
+    this->_alpha_scalar_moments = 0;
 
     this->_alpha_moments_count = rhs._alpha_moments_count;
     this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
@@ -229,18 +226,15 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
 {
     if (this != &rhs) {
         this->_alpha_moments_count = 0;
-        if (this->_alpha_index_basic_count != 0) {
-            free(this->_alpha_index_basic);
-            this->_alpha_index_basic_count = 0;
-        }
-        if (this->_alpha_index_times_count != 0) {
-            free(this->_alpha_index_times);
-            this->_alpha_index_times_count = 0;
-        }
-        if (this->_alpha_scalar_moments != 0) {
-            free(this->_alpha_moment_mapping);
-            this->_alpha_scalar_moments = 0;
-        }
+        free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
+        this->_alpha_index_basic_count = 0;
+        free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
+        this->_alpha_index_times_count = 0;
+        free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
+        this->_alpha_scalar_moments = 0;
 
         this->_alpha_moments_count = rhs._alpha_moments_count;
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
-- 
2.43.0


From c2e6c6acb5662eaf07cc0052f488658455179fb1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 66/86] fix: MtpParam releases its tables when a file is loaded
 again or refused

Loading over a loaded object leaked its tables, and kept the old product table
when the new file has none; a constructor that throws leaked what it had read.
---
 source/descriptor/mtpr/src/mtpParam.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index ad98da7..ee4d320 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -21,6 +21,7 @@ MtpParam::MtpParam()
 }
 
 MtpParam::MtpParam(const std::string& filename)
+: MtpParam()
 {
     this->_load(filename);
 }
@@ -32,6 +33,7 @@ void MtpParam::_load(const std::string& filename)
     if ( !ifs.is_open() ) {
         MtpError((std::string)"Cannot open file " + filename);
     }
+    *this = MtpParam();
     char tmpline[1000];
     std::string tmpstr;
 
-- 
2.43.0


From 6106db73fc1b2854af0232b6d653c7181432c0ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 67/86] fix: vecx.h can be included from more than one source
 file

Its free operators were defined in the header without inline.
---
 source/core/include/vecx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/include/vecx.h b/source/core/include/vecx.h
index 9deeb4c..4316ac4 100644
--- a/source/core/include/vecx.h
+++ b/source/core/include/vecx.h
@@ -214,12 +214,12 @@ private:
  * @param rhs 
  * @return Vec3 
  */
-Vec3 operator*(double lhs, const Vec3 &rhs) {
+inline Vec3 operator*(double lhs, const Vec3 &rhs) {
     return Vec3(rhs[0]*lhs, rhs[1]*lhs, rhs[2]*lhs);
 }
 
 
-std::ostream& operator<<(std::ostream &COUT, const Vec3 &rhs) {
+inline std::ostream& operator<<(std::ostream &COUT, const Vec3 &rhs) {
     COUT << "[" << rhs[0] << ", " << rhs[1] << ", " << rhs[2] << "]";
     return COUT;
 }
-- 
2.43.0


From 1f6d81da32febc14896dd7fd6e3915fe3c7b9379 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 68/86] fix: RecursionOuterProduct releases the lower power

For nju >= 3 the intermediate result of every level was leaked.
---
 source/core/include/vec3Operation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/include/vec3Operation.h b/source/core/include/vec3Operation.h
index 0dbaf5d..73988e1 100644
--- a/source/core/include/vec3Operation.h
+++ b/source/core/include/vec3Operation.h
@@ -63,6 +63,10 @@ CoordType** RecursionOuterProduct(int nju, CoordType* vec) {
                 }
             }
         }
+
+        for (int ii=0; ii<nrows_lower; ii++)
+            free(result_lower[ii]);
+        free(result_lower);
     }
 
     return result;
-- 
2.43.0


From 7f025cf053a125761c5f40b4e88cabb024917bc6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 69/86] fix: AlignedArray can be copied

The class is meant to be used inside collections, but a copy shared the memory of
the original and both released it.
---
 source/core/include/AlignedArray.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source/core/include/AlignedArray.h b/source/core/include/AlignedArray.h
index b30cb1e..107dd5e 100644
--- a/source/core/include/AlignedArray.h
+++ b/source/core/include/AlignedArray.h
@@ -15,6 +15,9 @@
 #define CORE_ALIGNED_ARRAY_H
 
 
+#include <cstring>
+
+
 namespace matersdk {
 
 
@@ -46,6 +49,25 @@ public:
         this->allocate(size);
     }
 
+    /**
+     * @brief Copy constructor, the copy owns its own memory
+     */
+    AlignedArray(const AlignedArray& rhs) : data_size(0), base_ptr(0), data(0) {
+        *this = rhs;
+    }
+
+    /**
+     * @brief Copy assignment, the elements are copied
+     */
+    AlignedArray& operator=(const AlignedArray& rhs) {
+        if (this != &rhs) {
+            this->resize(rhs.data_size);
+            if (rhs.data_size > 0)
+                std::memcpy((void*)this->data, (const void*)rhs.data, sizeof(T) * rhs.data_size);
+        }
+        return *this;
+    }
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 0af7dc95877eb6703e7cd858333ed9059d77ca81 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 70/86] fix: MtpQOp accepts coordinates of any memory layout

The raw pointer was read as if the tensor were contiguous.
---
 source/descriptor/mtp/src/mtpMRadialOp.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpMRadialOp.cc b/source/descriptor/mtp/src/mtpMRadialOp.cc
index 7d7f04d..3d30bce 100644
--- a/source/descriptor/mtp/src/mtpMRadialOp.cc
+++ b/source/descriptor/mtp/src/mtpMRadialOp.cc
@@ -12,8 +12,9 @@ torch::autograd::variable_list MtpQFunction::forward(
     torch::autograd::AutogradContext* ctx,
     int64_t size,
     const at::Tensor& rcuts_tensor,
-    const at::Tensor& rcs_tensor)
+    const at::Tensor& rcs_tensor_)
 {
+    at::Tensor rcs_tensor = rcs_tensor_.contiguous();
     c10::TensorOptions options = c10::TensorOptions()
         .dtype(rcs_tensor.scalar_type())
         .device(rcs_tensor.device());
-- 
2.43.0


From d71ceac27bc68e8750c9cbf3371df16e87c4b84b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 71/86] fix: MtpMModule accepts neighbour indices of any memory
 layout

---
 source/descriptor/mtp/src/mtpMModule.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpMModule.cc b/source/descriptor/mtp/src/mtpMModule.cc
index ba11e0a..bdbdf3b 100644
--- a/source/descriptor/mtp/src/mtpMModule.cc
+++ b/source/descriptor/mtp/src/mtpMModule.cc
@@ -55,7 +55,8 @@ at::Tensor MtpMModuleImpl::forward(
     at::Tensor imtp_m_tensor = at::zeros(imtp_m_tensor_shape, options)
         .requires_grad_(false);
     int64_t z_i = types[iidx].item<int64_t>();
-    int64_t* ifirstneigh = ifirstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ifirstneigh_contiguous = ifirstneigh_tensor.contiguous();
+    int64_t* ifirstneigh = ifirstneigh_contiguous.data_ptr<int64_t>();
     at::Tensor imtp_q_tensor = MtpQOp(   // .shape = [nneighs, size]
         this->size,
         this->rcuts_tensor,
-- 
2.43.0


From 184c800e07f1328ab119ca01c5aca7ab893583e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 72/86] fix: padding does not contribute to moments

An index of -1 reached the last atom's type, and with a smoothing radius of 0 the
zero distance lies inside the support, so that padding added to rank-0 moments.
---
 source/descriptor/mtp/src/mtpMModule.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpMModule.cc b/source/descriptor/mtp/src/mtpMModule.cc
index bdbdf3b..3e35161 100644
--- a/source/descriptor/mtp/src/mtpMModule.cc
+++ b/source/descriptor/mtp/src/mtpMModule.cc
@@ -63,6 +63,8 @@ at::Tensor MtpMModuleImpl::forward(
         ircs_tensor)[0];
     at::Tensor imtp_angular_tensor = MtpMAngularOp(ircs_tensor, nu);    // .shape = [nneighs, 3, ...]
     for (int64_t ii=0; ii<ifirstneigh_tensor.sizes()[0]; ii++) {
+        if (ifirstneigh[ii] < 0)    // padding
+            continue;
         int64_t z_j = types[ifirstneigh[ii]].item<int64_t>();
         imtp_m_tensor[ii] = at::dot(
             this->cheby_coeff_list[mu*this->ntypes*this->ntypes + z_i*this->ntypes + z_j],
-- 
2.43.0


From f661f0cdc5d5de7b1c371ad83378bd3ea089110b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 73/86] fix: MtpBModule accepts centre indices of any memory
 layout

---
 source/descriptor/mtp/src/mtpBModule.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index ad55c7c..a49e503 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -39,8 +39,8 @@ at::Tensor MtpBModuleImpl::forward(
     c10::TensorOptions options = c10::TensorOptions()
         .dtype(rcs_tensor.scalar_type())
         .device(rcs_tensor.device());
-    int64_t* ilist_ptr = ilist_tensor.data_ptr<int64_t>();
-    int64_t* firstneigh_ptr = firstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ilist_contiguous = ilist_tensor.contiguous();
+    int64_t* ilist_ptr = ilist_contiguous.data_ptr<int64_t>();
     int64_t nbatches = ilist_tensor.sizes()[0];
     int64_t ncenters = ilist_tensor.sizes()[1];
     int64_t nbasis = this->_coeff_pair_combs.size();
-- 
2.43.0


From 36c947cfc762f645b39a68fc159db791f9675196 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 74/86] fix: MtpBModule uses each frame's own types

The documented types_tensor of shape [nbatches, natoms] was indexed as if it were
one frame's and failed; a shared one-dimensional tensor is still accepted.
---
 source/descriptor/mtp/src/mtpBModule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index a49e503..c9d55cb 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -63,7 +63,7 @@ at::Tensor MtpBModuleImpl::forward(
                         tmp_nu,
                         tmp_iidx,
                         firstneigh_tensor[ii][jj],
-                        types_tensor,
+                        (types_tensor.dim() == 2) ? types_tensor[ii] : types_tensor,
                         rcs_tensor[ii][jj]);
                     int64_t dim1 = partial_mtp_b_tensor.dim();
                     int64_t dim2 = tmp_mtp_m_tensor.dim();
-- 
2.43.0


From ed5a50c2cc5125ebcafd88209bb11054b99df8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:40 +0000
Subject: [PATCH 75/86] fix: read the total energy from headers that state no
 unit (relaxations write 'Etot,Ep,Ek =')

---
 matersdk/io/pwmat/utils/acextractor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index e23eab3..2c13cdf 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -345,9 +345,10 @@ class ACstrExtractor(ACExtractorBase):
         [' 216 atoms', 'Iteration (fs) =    0.3000000000E+01', ' Etot', 'Ep', 'Ek (eV) =   -0.2831881714E+05  -0.2836665392E+05   0.4783678177E+02', ' SCF =     7']
         '''
         strs_lst = self.strs_lst[0].split(",")
-        aim_index = ListLocator.locate_all_lines(strs_lst=strs_lst, content="EK (EV) =")[0]
-        # strs_lst[aim_index].split() = ['Ek', '(eV)', '=', '-0.2831881714E+05', '-0.2836665392E+05', '0.4783678177E+02']
-        return np.array([ float(strs_lst[aim_index].split()[3].strip()) ])
+        aim_index = [idx for idx, tmp_str in enumerate(strs_lst) if tmp_str.strip().upper().startswith("EK")][0]
+        # strs_lst[aim_index] = 'Ek (eV) =   -0.2831881714E+05  -0.2836665392E+05   0.4783678177E+02'
+        # 也可能没有单位: 'Ek =  ...', 'Ek=  ...'
+        return np.array([ float(strs_lst[aim_index].split("=")[1].split()[0]) ])
   
     
     def get_eatoms(self):
-- 
2.43.0


From 9db4d60474a3b155db611663f3cfab0b9fb641b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:40 +0000
Subject: [PATCH 76/86] fix: do not take the 'Average Force=' of the header
 line for the force section

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 2c13cdf..62ae395 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -383,7 +383,7 @@ class ACstrExtractor(ACExtractorBase):
         try:
             forces_lst = []
             aim_content = "Force".upper()
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst[1:], content=aim_content)[0] + 1  # 第一行可能含有 `Average Force=`
             
             for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
                 # ['14', '0.089910342901203', '0.077164252174742', '0.254144099204679']
-- 
2.43.0


From e6b57310b2eb7299e454780d517dd3da4b72740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 77/86] fix: FFExtractor exports every embedding layer when the
 layer counts differ

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From cfd38d480831cb31c4fe6cfcf8541bc2f619c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 78/86] fix: the feature normaliser imports without the removed
 data.deepmd package

---
 matersdk/feature/deepmd/preprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..0fba0d2 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -1,8 +1,10 @@
+from __future__ import annotations
 import numpy as np
 import h5py
-from typing import Union, List, Dict
+from typing import Union, List, Dict, TYPE_CHECKING
 
-from ...data.deepmd.data_system import DpLabeledSystem
+if TYPE_CHECKING:   # used in annotations only; not part of this package any more
+    from ...data.deepmd.data_system import DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From 637a084d88ee2e0a2138642a1343dacf21ade41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 79/86] fix: normalize() stacks the blocks of the neighbour
 species, not of the centre species

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 0fba0d2..ebfcd64 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -365,7 +365,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From bd423e66227804bb6e48bcfd1444989964935418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 80/86] fix: the standard deviation of equal features is not
 NaN

---
 matersdk/feature/deepmd/preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index ebfcd64..eef4449 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -528,8 +528,9 @@ class TildeRPairNormalizer(object):
         '''
         if (N == 0):
             return 1e-2
+        # rounding can push the difference below zero
         std = np.sqrt(
-                sum2_value / N - np.multiply(sum_value/N, sum_value/N)
+                max(sum2_value / N - np.multiply(sum_value/N, sum_value/N), 0.)
         )
         if np.abs(std) < 1e-2:
             std = 1e-2
-- 
2.43.0


From f54c4335560d4c426e79d528eb4e49e4d0a5311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 81/86] fix: natoms of the inference input follow the model's
 species

---
 matersdk/infer/pwmatmlff/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/preprocess.py b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
index 2af0afd..0fcd71a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/preprocess.py
+++ b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
@@ -112,6 +112,6 @@ class InferPreprocessor(object):
     
     
     def expand_natoms_img(self):
-        natoms = self.structure.get_natoms()
+        natoms = self.structure.get_natoms(atomic_numbers_order=list(self.center_atomic_numbers))
         natoms_img = natoms_img = np.repeat(natoms[np.newaxis, :], 1, axis=0)
         return natoms_img
\ No newline at end of file
-- 
2.43.0


From 098894d34f6732a87bbc011954ec17ded0dc7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:17 +0000
Subject: [PATCH 82/86] fix: DpInfer loads a whole model with current torch
 versions

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..883f07d 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0


From 4e6848fc40bc8f86214455f6cda59ad04eb653cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:01 +0000
Subject: [PATCH 83/86] fix: Combinations::remove_duplicates keeps every
 combination once

A combination of k moments was stored once per non-decreasing neighbouring
pair (k-1 times at most), single moments were dropped, two moments of equal
level were kept in both orders, and an empty combination was read out of
bounds.
---
 source/descriptor/mtp/include/level.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/descriptor/mtp/include/level.h b/source/descriptor/mtp/include/level.h
index 1a86a03..18f8562 100644
--- a/source/descriptor/mtp/include/level.h
+++ b/source/descriptor/mtp/include/level.h
@@ -6,6 +6,7 @@
 #include <utility>
 #include <algorithm>
 #include <unordered_map>
+#include <set>
 #include <cmath>
 
 namespace matersdk {
@@ -168,20 +169,14 @@ Combinations::Combinations(std::vector<std::vector<std::pair<int, int>>> mjus_nj
 void Combinations::remove_duplicates() {
     std::vector<std::vector<std::pair<int, int>>> new_mjus_njus_lst;
     new_mjus_njus_lst.clear();
+    // Two combinations are the same when they hold the same (mju, nju), in whatever order
+    std::set<std::vector<std::pair<int, int>>> seen;
 
     for (int ii=0; ii<this->get_num_combinations(); ii++) {
-        for (int jj=0; jj<this->mjus_njus_lst[ii].size()-1; jj++) {
-            int level_front = Combinations::get_level(
-                                    this->mjus_njus_lst[ii][jj].first, 
-                                    this->mjus_njus_lst[ii][jj].second);
-            int level_behind = Combinations::get_level(
-                                    this->mjus_njus_lst[ii][jj+1].first,
-                                    this->mjus_njus_lst[ii][jj+1].second);
-                
-                if (level_front <= level_behind) {
-                    new_mjus_njus_lst.push_back(this->mjus_njus_lst[ii]);
-                }
-        }
+        std::vector<std::pair<int, int>> sorted_combination = this->mjus_njus_lst[ii];
+        std::sort(sorted_combination.begin(), sorted_combination.end());
+        if (seen.insert(sorted_combination).second)
+            new_mjus_njus_lst.push_back(this->mjus_njus_lst[ii]);
     }
 
     // 重新为 `this->mjus_njus_lst` 赋值
-- 
2.43.0


From 9b976bcafa3aff0108a89ba519787d205f5f53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:01 +0000
Subject: [PATCH 84/86] fix: MTPLevel enumerates combinations of the largest
 number of moments

calc_redundant_combinations stopped one short of max_num_M and listed an empty
combination; get_max_num_M counted one moment too many for odd levels.
---
 source/descriptor/mtp/include/level.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/descriptor/mtp/include/level.h b/source/descriptor/mtp/include/level.h
index 18f8562..1717bfe 100644
--- a/source/descriptor/mtp/include/level.h
+++ b/source/descriptor/mtp/include/level.h
@@ -301,8 +301,8 @@ MTPLevel::MTPLevel(int max_level) {
 
 int MTPLevel::get_max_num_M() {
     int ii;
-    int current_level = 0;
-    for (ii=0; current_level < this->max_level; ii++) {
+    int current_level = 2;  // each M has a level of at least 2
+    for (ii=0; current_level <= this->max_level; ii++) {
         current_level += 2;
     }
 
@@ -344,7 +344,7 @@ void MTPLevel::calc_redundant_combinations(
     int max_level,
     std::vector<std::pair<int, int>>& combination)
 {
-    for (int ii=0; ii<this->max_num_M; ii++) {
+    for (int ii=1; ii<=this->max_num_M; ii++) {
         int level = 0;
         std::vector<std::pair<int, int>> combination;
         combination.clear();
-- 
2.43.0


From fb4bfb363923c5bb4e912849a0820653110e0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 85/86] fix: count neighbours exactly at the cutoff as the
 neighbour table does

---
 matersdk/io/publicLayer/neigh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 68cd440..895fa14 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -43,7 +43,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 计算在截断半径内的原子数目
             tmp_num_nbrs = np.count_nonzero(tmp_mark_rcut)
@@ -93,7 +93,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 
             for tmp_element in nbr_elements:
-- 
2.43.0


From 93fdf603b9753f5804be77a41f265e6ae22753bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 86/86] fix: compare the eigenvalues with the Fermi energy as
 written, not rounded to 1 meV

---
 matersdk/io/pwmat/output/outfermi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 1fe7dd8..319146c 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -16,5 +16,5 @@ class OutFermi(object):
         with open(self.out_fermi_path, "r") as f:
             first_row = f.readline()
         first_row_lst = first_row.split()
-        efermi_ev = np.round(float(first_row_lst[-2]), 3)
+        efermi_ev = float(first_row_lst[-2])
         return efermi_ev
\ No newline at end of file
-- 
2.43.0

