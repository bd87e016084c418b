From 6e50ccd469cc233b1cfeb6cc17c4b12252a8b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:44 +0000
Subject: [PATCH 01/33] fix: push_back() adds to the last occupied segment
 after a loop over the segments

push_back() advanced current_segment, which is the counter of the last loop over
the segments, so adding an item when the last segment was full failed (assertion)
after any read loop, or after a loop that dropped the items following a full segment.
---
 SegmentedArrayPair_Module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..df2840c 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -103,6 +103,10 @@ class SegmentedArrayPair_C(object):
         # Abbreviations
         outSA = self.out_segmented_array
 
+        # New items always go into the last occupied segment, wherever the loop counter was
+        # left by a preceding loop over the segments.
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
         # If we've reached the end of the current segment, we need to switch to the next
         # segment, if there is one, or else add a new segment.
         if self.first_available_offset[outSA] == self.segment_length:
-- 
2.43.0


From 4068af54e52ab6c913e51a2d4a739c888ef515ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:44 +0000
Subject: [PATCH 02/33] fix: set_number_of_items(..., 0) leaves an empty
 SegmentedArray

divmod(-1, segment_length) made the array look as if its segment -1 were full, so
that reading loops after all the items were dropped returned stale items.
---
 SegmentedArrayPair_Module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index df2840c..c459693 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -488,7 +488,11 @@ class SegmentedArrayPair_C(object):
 
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
-        (seg, offset) = divmod(n_items-1, self.segment_length)
+        if n_items == 0:
+            # There is no last item: divmod() would give the end of segment -1.
+            (seg, offset) = (0, -1)
+        else:
+            (seg, offset) = divmod(n_items-1, self.segment_length)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
-- 
2.43.0


From 90ef366494846e9cbeec7b3651d758ee1e84d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 03/33] fix: uniform-field mover counts a full last segment
 once

When the number of surviving particles is a multiple of SEGMENT_LENGTH, the last segment
was added to the species' particle count twice.
---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..13b4c47 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if (ipOut != self.SEGMENT_LENGTH): # A full last segment was already counted above.
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From e410ff361222756255c011238fbeddc052a635bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 04/33] fix: external field acts on a species whose solved
 field is switched off

---
 Particle_Module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 13b4c47..198e826 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1114,6 +1114,9 @@ class Particle_C(object):
                         # Interpolate the external electric field to the particle positions
                         external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
                         Eext_seg = self.Eext[0:npSeg]
+                        if Eseg is None: # The solved field is not applied to this species
+                            self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                            Eseg = self.negE[0:npSeg] # A ref, not a copy.
                         # The following is a vector operation on each component of E. This is the best
                         # you can do for a structured array. I'm not sure that you can add arrays
                         # of E-field vectors in a single statement anyway.
@@ -1514,6 +1517,9 @@ class Particle_C(object):
                     # Interpolate the external electric field to the particle positions
                     external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
                     Eext_seg = self.Eext[0:npSeg]
+                    if Eseg is None: # The solved field is not applied to this species
+                        self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                        Eseg = self.negE[0:npSeg] # A ref, not a copy.
                     # The following is a vector operation on each component of E. This is the best
                     # you can do for a structured array. I'm not sure that you can add arrays
                     # of E-field vectors in a single statement anyway.
-- 
2.43.0


From 0675699cd30f4897683f0f3947fed7556945877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 05/33] fix: random external field can have more than one
 component

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..ede20fb 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1196,7 +1196,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(fieldValue.size):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From ee5dca60a6e2070a64f4f9e8c2e8475747e83be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:28 +0000
Subject: [PATCH 06/33] fix: neutral mover gives boundary functions the current
 move vector

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 198e826..abd59fd 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2024,7 +2024,7 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 405e2ebb75337f68c018ab75ad3008beb59056c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:28 +0000
Subject: [PATCH 07/33] fix: neutral mover reports tracking errors instead of
 raising NameError

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index abd59fd..5bbdbec 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1904,6 +1904,8 @@ class Particle_C(object):
         """
 
         printInfoBoundaryCrossing = False
+
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
         
         # Set local names for the passed parameters
         dt = ctrl.dt
-- 
2.43.0


From c1a93f8a00257f64ff6767acec7f97a35e7ff1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 08/33] fix: a full trajectory does not stop the recording of
 the others

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 5bbdbec..f0750b0 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2772,7 +2772,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2809,6 +2809,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
+
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 1ee2dcdb20656eb72aa3b8f418684160182899fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 09/33] fix: boundary crossings are recorded for a species
 without an applied field

---
 Particle_Module.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index f0750b0..4084bb6 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1493,6 +1493,7 @@ class Particle_C(object):
             #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
             #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
+            Eext_seg = None
             Eseg = None # This is for the case where no fields are to be applied to the particles,
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
@@ -1756,11 +1757,14 @@ class Particle_C(object):
                                 # homogeneous array for passing to record_trajectory_datum()
                                 E1Comps = self.E1_comps # A convenience reference
                                 #E1Comps[:] = Eseg[ipIn][:] # Doesn't work!
-                                for i in range(len(self.negE1.dtype.names)):
-                                    E1Comps[0][i] = Eseg[ipIn][i]
+                                if Eseg is None: # No field is applied to this species
+                                    E1Comps[0][:] = 0.0
+                                else:
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None: # No external field is applied to this species
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
-- 
2.43.0


From 8778c950b624d0e3c3f493ba8dbb575867a0468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 10/33] fix: move_particles_in_electrostatic_field() records
 boundary crossings of trajectory particles

---
 Particle_Module.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 4084bb6..07b67f5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1091,6 +1091,7 @@ class Particle_C(object):
 #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
 #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
+                Eext_seg = None
                 Eseg = None # This is for the case where no fields are to be applied to the particles,
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
@@ -1305,7 +1306,19 @@ class Particle_C(object):
 # Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
 # Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    E1Comps = self.E1_comps # A convenience reference
+                                    if Eseg is None: # No field is applied to this species
+                                        E1Comps[0][:] = 0.0
+                                    else:
+                                        for i in range(len(self.negE1.dtype.names)):
+                                            E1Comps[0][i] = Eseg[ipIn][i]
+                                    Eext1Comps = self.Eext1_comps # A convenience reference
+                                    if Eext_seg is None: # No external field is applied to this species
+                                        Eext1Comps[0][:] = 0.0
+                                    else:
+                                        for i in range(len(self.Eext1.dtype.names)):
+                                            Eext1Comps[0][i] = Eext_seg[ipIn][i]
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From bf1a0dd7dff157a54d590796db3babc233d6fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 11/33] fix: a limited number of history points can be
 requested

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From c90ff6cd27a2811b9a55fc83e59b6e0624c4c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 12/33] fix: initialize_particles() calls creation functions
 with their step argument

---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 07b67f5..e11e8fd 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,10 +483,11 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From 3b1644b82590458eff892e06cca9603b75b5a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 13/33] fix: compute_cell_index() detects a point outside the
 mesh

---
 Dolfin_Module.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index ede20fb..ab16d9d 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -463,10 +463,9 @@ class Mesh_C(object):
         fncName = sys._getframe().f_code.co_name + '():'
 #        print fncName, "cell index =", first
 
-        # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
-        # (eight Fs and F = 1111)
-#        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
+        # Dolfin returns the maximum value of an unsigned int (not -1) when there is no
+        # collision.
+        if first >= self.mesh.num_cells():
             print(fncName, ": particle is out of bounds")
             sys.exit()
 
-- 
2.43.0


From b6e63926fa62d64506a47e5a17edba8d05e49955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 14/33] fix: volume of a spherical shell whose vertices are
 numbered inwards

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index ab16d9d..23cae1d 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -520,7 +520,7 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0) # x0 can be the outer vertex
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From 44e2536dd993a1d857f906ae4bcda2ea6c709422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:32 +0000
Subject: [PATCH 15/33] fix: multiply_values() over a subdomain multiplies
 shared DoFs once

---
 Dolfin_Module.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 23cae1d..1434e50 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1017,24 +1017,14 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
+            # DOFs can be shared by cells (e.g., at a vertex), so collect them in a set first
+            # to multiply each one only once.
+            dofSet = set()
             for icell in range(subdomain.ncell):
                 cellIndex = subdomain.cell_index[icell]
-
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
-                self.function_values[dofIndices] *= multiplier
+                dofSet.update(self.function_space.dofmap().cell_dofs(cellIndex).tolist())
+            dofIndices = np_m.array(sorted(dofSet), dtype=np_m.int32)
+            self.function_values[dofIndices] *= multiplier
             
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
-- 
2.43.0


From 91888912a56d78d5564f76f4884f9ec5a6a4e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:02 +0000
Subject: [PATCH 16/33] fix: C++ push_back() adds to the last occupied segment
 after a loop over the segments

---
 cpp/SegmentedArrayPair.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..7832528 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -286,6 +286,10 @@ namespace dnt
         auto outSA = out_segmented_array;
 
         // Locate a slot for the item.
+        // New items always go into the last occupied segment, wherever the loop counter
+        // was left by a preceding loop over the segments.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         /*        
            If we've reached the end of the current segment, we need to switch to the
            next segment, if there is one, or else add a new segment.
@@ -354,6 +358,10 @@ namespace dnt
         // Abbreviations
         auto outSA = out_segmented_array;
 
+        // New items always go into the last occupied segment, wherever the loop counter
+        // was left by a preceding loop over the segments.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         /*        
                   If we've reached the end of the current segment, we need to
                   switch to the next segment, if there is one, or else add a new
@@ -416,6 +424,10 @@ namespace dnt
         // Abbreviations
         auto outSA = out_segmented_array;
 
+        // New items always go into the last occupied segment, wherever the loop counter
+        // was left by a preceding loop over the segments.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         /*        
           If we've reached the end of the current segment, we need to switch to the
           next segment, if there is one, or else add a new segment.
-- 
2.43.0


From 39eaa9fe6a4a41707d11d8fb4bb6fd80363ab5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:02 +0000
Subject: [PATCH 17/33] fix: C++ set_number_of_items(..., 0) leaves an empty
 SegmentedArray

---
 cpp/SegmentedArrayPair.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 7832528..8c175f8 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -232,8 +232,10 @@ namespace dnt
         // Compute the segment and offset of the last item. The
         // zero-based index of the last item is n_items-1
         // (seg, offset) = divmod(n_items-1, self.segment_length)
-        auto seg = (py::ssize_t) (n_items-1) / segment_length;
-        auto offset = (n_items - 1) % segment_length;
+        // With no items there is no last item: the division would give segment -1 for
+        // segments of length 1.
+        auto seg = (n_items == 0) ? (py::ssize_t) 0 : (n_items-1) / segment_length;
+        auto offset = (n_items == 0) ? (py::ssize_t) -1 : (n_items - 1) % segment_length;
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From e8d532699f3d4cb9e373bea304ca0fac63f81ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:48 +0000
Subject: [PATCH 18/33] fix: 2D neutral C++ mover passes find_facet() the
 particle's start point

---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From fb1d6c3202b6262d380d0849ca4bb91f704096fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 19/33] fix: C++ movers can be called without a solved field

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index e11e8fd..455479c 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1420,7 +1420,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = neg_E_field.function.cpp_object() if neg_E_field is not None else None # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
-- 
2.43.0


From c92db890cc4186fb044fbd102c73b613d7859a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:32 +0000
Subject: [PATCH 20/33] fix: particle number and kinetic energy count stale
 records of C++ storage

---
 Particle_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 455479c..291788b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -738,7 +738,8 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            # Sum over the occupied part of the segment (C++ storage returns whole segments)
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -800,7 +801,8 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                # Only the first npSeg items of the segment are particles (C++ storage returns whole segments)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From e570ccd2ac00517fd7fb0a5b61e367004ff5262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 21/33] fix: C++ find_facet() fails when the displacement stays
 in the cell

---
 cpp/dolfin_functions.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..1b6d70f 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -253,6 +253,12 @@ namespace dnt
             exit(EXIT_FAILURE);
           }
         
+        // No facet-normal if the displacement stays in this cell
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
+
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -359,6 +365,12 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+        // No facet-normal if the displacement stays in this cell
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
+
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -457,9 +469,9 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
-                                     
+        // Neither facet was crossed: the displacement stays in this cell
+        return py::make_tuple(facet, dxFraction, nullptr);
+
       } // else if (gDim == 1)
 
     std::cout << "End of dolfin_functions.cpp::find_facet(). Should never get here!!!" << std::endl;
-- 
2.43.0


From 023bfdf1405d4895729fdab0f6da3a54522792f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 22/33] fix: C++ mover in x-y records both components of E when
 a trajectory particle crosses a marked facet

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..6d2118e 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -365,13 +365,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From b38361482410199959992a6bae868fc30dceb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 23/33] fix: C++ movers dereference a null pointer when a
 trajectory particle that feels no field crosses a marked facet

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 4 ++--
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 6 +++---
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..4381f9b 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -402,9 +402,9 @@
                             auto fullIndex = sap->get_full_index(ipIn, "in");
                             //beg
                             // Get the current solved E at the particle
-                            auto EsegProxy = EsegPtr->mutable_unchecked<2>();
+                            // (EsegPtr is null if no field is applied to this species.)
                             auto E_arrProxy = E1.mutable_unchecked<2>();
-                            E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
+                            E_arrProxy(0, 0) = (EsegPtr != nullptr) ? EsegPtr->at(ipIn, 0) : 0.0;
                             // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 6d2118e..b6e751b 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -362,10 +362,10 @@
                             auto fullIndex = sap->get_full_index(ipIn, "in");
                             //beg
                             // Get the current solved E at the particle
-                            auto EsegProxy = EsegPtr->mutable_unchecked<2>();
+                            // (EsegPtr is null if no field is applied to this species.)
                             auto E_arrProxy = E1.mutable_unchecked<2>();
-                            E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 0) = (EsegPtr != nullptr) ? EsegPtr->at(ipIn, 0) : 0.0;
+                            E_arrProxy(0, 1) = (EsegPtr != nullptr) ? EsegPtr->at(ipIn, 1) : 0.0;
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..20b3df2 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -407,9 +407,9 @@
                             auto fullIndex = sap->get_full_index(ipIn, "in");
                             //beg
                             // Get the current solved E at the particle
-                            auto EsegProxy = EsegPtr->mutable_unchecked<2>();
+                            // (EsegPtr is null if no field is applied to this species.)
                             auto E_arrProxy = E1.mutable_unchecked<2>();
-                            E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
+                            E_arrProxy(0, 0) = (EsegPtr != nullptr) ? EsegPtr->at(ipIn, 0) : 0.0;
                             // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
-- 
2.43.0


From e995a2f9dc42f1f5c369afa104cf9e871b04353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 24/33] fix: function_values of the electric field is stale
 after compute_negE()

---
 Dolfin_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1434e50..cbbe32b 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1724,7 +1724,9 @@ class PoissonSolve_C(object):
         negE = df_m.grad(self.u)
 
         function_space = self.neg_electric_field.function_space
-        self.neg_electric_field.function = df_m.project(negE, function_space)
+        # Put the result in the existing function, so that function_values is still an alias
+        # for the values of the new field.
+        df_m.project(negE, function_space, function=self.neg_electric_field.function)
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From 72b37ad02a369be815c8070458b3b0bbecb3a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 25/33] fix: assemble_source_expression() fails if the source
 density is a string

---
 Dolfin_Module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index cbbe32b..b20f6fa 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1477,6 +1477,9 @@ class PoissonSolve_C(object):
         # A dolfin Argument
         self.w = df_m.TrialFunction(self.V)
 
+        # This is needed to make a source-term from a density expression
+        self.element_degree = phi_F.element_degree
+
         # A dolfin GenericVector, providing a uniform interface to back-end vectors
         self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)
 
@@ -1592,7 +1595,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, degree=self.element_degree)
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From c3d3b7bca2a5c445640bc70e477f3fa75b97400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 26/33] fix: source density in spherical coordinates is
 integrated without the volume-element factor

---
 Dolfin_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index b20f6fa..5a4488f 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1479,6 +1479,7 @@ class PoissonSolve_C(object):
 
         # This is needed to make a source-term from a density expression
         self.element_degree = phi_F.element_degree
+        self.coordinate_system = phi_F.mesh_M.coordinate_system
 
         # A dolfin GenericVector, providing a uniform interface to back-end vectors
         self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)
@@ -1611,7 +1612,11 @@ class PoissonSolve_C(object):
         # volume-element factor in the definition of L (the volume-element is
         # needed to integrate over the domain).
             
-        L = source_expression*self.v*df_m.dx
+        L = source_expression*self.v
+        if self.coordinate_system == '1D-spherical-radial':
+            r = df_m.SpatialCoordinate(self.V.mesh())
+            L = L*r[0]**2
+        L = L*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
-- 
2.43.0


From 39326ceb43f100510c10ece60994c62104a57b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 27/33] fix: particle boundaries of a 1D UserMesh_C are never
 marked

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..2518dc1 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -270,6 +270,12 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with the integers given by the user
+                Gamma_xmin = XBoundary_C(xmin)
+                Gamma_xmax = XBoundary_C(xmax)
+                Gamma_xmin.mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                Gamma_xmax.mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
-- 
2.43.0


From 85908323c06730cd41b5c23f75db3c31fa8d9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 28/33] fix: particle boundaries of a 3D UserMesh_C are never
 marked

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 2518dc1..41faf54 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,25 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        """x[0|1|2] contains the x, y, z coordinates of a point.
+        """
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -393,6 +412,14 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with the integers given by the user
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0


From 638da6233084e0b3d8f7b185b0d25b4a1b52eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 29/33] fix: UserMesh1DS_C fails to read boundary markers from
 a file

---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..a921348 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,9 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = df_m.MeshFunction('size_t', self.mesh, fieldBoundaryFile)
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = df_m.MeshFunction('size_t', self.mesh, particleBoundaryFile)
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From 66f4b3f60e0405624efcf15f6f52e012eda4850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 30/33] fix: a crossing records the solved field, not its sum
 with the external field

---
 Particle_Module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 291788b..85a6a00 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1315,6 +1315,8 @@ class Particle_C(object):
                                     else:
                                         for i in range(len(self.negE1.dtype.names)):
                                             E1Comps[0][i] = Eseg[ipIn][i]
+                                            if Eext_seg is not None: # Record the solved field only
+                                                E1Comps[0][i] -= Eext_seg[ipIn][i]
                                     Eext1Comps = self.Eext1_comps # A convenience reference
                                     if Eext_seg is None: # No external field is applied to this species
                                         Eext1Comps[0][:] = 0.0
@@ -1778,6 +1780,8 @@ class Particle_C(object):
                                 else:
                                     for i in range(len(self.negE1.dtype.names)):
                                         E1Comps[0][i] = Eseg[ipIn][i]
+                                        if Eext_seg is not None: # Record the solved field only
+                                            E1Comps[0][i] -= Eext_seg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
                                 if Eext_seg is None: # No external field is applied to this species
-- 
2.43.0


From 4d776ea8d1ad0a400b654aacc3ae195bd2dfb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 31/33] fix: the point test of a spherical region uses the
 radii of its cells once the region is made

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 5a4488f..62538bf 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1964,7 +1964,7 @@ class SphericalRegion_C(CellSet_C):
     def __init__(self, mesh_M, center, radius, plot_flag=False):
 
         self.center = center
-        self.radius = radius
+        self.region_radius = radius # self.radius holds the radii of the cells
         plotFlag = plot_flag
 
         # Call the base class constructor
@@ -1988,7 +1988,7 @@ class SphericalRegion_C(CellSet_C):
         tol = 1.0e-10
 
         # The source is in the interval [xmin, xmax]
-        return x[0] >= self.center - self.radius - tol and x[0] <= self.center + self.radius + tol
+        return x[0] >= self.center - self.region_radius - tol and x[0] <= self.center + self.region_radius + tol
 #    def inside(self, x):ENDDEF
 
 #class SphericalRegion_C(CellSet_C):ENDCLASS
-- 
2.43.0


From bd2a53ef0dd4d507b3f825443ef836635ee3023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 32/33] fix: multiply_values() ignores the gaussian option when
 a subdomain is given

---
 Dolfin_Module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 62538bf..6641e62 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1024,7 +1024,10 @@ class Field_C(object):
                 cellIndex = subdomain.cell_index[icell]
                 dofSet.update(self.function_space.dofmap().cell_dofs(cellIndex).tolist())
             dofIndices = np_m.array(sorted(dofSet), dtype=np_m.int32)
-            self.function_values[dofIndices] *= multiplier
+            if gaussian is True:
+                self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, dofIndices.size)
+            else:
+                self.function_values[dofIndices] *= multiplier
             
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
-- 
2.43.0


From 954a2bd696985225244bd6c5d56c6adc72e82b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:14 +0000
Subject: [PATCH 33/33] fix: created particles never reach the corners of a
 cell that extends beyond its circumradius

---
 Dolfin_Module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 6641e62..e452789 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1839,7 +1839,10 @@ class CellSet_C(object):
             midp = c.midpoint()
             for i in range(self.gdim):
                 self.midpoint[icell][i] = midp[i]
-            self.radius[icell] = c.circumradius()
+            # The distance from the midpoint to the farthest vertex, so that the whole cell is
+            # within this radius (the circumradius can be less than that)
+            vertexCoords = np_m.array(c.get_vertex_coordinates()).reshape(-1, self.gdim)
+            self.radius[icell] = max([np_m.linalg.norm(v - self.midpoint[icell]) for v in vertexCoords])
             
         return
 #    def __init__(self, mesh, plot_flag=False):ENDDEF
-- 
2.43.0

