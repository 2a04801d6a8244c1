From 55cfd809677690a37ea783d1c1f6e19143c3423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 01/56] fix: rename() lost nodes and elements whose new name
 was already in use, and left stale names in meshes

---
 PyNite/FEModel3D.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..01653fa 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2331,49 +2331,59 @@ class FEModel3D():
 
         # Rename each node in the model
         temp = self.nodes.copy()
+        self.nodes.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = temp[old_key]
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
         temp = self.springs.copy()
+        self.springs.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = temp[old_key]
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
         temp = self.members.copy()
+        self.members.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = temp[old_key]
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
         temp = self.plates.copy()
+        self.plates.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = temp[old_key]
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
         temp = self.quads.copy()
+        self.quads.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = temp[old_key]
             self.quads[new_key].name = new_key
             id += 1
 
+        # Update the names used in each mesh
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
+
     def orphaned_nodes(self):
         """
         Returns a list of the names of nodes that are not attached to any elements.
-- 
2.43.0


From e6e1d7273ebe5ef4514153ff2f7fae723870ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 02/56] fix: delete_node() left springs attached to the deleted
 node in the model

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 01653fa..997ad38 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,6 +840,7 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
-- 
2.43.0


From 1c28f0cce148c9d718c7466ded6f4f9d3ecd065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 03/56] fix: delete_auxnode() never removed the auxiliary node
 from the members using it

---
 PyNite/FEModel3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 997ad38..3d46613 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -860,7 +860,7 @@ class FEModel3D():
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is not None and member.auxNode.name == auxnode_name:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From ed1f86e7cce514504ae4a9abd77324093ec97fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 04/56] fix: P-Delta analysis with the dense solver always
 failed

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..9ece83a 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -196,7 +196,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -304,7 +304,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3d46613..1784cd7 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1608,7 +1608,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From ff0c908de3239414d34ba76257cf4140c8801e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 05/56] fix: merge_duplicate_nodes() dropped nodal loads and
 enforced displacements and did not return the removed names

---
 PyNite/FEModel3D.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 1784cd7..22c0491 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -799,6 +799,16 @@ class FEModel3D():
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
                 
+                # Merge any enforced displacements
+                enforced_cond = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in enforced_cond:
+                    value = getattr(self.nodes[node_2_name], dof)
+                    if value is not None:
+                        setattr(self.nodes[node_1_name], dof, value)
+
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
+
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
 
@@ -828,6 +838,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the nodes that were removed
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From 0fa9dd802940cf856c4d7a6ae9ff4d95351c7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 06/56] fix: spring support reactions had the wrong sign, and
 one-way spring supports shared one active state between load combinations and
 analyses

---
 PyNite/Analysis.py  | 58 ++++++++++++++++++++-------------------------
 PyNite/FEModel3D.py | 24 +++++++++----------
 PyNite/Node3D.py    |  2 +-
 3 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 9ece83a..7bd3377 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -30,6 +30,12 @@ def _prepare_model(model):
         if mesh.is_generated == False:
             mesh.generate()
 
+    # Activate all support springs for all load combinations
+    for node in model.nodes.values():
+        for support_spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ):
+            if support_spring[0] is not None:
+                support_spring[2] = {}
+
     # Activate all springs and members for all load combinations
     for spring in model.springs.values():
         for combo_name in model.load_combos.keys():
@@ -494,8 +500,8 @@ def _check_TC_convergence(model, combo_name="Combo 1", log=True, spring_toleranc
                 ) or (spring[1] == "+" and displacement >= spring_tolerance)
 
                 # Check if there's a need to switch the active state of the spring
-                if spring[2] != should_be_active:
-                    spring[2] = should_be_active
+                if spring[2].get(combo_name, True) != should_be_active:
+                    spring[2][combo_name] = should_be_active
                     convergence = False
 
     # TODO: Adjust the code below to allow elements to reactivate on subsequent iterations if deformations at element nodes indicate the member goes back into an active state. This will lead to a less conservative and more realistic analysis. Nodal springs (above) already do this.
@@ -795,42 +801,30 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+            if node.spring_DX[0] != None and node.spring_DX[2].get(combo.name, True) == True:
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFX[combo.name] -= k*DX
+            if node.spring_DY[0] != None and node.spring_DY[2].get(combo.name, True) == True:
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFY[combo.name] -= k*DY
+            if node.spring_DZ[0] != None and node.spring_DZ[2].get(combo.name, True) == True:
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFZ[combo.name] -= k*DZ
+            if node.spring_RX[0] != None and node.spring_RX[2].get(combo.name, True) == True:
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnMX[combo.name] -= k*RX
+            if node.spring_RY[0] != None and node.spring_RY[2].get(combo.name, True) == True:
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnMY[combo.name] -= k*RY
+            if node.spring_RZ[0] != None and node.spring_RZ[2].get(combo.name, True) == True:
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 22c0491..e0cb9a5 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -965,17 +965,17 @@ class FEModel3D():
         if dof in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
             if direction in ('+', '-', None):
                 if dof == 'DX':
-                    self.nodes[node_name].spring_DX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DX = [stiffness, direction, {}]
                 elif dof == 'DY':
-                    self.nodes[node_name].spring_DY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DY = [stiffness, direction, {}]
                 elif dof == 'DZ':
-                    self.nodes[node_name].spring_DZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DZ = [stiffness, direction, {}]
                 elif dof == 'RX':
-                    self.nodes[node_name].spring_RX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RX = [stiffness, direction, {}]
                 elif dof == 'RY':
-                    self.nodes[node_name].spring_RY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RY = [stiffness, direction, {}]
                 elif dof == 'RZ':
-                    self.nodes[node_name].spring_RZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RZ = [stiffness, direction, {}]
             else:
                 raise ValueError('Invalid support spring direction. Specify \'+\', \'-\', or None.')
         else:
@@ -1324,7 +1324,7 @@ class FEModel3D():
             if node.spring_DX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DX[2] == True:
+                if node.spring_DX[2].get(combo_name, True) == True:
                     m, n = node.ID*6, node.ID*6
                     if sparse == True:
                         data.append(float(node.spring_DX[0]))
@@ -1336,7 +1336,7 @@ class FEModel3D():
             if node.spring_DY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DY[2] == True:
+                if node.spring_DY[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 1, node.ID*6 + 1
                     if sparse == True:
                         data.append(float(node.spring_DY[0]))
@@ -1348,7 +1348,7 @@ class FEModel3D():
             if node.spring_DZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DZ[2] == True:
+                if node.spring_DZ[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 2, node.ID*6 + 2
                     if sparse == True:
                         data.append(float(node.spring_DZ[0]))
@@ -1360,7 +1360,7 @@ class FEModel3D():
             if node.spring_RX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RX[2] == True:
+                if node.spring_RX[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 3, node.ID*6 + 3
                     if sparse == True:
                         data.append(float(node.spring_RX[0]))
@@ -1372,7 +1372,7 @@ class FEModel3D():
             if node.spring_RY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RY[2] == True:
+                if node.spring_RY[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 4, node.ID*6 + 4
                     if sparse == True:
                         data.append(float(node.spring_RY[0]))
@@ -1384,7 +1384,7 @@ class FEModel3D():
             if node.spring_RZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RZ[2] == True:
+                if node.spring_RZ[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 5, node.ID*6 + 5
                     if sparse == True:
                         data.append(float(node.spring_RZ[0]))
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..d9394a3 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -46,7 +46,7 @@ class Node3D():
         self.support_RZ = False
 
         # Inititialize all support springs
-        self.spring_DX = [None, None, None]  # [stiffness, direction, active]
+        self.spring_DX = [None, None, None]  # [stiffness, direction, {combo name: active}]
         self.spring_DY = [None, None, None]
         self.spring_DZ = [None, None, None]
         self.spring_RX = [None, None, None]
-- 
2.43.0


From a291255e6603a77abaeff11758ad546200f77e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 07/56] fix: a first-order analysis after a P-Delta analysis
 used second-order member forces for its reactions

---
 PyNite/Analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 7bd3377..705aa7e 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -10,6 +10,9 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
+    # Flag the model as unsolved until the analysis is complete. Results from a prior analysis type don't apply to this one.
+    model.solution = None
+
     # Reset any nodal displacements
     model._D = {}
     for node in model.nodes.values():
-- 
2.43.0


From e86e6cffa1d8d4c82a4ab29f471790454912b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 08/56] fix: meshes that have not been generated were not
 generated before analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 705aa7e..6a19faa 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -30,7 +30,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all support springs for all load combinations
-- 
2.43.0


From 08b63b11a3f345373f189c04235a0512968ce522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 09/56] fix: distributed loads were chopped up wrongly over
 members with intermediate nodes

---
 PyNite/PhysMember.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..aaa745d 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -101,7 +101,7 @@ class PhysMember(Member3D):
                 x2_load = dist_load[4]
 
                 # Determine if the distributed load should be applied to this segment
-                if x1_load <= xj and x2_load > xi: 
+                if x1_load < xj and x2_load > xi: 
                     
                     direction = dist_load[0]
                     w1 = dist_load[1]
@@ -109,7 +109,7 @@ class PhysMember(Member3D):
                     case = dist_load[5]
 
                     # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    w = lambda x: (dist_load[2] - dist_load[1])/(x2_load - x1_load)*(x - x1_load) + dist_load[1]
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From ce89113434c7066c7055a6436a0d6f175521d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 10/56] fix: a node coinciding with a member's i-node gave a
 division by zero

---
 PyNite/PhysMember.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index aaa745d..557577d 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -42,8 +42,8 @@ class PhysMember(Member3D):
         # Step through each node in the model
         for node in self.model.nodes.values():
 
-            # Check each node in the model (except the i and j-nodes)
-            if node is not self.i_node and node is not self.j_node:
+            # Check each node in the model (except the i and j-nodes, and nodes that coincide with the i-node)
+            if node is not self.i_node and node is not self.j_node and node.distance(self.i_node) > 0:
 
                 # Create a vector from the i-node to the current node
                 X, Y, Z = node.X, node.Y, node.Z
-- 
2.43.0


From 70ee8bd529c1d3583ba3215d37c1f4ffa5e0b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 11/56] fix: member result arrays were not updated after
 reanalysis

---
 PyNite/PhysMember.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 557577d..a178d0d 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -27,6 +27,9 @@ class PhysMember(Member3D):
         # Clear out any old sub_members
         self.sub_members = {}
 
+        # Any results previously stored for this member are no longer valid
+        self._solved_combo = None
+
         # Start a new list of nodes along the member
         int_nodes = []
 
-- 
2.43.0


From 8d23c04f403e2e0260c31833fad6c5cf38cc405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 12/56] fix: result arrays of members with intermediate nodes
 ignored the intermediate nodes

---
 PyNite/PhysMember.py | 58 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index a178d0d..f062216 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace, vstack
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -422,6 +422,62 @@ class PhysMember(Member3D):
         member, x_mod = self.find_member(x)
         return member.rel_deflection(Direction, x_mod, combo_name)
 
+    def _result_array(self, result, n_points, x_array=None):
+        """
+        Returns an array of positions along the physical member and an array of the values returned by `result` at those
+        positions. The results are read from whichever sub-member each position lies on.
+        """
+
+        L = self.L()
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        else:
+            if any(x_array<0) or any(x_array>L):
+                raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        return vstack((x_array, array([result(x) for x in x_array])))
+
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the physical member for the given direction. See `Member3D.shear_array`.
+        """
+        if Direction not in ('Fy', 'Fz'):
+            raise ValueError(f"Direction must be 'Fy' or 'Fz'. {Direction} was given.")
+        return self._result_array(lambda x: self.shear(Direction, x, combo_name), n_points, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the physical member for the given direction. See `Member3D.moment_array`.
+        """
+        return self._result_array(lambda x: self.moment(Direction, x, combo_name), n_points, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the physical member. See `Member3D.torque_array`.
+        """
+        return self._result_array(lambda x: self.torque(x, combo_name), n_points, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the physical member. See `Member3D.axial_array`.
+        """
+        return self._result_array(lambda x: self.axial(x, combo_name), n_points, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the physical member for the given direction. See `Member3D.deflection_array`.
+        """
+        if Direction not in ('dx', 'dy', 'dz'):
+            raise ValueError(f"Direction must be 'dx', 'dy' or 'dz'. {Direction} was given.")
+        return self._result_array(lambda x: self.deflection(Direction, x, combo_name), n_points, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the physical member for the given direction. See
+        `Member3D.rel_deflection_array`.
+        """
+        return self._result_array(lambda x: self.rel_deflection(Direction, x, combo_name), n_points, x_array)
+
     def find_member(self, x):
         """
         Returns the sub-member that the physical member's local point 'x' lies on, and 'x' modified for that sub-member's
-- 
2.43.0


From fc1a1e85ebc26f2abfff52fdc07253bf9203de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 13/56] fix: the maximum moment of a member ignored
 P-little-delta effects that the other moment results include

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..8f2e4c4 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -145,10 +145,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..894c039 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1023,9 +1023,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1033,9 +1033,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From d5290400ef7df3f0133263faaab9a8f582d0d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 14/56] fix: the statics check failed when combo tags were
 given and a load combination had no tags

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 6a19faa..815d7fa 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -856,7 +856,7 @@ def _check_statics(model, combo_tags=None):
     else:
         combo_list = []
         for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
+            if combo.combo_tags is not None and any(tag in combo.combo_tags for tag in combo_tags):
                 combo_list.append(combo)
 
     # Step through each load combination
-- 
2.43.0


From ff5222f9c065ccfb2cc7a848b10aac49faab1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 15/56] fix: P-Delta analysis failed for
 tension/compression-only models with all displacements known

---
 PyNite/Analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 815d7fa..e396cfd 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -216,7 +216,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
@@ -255,7 +255,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
             iter_count_TC += 1
 
             # Undo the last iteration of the analysis since the T/C analysis didn't converge
-            _sum_displacements(model, -Delta_D1, D2, D1_indices, D2_indices, model.load_combos[combo_name])
+            _sum_displacements(model, -Delta_D1, -D2, D1_indices, D2_indices, model.load_combos[combo_name])
             iter_count_PD = 0
 
         else:
-- 
2.43.0


From f02b319d27a057a81b884808bc6f8ea4b871e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 16/56] fix: extreme moments were missed when distributed loads
 summed to a nearly uniform load

---
 PyNite/BeamSegY.py | 13 +++++++++----
 PyNite/BeamSegZ.py | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 8f2e4c4..12cb564 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -1,3 +1,4 @@
+from math import copysign
 from PyNite.BeamSegZ import BeamSegZ
 
 # %%
@@ -132,8 +133,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula avoids subtracting nearly equal numbers when `a` is very small
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else x1
     
         x3 = 0
         x4 = L
@@ -178,8 +181,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula avoids subtracting nearly equal numbers when `a` is very small
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else x1
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..769b1f7 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -4,6 +4,7 @@ Created on Mon Nov  6 20:52:31 2017
 
 @author: D. Craig Brinck, SE
 """
+from math import copysign
 from numpy import full, array
 
 # %%
@@ -316,8 +317,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula avoids subtracting nearly equal numbers when `a` is very small
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else x1
     
         x3 = 0
         x4 = L
@@ -361,8 +364,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # This form of the quadratic formula avoids subtracting nearly equal numbers when `a` is very small
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else x1
     
         x3 = 0
         x4 = L
-- 
2.43.0


From 1584630c1553b0e4dbc990724155884f83eb9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:26 +0000
Subject: [PATCH 17/56] fix: unstable structures were silently given
 meaningless or non-numeric displacements

---
 PyNite/Analysis.py  | 20 +++++++++++++++++++-
 PyNite/FEModel3D.py |  6 ++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e396cfd..e1d0afd 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isfinite, finfo
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -133,6 +133,21 @@ def _check_stability(model, K):
 
     return
 
+def _check_solution(K11, D1, R1):
+    """Checks that a solution to `K11*D1 = R1` is meaningful. The solvers don't always recognize a singular stiffness matrix: they may return values that are not numbers, or displacements so large that `R1` is lost in the rounding errors of `K11*D1`.
+
+    :param K11: The stiffness matrix for the unknown displacements.
+    :type K11: ndarray or csr_matrix
+    :param D1: The calculated displacements.
+    :type D1: array
+    :param R1: The loads that cause the displacements.
+    :type R1: array
+    :raises ValueError: Occurs when the solution is meaningless, which indicates an unstable structure.
+    """
+
+    if not isfinite(D1).all() or finfo(float).eps*(abs(K11) @ abs(D1)).max() > 0.001*abs(R1).max():
+        raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
+
 def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=True, sparse=True, check_stability=False, max_iter=30, first_step=True):
     """Performs second order (P-Delta) analysis. This type of analysis is appropriate for most models using beams, columns and braces. Second order analysis is usually required by material-specific codes. The analysis is iterative and takes longer to solve. Models with slender members and/or members with combined bending and axial loads will generally have more significant P-Delta effects. P-Delta effects in plates/quads are not considered.
 
@@ -230,6 +245,9 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
+                # Make sure the solver didn't miss a singular stiffness matrix
+                _check_solution(K11, Delta_D1, subtract(subtract(P1, FER1), K12 @ D2))
+
             except:
                 # Return out of the method if 'K' is singular and provide an error message
                 raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index e0cb9a5..4859aa9 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2012,6 +2012,9 @@ class FEModel3D():
                             D1 = D1.reshape(len(D1), 1)
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                        # Make sure the solver didn't miss a singular stiffness matrix
+                        Analysis._check_solution(K11, D1, subtract(subtract(P1, FER1), K12 @ D2))
                     except:
                         # Return out of the method if 'K' is singular and provide an error message
                         raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2116,6 +2119,9 @@ class FEModel3D():
                         D1 = D1.reshape(len(D1), 1)
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                    # Make sure the solver didn't miss a singular stiffness matrix
+                    Analysis._check_solution(K11, D1, subtract(subtract(P1, FER1), K12 @ D2))
                 except:
                     # Return out of the method if 'K' is singular and provide an error message
                     raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
-- 
2.43.0


From 4737187d18399c017cfc3229bd543f20ee7849f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 18/56] fix: frustrum meshes about the X or Z axis were
 distorted

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..bbd771f 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1199,7 +1199,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1207,12 +1207,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From 5a8bf79fdba6584fb2fb7785f1329464f6ab1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 19/56] fix: annulus meshes narrower than the mesh size gave a
 division by zero

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index bbd771f..474be61 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -820,7 +820,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
-- 
2.43.0


From d101f966adf76694acb6c65d3fce851b9b853f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 20/56] fix: cylinder meshes ignored the origin off the axis
 and the stiffness modifiers, and fell short by the origin's height

---
 PyNite/Mesh.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 474be61..695831a 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1302,12 +1302,16 @@ class CylinderMesh(Mesh):
         h = self.h
 
         # Set the cylinder base's local y-coordinate
+        Xo, Yo, Zo = self.origin[0], self.origin[1], self.origin[2]
         if self.axis == 'Y':
-            y = self.origin[1]  
+            y = Yo
         elif self.axis == 'X':
-            y = self.origin[0]  
+            y = Xo
         elif self.axis == 'Z':
-             y = self.origin[2]
+            y = Zo
+
+        # Set the local y-coordinate of the top of the cylinder
+        y_top = y + h
 
         n = int(self.start_node[1:])
         q = int(self.start_element[1:])
@@ -1319,19 +1323,19 @@ class CylinderMesh(Mesh):
             num_elements = int(2*pi/mesh_size)
 
         # Mesh the cylinder from the bottom toward the top
-        while round(y, 10) < round(h, 10):
+        while round(y, 10) < round(y_top, 10):
 
-            height = h - y  #Remaining height to be meshed
+            height = y_top - y  #Remaining height to be meshed
             # Number of times the plate height fits in the remaining unmeshed height, resulting at least one element
             n_vert = max(int(abs(height)/mesh_size),1)
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, y, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, Yo, Zo], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [Xo, Yo, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From f821f5162902d4698544081540f33670febee1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 21/56] fix: generated meshes overwrote existing nodes and
 elements of the same name, and generating a mesh again left the earlier one
 in place

---
 PyNite/Mesh.py | 95 +++++++++++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 56 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 695831a..c06bf12 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -29,6 +29,22 @@ class Mesh():
     def is_generated(self):
         return self._is_generated
     
+    def _clear(self):
+        """Clears any nodes and elements from a previous generation of the mesh out of the mesh and the model
+        """
+
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node:
+                del self.model.nodes[node.name]
+
+        for element in self.elements.values():
+            elements = self.model.plates if element.type == 'Rect' else self.model.quads
+            if elements.get(element.name) is element:
+                del elements[element.name]
+
+        self.nodes = {}
+        self.elements = {}
+
     def _rename_duplicates(self):
         """Renames any nodes or elements in the mesh that are already in the model
         """
@@ -438,16 +454,19 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
     
     def generate(self):
 
+        # Clear out any previous generation of the mesh
+        self._clear()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -455,8 +474,8 @@ class RectangleMesh(Mesh):
         Yo = self.origin[1]
         Zo = self.origin[2]
         plane = self.plane
-        x_control = self.x_control
-        y_control = self.y_control
+        x_control = list(self.x_control)
+        y_control = list(self.y_control)
 
         element_type = self.element_type
 
@@ -804,6 +823,9 @@ class AnnulusMesh(Mesh):
     
     def generate(self):
         
+        # Clear out any previous generation of the mesh
+        self._clear()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -863,17 +885,11 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
+        # At this point we have a mesh, but some of the element or node names may already be
+        # being used in the model. Rename any names that are already being used, and add the mesh's
+        # nodes and elements to the model.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -988,17 +1004,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1166,16 +1171,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1290,6 +1285,9 @@ class CylinderMesh(Mesh):
     
     def generate(self):
         
+        # Clear out any previous generation of the mesh
+        self._clear()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
@@ -1354,16 +1352,11 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
+        # At this point we have a mesh, but some of the element or node names may already be
+        # being used in the model. Rename any names that are already being used, and add the mesh's
+        # nodes and elements to the model.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1537,16 +1530,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From 9a72546cc73228f65f38e53185dabb34f8fb2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 22/56] fix: plate twisting moments were overestimated by 1/(1
 - nu^2)

---
 PyNite/Plate3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..d35d848 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -115,7 +115,7 @@ class Plate3D():
         # Calculate the constitutive matrix [Db]
         Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
                                                 [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+                                                [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From 618aa0987e777c834a2d020da92edb6bb396ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 23/56] fix: plate moments and shears were scaled by in-plane
 stiffness modifiers that the bending stiffness does not include

---
 PyNite/Plate3D.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index d35d848..66445f5 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -101,15 +101,18 @@ class Plate3D():
 
     def Db(self):
         """
-        Returns the bending constitutive matrix for orthotropic materials [Db]
+        Returns the bending constitutive matrix [Db]
+
+        The stiffness modification factors only apply to in-plane (membrane) action. They are not
+        part of the plate's bending stiffness, so they must not affect its moments either.
         """
 
         # Get the plate thickness and other material parameters
         t = self.t
         nu_xy = self.nu
         nu_yx = self.nu
-        Ex = self.E*self.kx_mod
-        Ey = self.E*self.ky_mod
+        Ex = self.E
+        Ey = self.E
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-- 
2.43.0


From 94190ee9b65642179641feca1b4e4900759451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 24/56] fix: plates and quads with different stiffness
 modifiers in each direction had asymmetric stiffness matrices

---
 PyNite/Plate3D.py | 7 +++++--
 PyNite/Quad3D.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index 66445f5..b8e2aa6 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -84,8 +84,11 @@ class Plate3D():
         # coordinate system.
         Ex = self.E*self.kx_mod
         Ey = self.E*self.ky_mod
-        nu_xy = self.nu
-        nu_yx = self.nu
+
+        # The constitutive matrix must be symmetric, so Poisson's ratio for each direction has to
+        # satisfy `nu_xy*Ey = nu_yx*Ex`
+        nu_xy = self.nu*(Ex/Ey)**0.5
+        nu_yx = self.nu*(Ey/Ex)**0.5
 
         # The shear modulus will be unafected by orthotropic behavior
         # Logan, Appendix C.3, page 750
diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..6be7161 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -429,8 +429,11 @@ class Quad3D():
         # coordinate system.
         Ex = self.E*self.kx_mod
         Ey = self.E*self.ky_mod
-        nu_xy = self.nu
-        nu_yx = self.nu
+
+        # The constitutive matrix must be symmetric, so Poisson's ratio for each direction has to
+        # satisfy `nu_xy*Ey = nu_yx*Ex`
+        nu_xy = self.nu*(Ex/Ey)**0.5
+        nu_yx = self.nu*(Ey/Ex)**0.5
 
         # The shear modulus will be unafected by orthotropic behavior
         # Logan, Appendix C.3, page 750
-- 
2.43.0


From 2d34f1555cec71f07a3addf37c1aaca03b64ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:33 +0000
Subject: [PATCH 25/56] fix: the mesh integrity check reported every quad as
 missing from the model

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index c06bf12..b43f2e3 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1609,7 +1609,7 @@ def check_mesh_integrity(mesh, console_log=True):
     # Check that each element in the mesh is in the model
     count = 0
     for element in mesh.elements.values():
-        if element not in mesh.model.plates.values() and element.name not in mesh.model.quads.values():
+        if element not in mesh.model.plates.values() and element not in mesh.model.quads.values():
             count += 1
     
     if count != 0:
-- 
2.43.0


From 86044aa0e6f85606289705f072fb2dbc7238c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 26/56] fix: members horizontal or vertical up to round-off
 were given arbitrary local axes

---
 PyNite/Member3D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 894c039..d6035d0 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -531,7 +531,8 @@ class Member3D():
             
             # Calculate the remaining direction cosines. The local z-axis will be kept parallel to the global XZ plane in all cases
             # Vertical members
-            if isclose(x1, x2) and isclose(z1, z2):
+            # The tolerance is tied to the member length because `isclose` has no tolerance near zero by default
+            if isclose(x1, x2, abs_tol=1e-9*L) and isclose(z1, z2, abs_tol=1e-9*L):
                 
                 # For vertical members, keep the local y-axis in the XY plane to make 2D problems easier to solve in the XY plane
                 if y2 > y1:
@@ -542,7 +543,7 @@ class Member3D():
                     z = [0, 0, 1]
 
             # Horizontal members
-            elif isclose(y1, y2):
+            elif isclose(y1, y2, abs_tol=1e-9*L):
             
                 # Find a vector in the direction of the local z-axis by taking the cross-product
                 # of the local x-axis and the local y-axis. This vector will be perpendicular to
-- 
2.43.0


From f876cc188abb8410e742ac3d67688432297505c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 27/56] fix: end forces of members with intermediate nodes
 ignored the intermediate nodes

---
 PyNite/PhysMember.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index f062216..f192b8a 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -149,6 +149,27 @@ class PhysMember(Member3D):
             # Add the new sub-member to the sub-member dictionary for this physical member
             self.sub_members[name] = new_sub_member
     
+    def f(self, combo_name='Combo 1', push_combo='Push', step_num=1):
+        """
+        Returns the physical member's local end force vector for the given load combination. The forces at each end are
+        those of the sub-member at that end.
+
+        Parameters
+        ----------
+        combo_name : string
+            The name of the load combination to get the end forces for (not the combination itself).
+        """
+
+        # Use the member's own stiffness only if it isn't divided up by intermediate nodes
+        if len(self.sub_members) < 2:
+            return super().f(combo_name, push_combo, step_num)
+
+        sub_members = list(self.sub_members.values())
+        f_i = sub_members[0].f(combo_name, push_combo, step_num)
+        f_j = sub_members[-1].f(combo_name, push_combo, step_num)
+
+        return vstack((f_i[0:6, :], f_j[6:12, :]))
+
     def shear(self, Direction, x, combo_name='Combo 1'):
         """
         Returns the shear at a point along the member's length.
-- 
2.43.0


From e70dbaa96a58e62051f80d8fe7368c55f5111e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 28/56] fix: point loads that are not on the member were
 silently ignored

---
 PyNite/FEModel3D.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 4859aa9..0a4791c 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1116,13 +1116,18 @@ class FEModel3D():
         :type x: float
         :param case: The load case to categorize the load under. Defaults to 'Case 1'.
         :type case: str, optional
-        :raises ValueError: Occurs when an invalid load direction has been specified.
+        :raises ValueError: Occurs when an invalid load direction or a location that isn't on the member has been specified.
         """            
 
         # Validate the value of direction
         if direction not in ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ', 'Mx', 'My', 'Mz', 'MX', 'MY', 'MZ'):
             raise ValueError(f"direction must be 'Fx', 'Fy', 'Fz', 'FX', 'FY', FZ', 'Mx', 'My', 'Mz', 'MX', 'MY', or 'MZ'. {direction} was given.")
         
+        # Validate the load's location. A load that isn't on the member would otherwise be ignored.
+        L = self.members[member_name].L()
+        if x < 0 or (x > L and not isclose(x, L)):
+            raise ValueError(f"x must be in the range 0 to {L} for member '{member_name}'. {x} was given.")
+
         # Add the point load to the member
         self.members[member_name].PtLoads.append((direction, P, x, case))
         
-- 
2.43.0


From f3482b8f5d4477ed91c8d90c45d66e93ae002cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 29/56] fix: P-Delta analysis failed for models with quads

---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 6be7161..29a5ae6 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -643,6 +643,9 @@ class Quad3D():
             The name of the load combination to get the consistent load vector for.
         """
         
+        # Recalculate the local coordinate system
+        self._local_coords()
+
         Hw = lambda xi, eta : 1/4*np.array([[(1 - xi)*(1 - eta), 0, 0, (1 + xi)*(1 - eta), 0, 0, (1 + xi)*(1 + eta), 0, 0, (1 - xi)*(1 + eta), 0, 0]])
 
         # Initialize the fixed end reaction vector
-- 
2.43.0


From d4cc48971f192b856db3c8648fe3884a841cd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 30/56] fix: deflections and moments within members hung,
 diverged or jumped at loads after a P-Delta analysis

---
 PyNite/BeamSegY.py | 40 +++++++--------------------
 PyNite/BeamSegZ.py | 69 +++++++++++++++++++++++++---------------------
 PyNite/Member3D.py | 21 ++++++++++----
 3 files changed, 62 insertions(+), 68 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 12cb564..e0086c1 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -28,7 +28,7 @@ class BeamSegY(BeamSegZ):
         
         if P_delta == True:
             delta1 = self.delta1
-            delta = self.deflection(x)
+            delta = self.deflection(x, P_delta)
             M += P1*(delta - delta1)
         
         return M
@@ -55,9 +55,7 @@ class BeamSegY(BeamSegZ):
         EI = self.EI
         
         if P_delta == True:
-            delta_x = self.deflection(x, P_delta)
-            delta_1 = self.delta1
-            return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1 - P1*delta_1 + P1*delta_x) + x**4*(w1 - w2)/(24*L))/EI
+            return -self._P_delta_curve(x)[1]
         else:
             return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1) + x**4*(w1 - w2)/(24*L))/EI
 
@@ -72,42 +70,24 @@ class BeamSegY(BeamSegZ):
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
     
-        # Iteration is required to calculate P-little-delta effects
+        # Include P-little-delta effects if a P-Delta analysis was run
         if P_delta == True:
-
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1 + P1*delta_x)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
-
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            return delta_1 + self._P_delta_curve(x)[0]
         
-        # Non-P-delta solutions are not iterative
+        # First-order deflection
         else:
 
             # Return the calcuated deflection
             return delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
     
+    def _P_delta_terms(self):
+        """Returns the rate of change of the deflection at the start of the segment, and the coefficients of the polynomial for the first-order curvature."""
+        
+        return -self.theta1, [self.M1/self.EI, self.V1/self.EI, self.w1/(2*self.EI), (self.w2 - self.w1)/(6*self.EI*self.Length())]
+
 #%%
     # Returns the maximum moment in the segment
     def max_moment(self, P_delta=False):
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 769b1f7..e9d5c5d 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -115,7 +115,7 @@ class BeamSegZ():
         # Include the P-little-delta moment if a P-Delta analysis was run
         if P_delta == True:
             delta_1 = self.delta1
-            delta_x = self.deflection(x)
+            delta_x = self.deflection(x, P_delta)
             M += P1*(delta_x - delta_1)
         
         # Return the computed moment
@@ -166,13 +166,10 @@ class BeamSegZ():
         L = self.Length()
         EI = self.EI
 
-        theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
         theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
 
         if P_delta == True:
-            delta_1 = self.delta1
-            delta_x = self.deflection(x, P_delta)
-            theta_x -= x*(-P1*delta_1 + P1*delta_x)/EI
+            theta_x = self._P_delta_curve(x)[1]
         
         # TODO: This is an old equation left for reference. Delete it after the new equation has been proved over time.
         # return theta_1 - (M1*x - V1*x**2/2 - w1*x**3/6 + x**4*(w1 - w2)/(24*L))/(EI)
@@ -190,44 +187,52 @@ class BeamSegZ():
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
         
-        # Iteration is required to calculate P-little-delta effects
+        # Include P-little-delta effects if a P-Delta analysis was run
         if P_delta == True:
-
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                # delta_x = delta1 + theta1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            return delta_1 + self._P_delta_curve(x)[0]
         
-        # Non-P-delta solutions are not iterative
+        # First-order deflection
         else:
 
             # Return the calcuated deflection
             # return delta1 + theta1*x - M1*x**2/(2*EI) + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**5*(-w1 + w2)/(120*EI*L)
             return delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
 
+    def _P_delta_curve(self, x):
+        """Returns the deflection relative to the start of the segment, and the rate of change of the deflection, at `x`, including P-little-delta effects.
+
+        This is the solution to `EI*y'' = -(M1 - V1*x - w1*x**2/2 - x**3*(w2 - w1)/(6*L)) - P1*y`, expressed as a power series in `x`.
+        """
+
+        # Get the slope and the coefficients of the (first-order) curvature polynomial
+        y1, q = self._P_delta_terms()
+        k = self.P1/self.EI
+
+        # Sum the series: y = a0 + a1*x + a2*x**2 + ... where (n + 2)*(n + 1)*a(n + 2) = q(n) - k*a(n)
+        a = [0, y1]
+        y, dy = y1*x, y1 + 0*x
+        small, n = 0, 0
+        while small < 2 and n < 500:
+            a.append(((q[n] if n < len(q) else 0) - k*a[n])/((n + 2)*(n + 1)))
+            y_n, dy_n = a[n + 2]*x**(n + 2), (n + 2)*a[n + 2]*x**(n + 1)
+            y, dy = y + y_n, dy + dy_n
+            # The series has converged once two terms in a row are negligible
+            if n >= len(q) and abs(y_n) <= 1e-16*abs(y) and abs(dy_n) <= 1e-16*abs(dy):
+                small += 1
+            else:
+                small = 0
+            n += 1
+        
+        return y, dy
+
+    def _P_delta_terms(self):
+        """Returns the rate of change of the deflection at the start of the segment, and the coefficients of the polynomial for the first-order curvature."""
+        
+        return self.theta1, [-self.M1/self.EI, self.V1/self.EI, self.w1/(2*self.EI), (self.w2 - self.w1)/(6*self.EI*self.Length())]
+
     def AxialDeflection(self, x):
 
         delta_x1 = self.delta_x1
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index d6035d0..14334cb 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1581,12 +1581,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return segment.deflection(x - segment.x1)
+                        return segment.deflection(x - segment.x1, P_delta)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1) 
+                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)
         
         else:
 
@@ -1919,6 +1919,9 @@ class Member3D():
         # Get the load combination to segment the member for
         combo = self.model.load_combos[combo_name]
 
+        # Include P-little-delta effects if a P-Delta analysis was run
+        P_delta = self.model.solution == 'P-Delta' or self.model.solution == 'Pushover'
+
         # Create a list of discontinuity locations
         disconts = [0, L] # Member ends
         
@@ -2011,11 +2014,11 @@ class Member3D():
             
             # Initialize the slope and displacement at the start of the segment
             if i > 0: # The first segment has already been initialized
-                SegmentsZ[i].theta1 = SegmentsZ[i-1].slope(SegmentsZ[i-1].Length())
-                SegmentsZ[i].delta1 = SegmentsZ[i-1].deflection(SegmentsZ[i-1].Length())
+                SegmentsZ[i].theta1 = SegmentsZ[i-1].slope(SegmentsZ[i-1].Length(), P_delta)
+                SegmentsZ[i].delta1 = SegmentsZ[i-1].deflection(SegmentsZ[i-1].Length(), P_delta)
                 SegmentsZ[i].delta_x1 = SegmentsZ[i-1].AxialDeflection(SegmentsZ[i-1].Length())
-                SegmentsY[i].theta1 = SegmentsY[i-1].slope(SegmentsY[i-1].Length())
-                SegmentsY[i].delta1 = SegmentsY[i-1].deflection(SegmentsY[i-1].Length())
+                SegmentsY[i].theta1 = SegmentsY[i-1].slope(SegmentsY[i-1].Length(), P_delta)
+                SegmentsY[i].delta1 = SegmentsY[i-1].deflection(SegmentsY[i-1].Length(), P_delta)
                 SegmentsY[i].delta_x1 = SegmentsY[i-1].AxialDeflection(SegmentsY[i-1].Length())
                 
             # Add the effects of the beam end forces to the segment
@@ -2026,6 +2029,12 @@ class Member3D():
             SegmentsY[i].V1 = f[2, 0]
             SegmentsY[i].M1 = f[4, 0] + f[2, 0]*x
             SegmentsX[i].T1 = f[3, 0]
+
+            # Add the P-little-delta moment that has built up prior to this segment
+            if P_delta:
+                for j in range(i):
+                    SegmentsZ[i].M1 += SegmentsZ[j].P1*(SegmentsZ[j+1].delta1 - SegmentsZ[j].delta1)
+                    SegmentsY[i].M1 -= SegmentsY[j].P1*(SegmentsY[j+1].delta1 - SegmentsY[j].delta1)
             
             # Step through each load case in the specified load combination
             for case, factor in combo.factors.items():
-- 
2.43.0


From 2f17b2fec3da2296379938bd1d5f531bd1489830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 31/56] fix: deflections of members with released translations
 ignored the movement at the release

---
 PyNite/Member3D.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 14334cb..8613a38 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1970,6 +1970,13 @@ class Member3D():
         f = self.f(combo_name)           # Member local end force vector
         fer = self._fer_unc(combo_name)  # Member local fixed end reaction vector
         d = self.d(combo_name)           # Member local displacement vector
+
+        # The member's ends do not move with its nodes in directions that have been released
+        if any(self.Releases):
+            R1_indices, R2_indices = self._partition_D()
+            k11, k12, k21, k22 = self._partition(self._k_unc())
+            fer1, fer2 = self._partition(fer)
+            d[R2_indices] = -inv(k22) @ (k21 @ d[R1_indices] + fer2)
         
         # Get the local deflections and calculate the slope at the start of the member
         # Note 1: The slope may not be available directly from the local displacement vector if member end releases have been used, so slope-deflection has been applied to solve for it.
-- 
2.43.0


From a20d66dfe289411405547c620d7ee9eabcebf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 32/56] fix: P-Delta analysis failed for members with axial
 releases

---
 PyNite/Member3D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 8613a38..d658b66 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -181,6 +181,10 @@ class Member3D():
             The axial force acting on the member (compression = +, tension = -)
         """
 
+        # Axial strain does not cause an axial force in members with axial releases
+        if self.Releases[0] or self.Releases[6]:
+            P = 0
+
         # Get the properties needed to form the local geometric stiffness matrix
         Ip = self.Iy + self.Iz
         A = self.A
-- 
2.43.0


From 9adbb3d4f058b074344eb0c94cbe6288e7ff1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 33/56] fix: deactivated springs and members reported end
 forces

---
 PyNite/Member3D.py | 4 ++++
 PyNite/Spring3D.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index d658b66..873b58d 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -466,6 +466,10 @@ class Member3D():
         :rtype: array
         """
         
+        # Members that have been deactivated only pass the loads applied to them on to their nodes
+        if not self.active[combo_name]:
+            return self.fer(combo_name)
+
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..7d52364 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -80,6 +80,10 @@ class Spring3D():
             The name of the load combination to calculate the local end force vector for (not the load combination itself).
         '''
         
+        # Springs that have been deactivated carry no force
+        if not self.active[combo_name]:
+            return zeros((12, 1))
+
         # Calculate and return the spring's local end force vector
         return matmul(self.k(), self.d(combo_name))
 
-- 
2.43.0


From ca8f241a32b19f6f5272805c3f3a19b8b6fe27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 34/56] fix: reactions left out the loads on deactivated
 members

---
 PyNite/Analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e1d0afd..6f632e1 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -665,7 +665,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
@@ -678,7 +678,7 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-- 
2.43.0


From aa994af8dc2b9ec0f277cca11df3f1cdd05616a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 35/56] fix: reactions from an earlier analysis were kept for
 load combinations that were not analyzed again

---
 PyNite/Analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 6f632e1..1040a6e 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -13,7 +13,7 @@ def _prepare_model(model):
     # Flag the model as unsolved until the analysis is complete. Results from a prior analysis type don't apply to this one.
     model.solution = None
 
-    # Reset any nodal displacements
+    # Reset any nodal displacements and reactions
     model._D = {}
     for node in model.nodes.values():
         node.DX = {}
@@ -22,6 +22,12 @@ def _prepare_model(model):
         node.RX = {}
         node.RY = {}
         node.RZ = {}
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
 
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
-- 
2.43.0


From 5c29b06f1d16f01fa1820e18c6cd8d990b47baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 36/56] fix: unstable structures were still solved when the
 solver's round-off error was small next to other loads

---
 PyNite/Analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 1040a6e..7fc53be 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -140,7 +140,7 @@ def _check_stability(model, K):
     return
 
 def _check_solution(K11, D1, R1):
-    """Checks that a solution to `K11*D1 = R1` is meaningful. The solvers don't always recognize a singular stiffness matrix: they may return values that are not numbers, or displacements so large that `R1` is lost in the rounding errors of `K11*D1`.
+    """Checks that a solution to `K11*D1 = R1` is meaningful. The solvers don't always recognize a singular stiffness matrix: they may return values that are not numbers, or displacements so large that `R1` is lost in the rounding errors of `K11*D1`. Displacements that take no work compared to the stiffness that could resist them are rigid body motion too.
 
     :param K11: The stiffness matrix for the unknown displacements.
     :type K11: ndarray or csr_matrix
@@ -151,7 +151,11 @@ def _check_solution(K11, D1, R1):
     :raises ValueError: Occurs when the solution is meaningless, which indicates an unstable structure.
     """
 
-    if not isfinite(D1).all() or finfo(float).eps*(abs(K11) @ abs(D1)).max() > 0.001*abs(R1).max():
+    resistance = abs(K11) @ abs(D1)
+
+    if (not isfinite(D1).all()
+    or  finfo(float).eps*resistance.max() > 0.0001*abs(R1).max()
+    or  10*finfo(float).eps*(abs(D1)*resistance).sum() > abs((D1*R1).sum())):
         raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
 
 def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=True, sparse=True, check_stability=False, max_iter=30, first_step=True):
-- 
2.43.0


From 19f10056b3f9e89aa056c07d7c840bf3c0e8bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 37/56] fix: end releases that make a member unstable went
 unnoticed, and round-off error passed for stiffness where releases leave none

---
 PyNite/Member3D.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 873b58d..4671ae9 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1,6 +1,6 @@
 # %%
 from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where
-from numpy.linalg import inv, pinv
+from numpy.linalg import inv, matrix_rank, pinv
 from math import isclose
 from PyNite.BeamSegZ import BeamSegZ
 from PyNite.BeamSegY import BeamSegY
@@ -121,9 +121,18 @@ class Member3D():
         # Partition the local stiffness matrix as 4 submatrices in
         # preparation for static condensation
         k11, k12, k21, k22 = self._partition(self._k_unc())
+
+        # Make sure the end releases don't leave the member free to move between its nodes. The matrix inversion below doesn't always recognize a singular matrix.
+        if len(k22) > 0:
+            scale = where(k22.diagonal() > 0, k22.diagonal(), 1)**0.5
+            if matrix_rank(k22/scale/scale.reshape(-1, 1), tol=1e-10) < len(k22):
+                raise ValueError(f'The end releases of member {self.name} make it unstable.')
                
         # Calculate the condensed local stiffness matrix
         k_Condensed = subtract(k11, matmul(matmul(k12, inv(k22)), k21))
+
+        # Don't let round-off error pass for stiffness where the end releases leave none
+        k_Condensed[abs(k_Condensed) < 1e-10*abs(k11)] = 0
         
         # Expand the condensed local stiffness matrix
         i=0
-- 
2.43.0


From 932f6eafd99866a35ffc3f89e3811c2df71b25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 38/56] fix: rectangle meshes with large dimensions lost their
 last row or column to accumulated round-off

---
 PyNite/Mesh.py | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index b43f2e3..d395b13 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -527,47 +527,38 @@ class RectangleMesh(Mesh):
         # Step through each y control point (except the first one which is always zero)
         num_rows = 0
         num_cols = 0
-        y, h = 0, None
         for j in range(1, len(y_control), 1):
             
-            # If this is not the first iteration 'y' will be too high at this point.
-            if j != 1:
-                y -= h
-
             # Determine the mesh size between this y control point and the previous one
             ny = max(1, (y_control[j] - y_control[j - 1])/mesh_size)
             h = (y_control[j] - y_control[j - 1])/ceil(ny)
 
-            # Adjust 'y' if this is not the first iteration.
-            if j != 1:
-                y += h
-
-            # Generate nodes between the y control points
-            while round(y, 10) <= round(y_control[j], 10):
+            # Generate nodes between the y control points (skipping the row of nodes at the
+            # previous control point if it's already been generated)
+            for iy in range(0 if j == 1 else 1, ceil(ny) + 1, 1):
                 
+                # Calculate the y coordinate, without letting round-off error accumulate
+                y = y_control[j - 1] + iy*h
+
                 # Count the number of rows of plates as we go
                 num_rows += 1
 
                 # Step through each x control point (except the first one which is always zero)
-                x, b = 0, None
                 for i in range(1, len(x_control), 1):
                     
-                    # 'x' needs to be adjusted for the same reasons 'y' needed to be adjusted
-                    if i != 1:
-                        x -= b
-
                     # Determine the mesh size between this x control point and the previous one
                     nx = max(1, (x_control[i] - x_control[i - 1])/mesh_size)
                     b = (x_control[i] - x_control[i - 1])/ceil(nx)
 
-                    if i != 1:
-                        x += b
-
-                    # Generate nodes between the x control points
-                    while round(x, 10) <= round(x_control[i], 10):
+                    # Generate nodes between the x control points (skipping the node at the previous
+                    # control point if it's already been generated)
+                    for ix in range(0 if i == 1 else 1, ceil(nx) + 1, 1):
                         
+                        # Calculate the x coordinate, without letting round-off error accumulate
+                        x = x_control[i - 1] + ix*b
+
                         # Count the number of columns of plates as we go
-                        if y == 0:
+                        if num_rows == 1:
                             num_cols += 1
 
                         # Assign the node a name
@@ -592,15 +583,9 @@ class RectangleMesh(Mesh):
                         # Add the node to the mesh
                         self.nodes[node_name] = Node3D(node_name, X, Y, Z)
 
-                        # Move to the next x coordinate
-                        x += b
-
                         # Move to the next node number
                         node_num += 1
 
-                # Move to the next y coordinate
-                y += h
-        
         # At this point `num_cols` and `num_rows` represent the number of columns and rows of
         # nodes. We'll adjust these variables to be the number of columns and rows of elements
         # instead.
-- 
2.43.0


From bcc133f8dff00935b89e281788b43f7d4491c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 39/56] fix: a control point next to zero by round-off gave a
 rectangle mesh a column of zero width elements

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index d395b13..ed9e3a2 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -493,7 +493,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(x_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(x_control[i], x_control[i+1]):
+            if not isclose(x_control[i], x_control[i+1], abs_tol=1e-9*width):
                 unique_list.append(x_control[i])
         unique_list.append(x_control[-1])
         x_control = unique_list
@@ -502,7 +502,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(y_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(y_control[i], y_control[i+1]):
+            if not isclose(y_control[i], y_control[i+1], abs_tol=1e-9*height):
                 unique_list.append(y_control[i])
         unique_list.append(y_control[-1])
         y_control = unique_list
-- 
2.43.0


From 028f1177a920b20927b9d3e4219a2d890913a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 40/56] fix: openings in rectangle meshes with large
 coordinates were left meshed, or attached to deleted nodes, because of
 round-off

---
 PyNite/Mesh.py | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index ed9e3a2..28335d2 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -624,30 +624,9 @@ class RectangleMesh(Mesh):
                                                                     self.nodes['N' + str(n_node + node_offset)],
                                                                     self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Initialize a list of nodes and associated elements that fall within opening boundaries
-        # that will be deleted
-        node_del_list = []
+        # Initialize a list of elements that fall within opening boundaries that will be deleted
         element_del_list = []
 
-        # Go back through the mesh and delete any nodes that are in the openings
-        for node in self.nodes.values():
-            
-            # Get the node's position in the mesh's local coordinate sytem.
-            x, y = self.node_local_coords(node)
-
-            # Step through each opening in the mesh
-            for opng in self.openings.values():
-
-                # Determine if the node falls within the boundaries of the opening
-                if (round(x, 10) > round(opng.x_left, 10)
-                and round(x, 10) < round(opng.x_left + opng.width, 10) 
-                and round(y, 10) > round(opng.y_bott, 10) 
-                and round(y, 10) < round(opng.y_bott + opng.height, 10)):
-
-                    # Mark the node for deletion if it's not already marked
-                    if node.name not in node_del_list:
-                        node_del_list.append(node.name)
-                
         # Go back through the mesh and delete any elements that are in the openings
         for element in self.elements.values():
 
@@ -657,11 +636,12 @@ class RectangleMesh(Mesh):
 
             for opng in self.openings.values():
 
-                # Determine if the element falls within the boundaries of the opening
-                if ((round(opng.y_bott + opng.height, 10) >= round(top, 10))
-                and (round(opng.y_bott, 10) <= round(bott, 10))
-                and (round(opng.x_left, 10) <= round(left, 10))
-                and (round(opng.x_left + opng.width, 10) >= round(right, 10))):
+                # Determine if the element falls within the boundaries of the opening. Openings are
+                # bounded by control points, so elements are either all the way inside or all the
+                # way outside an opening. Checking the center rather than the sides keeps round-off
+                # error in the coordinates from making a difference.
+                if (opng.x_left < (left + right)/2 < opng.x_left + opng.width
+                and opng.y_bott < (top + bott)/2 < opng.y_bott + opng.height):
 
                     # Mark the element for deletion if it's not already marked
                     if element.name not in element_del_list:
@@ -671,11 +651,7 @@ class RectangleMesh(Mesh):
         for element_name in element_del_list:
             del self.elements[element_name]
 
-        # Delete the nodes marked for deletion
-        for node_name in node_del_list:
-            del self.nodes[node_name]
-        
-        # Find any remaining orphaned nodes around the perimeter of the mesh
+        # Find any orphaned nodes left inside the openings or around the perimeter of the mesh
         node_del_list = []
         for node in self.nodes.values():
             if (node not in [element.i_node for element in self.elements.values()]
-- 
2.43.0


From 10f01509328466b3548339e5d175410782d7c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 41/56] fix: deleting a node left it and its elements in their
 mesh, whose extremes then included stale results

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 0a4791c..8a5ea8f 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -858,6 +858,11 @@ class FEModel3D():
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and any elements attached to it from the meshes they belong to
+        for mesh in self.meshes.values():
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if name != node_name}
+            mesh.elements = {name: element for name, element in mesh.elements.items() if element.i_node.name != node_name and element.j_node.name != node_name and element.m_node.name != node_name and element.n_node.name != node_name}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From a8b554b4ddaad5e7c17f41712061803ff68e9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 42/56] fix: report the results of the analyzed load
 combinations (the report template never received any)

---
 PyNite/Reporting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 15b12a8..5c3ef05 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -58,6 +58,9 @@ def create_report(model, output_filepath=path/'./Pynite Report.pdf', **kwargs):
     kwargs['plates'] = model.plates.values()
     kwargs['quads'] = model.quads.values()
 
+    # Report every load combination the model has been analyzed for
+    kwargs['load_combos'] = [combo_name for combo_name in model.load_combos if all(combo_name in node.DX for node in model.nodes.values())]
+
     # Create the report HTML using jinja2
     HTML = template.render(**kwargs)
 
-- 
2.43.0


From faab6dbb4fd6782d735460f75375953d0827f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 43/56] fix: report plate and quad results of the load
 combination named in each row (the combination was passed as the `local`
 argument)

---
 PyNite/Report_Template.html | 172 ++++++++++++++++++------------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 402b681..a06a731 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -393,29 +393,29 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -423,29 +423,29 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -477,11 +477,11 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -489,11 +489,11 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -608,9 +608,9 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -618,9 +618,9 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 0d603c33d5225712a85034650ca8fe9d9736ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 44/56] fix: report the values at a plate's j and n corners
 under those corners

---
 PyNite/Report_Template.html | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index a06a731..6f1f25d 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -399,11 +399,11 @@
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
@@ -411,11 +411,11 @@
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -547,17 +547,17 @@
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 72412186ab1a4761a979bc65b04a879519cb915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 45/56] fix: report corner membrane stresses as numbers
 (formatting one-element arrays fails with current numpy)

---
 PyNite/Report_Template.html | 48 ++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 6f1f25d..aaf5777 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
-- 
2.43.0


From cf6754eb8292d82c8eef6f55b2f4755fa81ce334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 46/56] fix: include P-little-delta effects in relative
 deflections after a P-Delta analysis

---
 PyNite/Member3D.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 4671ae9..4bf6df8 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1800,6 +1800,9 @@ class Member3D():
                 self._segment_member(combo_name)
                 self._solved_combo = self.model.load_combos[combo_name]
             
+            # Include P-little-delta effects if a P-Delta analysis was run
+            P_delta = self.model.solution == 'P-Delta' or self.model.solution == 'Pushover'
+
             d = self.d(combo_name)
             dyi = d[1,0]
             dyj = d[7,0]
@@ -1815,12 +1818,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return (segment.deflection(x - segment.x1)) - (dyi + (dyj-dyi)/L*x)
+                        return (segment.deflection(x - segment.x1, P_delta)) - (dyi + (dyj-dyi)/L*x)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsZ) - 1
-                    return (self.SegmentsZ[lastIndex].deflection(x - self.SegmentsZ[lastIndex].x1))-dyj
+                    return (self.SegmentsZ[lastIndex].deflection(x - self.SegmentsZ[lastIndex].x1, P_delta))-dyj
                     
             elif Direction == 'dz':
                 
@@ -1828,12 +1831,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return (segment.deflection(x - segment.x1)) - (dzi + (dzj-dzi)/L*x)
+                        return (segment.deflection(x - segment.x1, P_delta)) - (dzi + (dzj-dzi)/L*x)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return (self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1)) - dzj
+                    return (self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)) - dzj
         
         else:
 
@@ -1909,6 +1912,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
 
+        # P-Delta results are not vectorised yet, find them element-wise
+        if self.model.solution == 'P-Delta' or self.model.solution == 'Pushover':
+            return vstack((x_array, array([self.rel_deflection(Direction, x, combo_name) for x in x_array])))
+
         # Check which axis is of interest
         if Direction == 'dy':
             deflections = self._extract_vector_results(self.SegmentsZ, x_array, 'deflection')[1]
-- 
2.43.0


From b12c5d80de74142f62c0f09f69fb80e3a29e383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 47/56] fix: report the reactions of directions held by an
 enforced displacement only

An enforced displacement holds its direction whether or not a support is defined there, but the force
needed was only reported for supports. Spring support forces were counted twice where both are defined.
---
 PyNite/Analysis.py | 183 ++++++++++++++++++++++++---------------------
 1 file changed, 96 insertions(+), 87 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 7fc53be..059a619 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -625,6 +625,14 @@ def _calc_reactions(model, log=False, combo_tags=None):
     # Calculate the reactions node by node
     for node in model.nodes.values():
         
+        # A direction is held by a support or by an enforced displacement
+        held_DX = node.support_DX or node.EnforcedDX is not None
+        held_DY = node.support_DY or node.EnforcedDY is not None
+        held_DZ = node.support_DZ or node.EnforcedDZ is not None
+        held_RX = node.support_RX or node.EnforcedRX is not None
+        held_RY = node.support_RY or node.EnforcedRY is not None
+        held_RZ = node.support_RZ or node.EnforcedRZ is not None
+
         # Step through each load combination
         for combo in combo_list:
             
@@ -637,8 +645,8 @@ def _calc_reactions(model, log=False, combo_tags=None):
             node.RxnMZ[combo.name] = 0.0
 
             # Determine if the node has any supports
-            if (node.support_DX or node.support_DY or node.support_DZ 
-            or  node.support_RX or node.support_RY or node.support_RZ):
+            if (held_DX or held_DY or held_DZ 
+            or  held_RX or held_RY or held_RZ):
 
                 # Sum the spring end forces at the node
                 for spring in model.springs.values():
@@ -649,12 +657,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         spring_F = spring.F(combo.name)
 
-                        if node.support_DX: node.RxnFX[combo.name] += spring_F[0, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += spring_F[1, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += spring_F[2, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += spring_F[3, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += spring_F[4, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += spring_F[5, 0]
+                        if held_DX: node.RxnFX[combo.name] += spring_F[0, 0]
+                        if held_DY: node.RxnFY[combo.name] += spring_F[1, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += spring_F[2, 0]
+                        if held_RX: node.RxnMX[combo.name] += spring_F[3, 0]
+                        if held_RY: node.RxnMY[combo.name] += spring_F[4, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += spring_F[5, 0]
 
                     elif spring.j_node == node and spring.active[combo.name] == True:
                     
@@ -662,12 +670,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         spring_F = spring.F(combo.name)
                     
-                        if node.support_DX: node.RxnFX[combo.name] += spring_F[6, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += spring_F[7, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += spring_F[8, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += spring_F[9, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += spring_F[10, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += spring_F[11, 0]
+                        if held_DX: node.RxnFX[combo.name] += spring_F[6, 0]
+                        if held_DY: node.RxnFY[combo.name] += spring_F[7, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += spring_F[8, 0]
+                        if held_RX: node.RxnMX[combo.name] += spring_F[9, 0]
+                        if held_RY: node.RxnMY[combo.name] += spring_F[10, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += spring_F[11, 0]
 
                 # Step through each physical member in the model
                 for phys_member in model.members.values():
@@ -681,12 +689,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                             member_F = member.F(combo.name)
 
-                            if node.support_DX: node.RxnFX[combo.name] += member_F[0, 0]
-                            if node.support_DY: node.RxnFY[combo.name] += member_F[1, 0]
-                            if node.support_DZ: node.RxnFZ[combo.name] += member_F[2, 0]
-                            if node.support_RX: node.RxnMX[combo.name] += member_F[3, 0]
-                            if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
-                            if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
+                            if held_DX: node.RxnFX[combo.name] += member_F[0, 0]
+                            if held_DY: node.RxnFY[combo.name] += member_F[1, 0]
+                            if held_DZ: node.RxnFZ[combo.name] += member_F[2, 0]
+                            if held_RX: node.RxnMX[combo.name] += member_F[3, 0]
+                            if held_RY: node.RxnMY[combo.name] += member_F[4, 0]
+                            if held_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
                         elif member.j_node == node:
                         
@@ -694,12 +702,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                             member_F = member.F(combo.name)
                         
-                            if node.support_DX: node.RxnFX[combo.name] += member_F[6, 0]
-                            if node.support_DY: node.RxnFY[combo.name] += member_F[7, 0]
-                            if node.support_DZ: node.RxnFZ[combo.name] += member_F[8, 0]
-                            if node.support_RX: node.RxnMX[combo.name] += member_F[9, 0]
-                            if node.support_RY: node.RxnMY[combo.name] += member_F[10, 0]
-                            if node.support_RZ: node.RxnMZ[combo.name] += member_F[11, 0]
+                            if held_DX: node.RxnFX[combo.name] += member_F[6, 0]
+                            if held_DY: node.RxnFY[combo.name] += member_F[7, 0]
+                            if held_DZ: node.RxnFZ[combo.name] += member_F[8, 0]
+                            if held_RX: node.RxnMX[combo.name] += member_F[9, 0]
+                            if held_RY: node.RxnMY[combo.name] += member_F[10, 0]
+                            if held_RZ: node.RxnMZ[combo.name] += member_F[11, 0]
 
                 # Sum the plate forces at the node
                 for plate in model.plates.values():
@@ -710,12 +718,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         plate_F = plate.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += plate_F[0, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += plate_F[1, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += plate_F[2, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += plate_F[3, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += plate_F[4, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += plate_F[5, 0]
+                        if held_DX: node.RxnFX[combo.name] += plate_F[0, 0]
+                        if held_DY: node.RxnFY[combo.name] += plate_F[1, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += plate_F[2, 0]
+                        if held_RX: node.RxnMX[combo.name] += plate_F[3, 0]
+                        if held_RY: node.RxnMY[combo.name] += plate_F[4, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += plate_F[5, 0]
 
                     elif plate.j_node == node:
 
@@ -723,12 +731,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         plate_F = plate.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += plate_F[6, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += plate_F[7, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += plate_F[8, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += plate_F[9, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += plate_F[10, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += plate_F[11, 0]
+                        if held_DX: node.RxnFX[combo.name] += plate_F[6, 0]
+                        if held_DY: node.RxnFY[combo.name] += plate_F[7, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += plate_F[8, 0]
+                        if held_RX: node.RxnMX[combo.name] += plate_F[9, 0]
+                        if held_RY: node.RxnMY[combo.name] += plate_F[10, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += plate_F[11, 0]
 
                     elif plate.m_node == node:
 
@@ -736,12 +744,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         plate_F = plate.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += plate_F[12, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += plate_F[13, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += plate_F[14, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += plate_F[15, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += plate_F[16, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += plate_F[17, 0]
+                        if held_DX: node.RxnFX[combo.name] += plate_F[12, 0]
+                        if held_DY: node.RxnFY[combo.name] += plate_F[13, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += plate_F[14, 0]
+                        if held_RX: node.RxnMX[combo.name] += plate_F[15, 0]
+                        if held_RY: node.RxnMY[combo.name] += plate_F[16, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += plate_F[17, 0]
 
                     elif plate.n_node == node:
 
@@ -749,12 +757,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         plate_F = plate.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += plate_F[18, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += plate_F[19, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += plate_F[20, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += plate_F[21, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += plate_F[22, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += plate_F[23, 0]
+                        if held_DX: node.RxnFX[combo.name] += plate_F[18, 0]
+                        if held_DY: node.RxnFY[combo.name] += plate_F[19, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += plate_F[20, 0]
+                        if held_RX: node.RxnMX[combo.name] += plate_F[21, 0]
+                        if held_RY: node.RxnMY[combo.name] += plate_F[22, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += plate_F[23, 0]
 
                 # Sum the quad forces at the node
                 for quad in model.quads.values():
@@ -765,12 +773,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         quad_F = quad.F(combo.name)
 
-                        if node.support_DX: node.RxnFX[combo.name] += quad_F[0, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += quad_F[1, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += quad_F[2, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += quad_F[3, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += quad_F[4, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += quad_F[5, 0]
+                        if held_DX: node.RxnFX[combo.name] += quad_F[0, 0]
+                        if held_DY: node.RxnFY[combo.name] += quad_F[1, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += quad_F[2, 0]
+                        if held_RX: node.RxnMX[combo.name] += quad_F[3, 0]
+                        if held_RY: node.RxnMY[combo.name] += quad_F[4, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += quad_F[5, 0]
 
                     elif quad.j_node == node:
 
@@ -778,12 +786,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         quad_F = quad.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += quad_F[6, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += quad_F[7, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += quad_F[8, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += quad_F[9, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += quad_F[10, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += quad_F[11, 0]
+                        if held_DX: node.RxnFX[combo.name] += quad_F[6, 0]
+                        if held_DY: node.RxnFY[combo.name] += quad_F[7, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += quad_F[8, 0]
+                        if held_RX: node.RxnMX[combo.name] += quad_F[9, 0]
+                        if held_RY: node.RxnMY[combo.name] += quad_F[10, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += quad_F[11, 0]
 
                     elif quad.m_node == node:
 
@@ -791,12 +799,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         quad_F = quad.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += quad_F[12, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += quad_F[13, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += quad_F[14, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += quad_F[15, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += quad_F[16, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += quad_F[17, 0]
+                        if held_DX: node.RxnFX[combo.name] += quad_F[12, 0]
+                        if held_DY: node.RxnFY[combo.name] += quad_F[13, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += quad_F[14, 0]
+                        if held_RX: node.RxnMX[combo.name] += quad_F[15, 0]
+                        if held_RY: node.RxnMY[combo.name] += quad_F[16, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += quad_F[17, 0]
 
                     elif quad.n_node == node:
 
@@ -804,12 +812,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
                         quad_F = quad.F(combo.name)
                 
-                        if node.support_DX: node.RxnFX[combo.name] += quad_F[18, 0]
-                        if node.support_DY: node.RxnFY[combo.name] += quad_F[19, 0]
-                        if node.support_DZ: node.RxnFZ[combo.name] += quad_F[20, 0]
-                        if node.support_RX: node.RxnMX[combo.name] += quad_F[21, 0]
-                        if node.support_RY: node.RxnMY[combo.name] += quad_F[22, 0]
-                        if node.support_RZ: node.RxnMZ[combo.name] += quad_F[23, 0]
+                        if held_DX: node.RxnFX[combo.name] += quad_F[18, 0]
+                        if held_DY: node.RxnFY[combo.name] += quad_F[19, 0]
+                        if held_DZ: node.RxnFZ[combo.name] += quad_F[20, 0]
+                        if held_RX: node.RxnMX[combo.name] += quad_F[21, 0]
+                        if held_RY: node.RxnMY[combo.name] += quad_F[22, 0]
+                        if held_RZ: node.RxnMZ[combo.name] += quad_F[23, 0]
                 
                 # Sum the joint loads applied to the node
                 for load in node.NodeLoads:
@@ -818,41 +826,42 @@ def _calc_reactions(model, log=False, combo_tags=None):
                         
                         if load[2] == case:
 
-                            if load[0] == 'FX' and node.support_DX:
+                            if load[0] == 'FX' and held_DX:
                                 node.RxnFX[combo.name] -= load[1]*factor
-                            elif load[0] == 'FY' and node.support_DY:
+                            elif load[0] == 'FY' and held_DY:
                                 node.RxnFY[combo.name] -= load[1]*factor
-                            elif load[0] == 'FZ' and node.support_DZ:
+                            elif load[0] == 'FZ' and held_DZ:
                                 node.RxnFZ[combo.name] -= load[1]*factor
-                            elif load[0] == 'MX' and node.support_RX:
+                            elif load[0] == 'MX' and held_RX:
                                 node.RxnMX[combo.name] -= load[1]*factor
-                            elif load[0] == 'MY' and node.support_RY:
+                            elif load[0] == 'MY' and held_RY:
                                 node.RxnMY[combo.name] -= load[1]*factor
-                            elif load[0] == 'MZ' and node.support_RZ:
+                            elif load[0] == 'MZ' and held_RZ:
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
-            # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2].get(combo.name, True) == True:
+            # Calculate any reactions due to active spring supports at the node (where the node is held,
+            # the forces summed above include them)
+            if node.spring_DX[0] != None and not held_DX and node.spring_DX[2].get(combo.name, True) == True:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2].get(combo.name, True) == True:
+            if node.spring_DY[0] != None and not held_DY and node.spring_DY[2].get(combo.name, True) == True:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2].get(combo.name, True) == True:
+            if node.spring_DZ[0] != None and not held_DZ and node.spring_DZ[2].get(combo.name, True) == True:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2].get(combo.name, True) == True:
+            if node.spring_RX[0] != None and not held_RX and node.spring_RX[2].get(combo.name, True) == True:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2].get(combo.name, True) == True:
+            if node.spring_RY[0] != None and not held_RY and node.spring_RY[2].get(combo.name, True) == True:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2].get(combo.name, True) == True:
+            if node.spring_RZ[0] != None and not held_RZ and node.spring_RZ[2].get(combo.name, True) == True:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
-- 
2.43.0


From c9de5c7c39934ca5870fd0edc2417429caf527b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 48/56] fix: draw loads with a factored value of zero instead
 of dividing by zero

---
 PyNite/Rendering.py     | 10 +++++++---
 PyNite/Visualization.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index a769ade..ac47a1d 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -751,7 +751,7 @@ class Renderer:
 
         # Create point loads at intervals roughly equal to 75% of the load's largest length
         # Add text labels to the first and last load arrow
-        if load_length > 0:
+        if load_length > 0 and max(abs(length1), abs(length2)) > 0:
             num_steps = int(round(0.75 * load_length/max(abs(length1), abs(length2)), 0))
         else:
             num_steps = 0
@@ -987,7 +987,8 @@ class Renderer:
     def plot_loads(self):
       
         # Get the maximum load magnitudes that will be used to normalize the display scale
-        max_pt_load, max_moment, max_dist_load, max_area_load = self._calc_max_loads()
+        # (a kind of load that has no value other than zero isn't scaled)
+        max_pt_load, max_moment, max_dist_load, max_area_load = [max_load or 1 for max_load in self._calc_max_loads()]
         
         # Display the requested load combination, or 'Combo 1' if no load combo or case has been
         # specified
@@ -1045,7 +1046,10 @@ class Renderer:
             
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     load_value = load[1]*load_factors[load[3]]
-                    sign = load_value/abs(load_value)
+                    if load_value != 0:
+                        sign = load_value/abs(load_value)
+                    else:
+                        sign = 1
             
                     # Calculate the load's location in 3D space
                     x = load[2]
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 7b813cb..c42b774 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1230,7 +1230,7 @@ class VisDistLoad():
       
         # Create point loads at intervals roughly equal to 75% of the load's largest length (magnitude)
         # Add text labels to the first and last load arrow
-        if loadLength > 0:
+        if loadLength > 0 and max(abs(length1), abs(length2)) > 0:
             num_steps = int(round(0.75*loadLength/max(abs(length1), abs(length2)), 0))
         else:
             num_steps = 0
@@ -1594,7 +1594,8 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
     polygon_polydata = vtk.vtkPolyData()
     
     # Get the maximum load magnitudes that will be used to normalize the display scale
-    max_pt_load, max_moment, max_dist_load, max_area_load = _MaxLoads(model, combo_name, case)
+    # (a kind of load that has no value other than zero isn't scaled)
+    max_pt_load, max_moment, max_dist_load, max_area_load = [max_load or 1 for max_load in _MaxLoads(model, combo_name, case)]
     
     # Display the requested load combination, or 'Combo 1' if no load combo or case has been
     # specified
@@ -1656,7 +1657,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[3]]
-                sign = load_value/abs(load_value)
+                if load_value != 0:
+                    sign = load_value/abs(load_value)
+                else:
+                    sign = 1
           
                 # Calculate the load's location in 3D space
                 x = load[2]
-- 
2.43.0


From 2006a9edf9439f1df1e34a422c15ec7effe1ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 49/56] fix: leave out labels in pyvista drawings when
 show_labels is off

---
 PyNite/Rendering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index ac47a1d..bf86d64 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -255,7 +255,8 @@ class Renderer:
         label_points = [[node.X, node.Y, node.Z] for node in self.model.nodes.values()]
         labels = [node.name for node in self.model.nodes.values()]
         
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
+        if self.show_labels:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
 
         # Check if there are springs in the model
         if self.model.springs:
@@ -265,7 +266,8 @@ class Renderer:
                 self.plot_spring(spring, self.annotation_size, 'grey')
             
             # Render the spring labels
-            self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
+            if self.show_labels:
+                self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
         
         # Render the members
         for member in self.model.members.values():
@@ -274,7 +276,8 @@ class Renderer:
         # Render the member labels
         label_points = [[(member.i_node.X+member.j_node.X)/2, (member.i_node.Y+member.j_node.Y)/2, (member.i_node.Z+member.j_node.Z)/2] for member in self.model.members.values()]
         labels = [member.name for member in self.model.members.values()]
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
+        if self.show_labels:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
 
         # Render the deformed shape if requested
         if self.deformed_shape == True:
@@ -300,7 +303,8 @@ class Renderer:
             self.plot_loads()
 
             # Plot the load labels
-            self.plotter.add_point_labels(self._load_label_points, self._load_labels, bold=False, text_color='green', show_points=False, shape=None, render_points_as_spheres=False)
+            if self.show_labels:
+                self.plotter.add_point_labels(self._load_label_points, self._load_labels, bold=False, text_color='green', show_points=False, shape=None, render_points_as_spheres=False)
         
         # Render the plates and quads, if present
         if self.model.quads or self.model.plates:
-- 
2.43.0


From 51953b117b6a931b80851c2cc84b653f64807a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 50/56] fix: don't draw the deformed shape of inactive members

---
 PyNite/Rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index bf86d64..464d6ff 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -629,8 +629,8 @@ class Renderer:
   
     def plot_deformed_member(self, member, scale_factor):
         
-        # Determine if this member is active for each load combination
-        if member.active:
+        # Determine if this member is active for the load combination
+        if member.active[self.combo_name]:
         
             L = member.L() # Member length
             T = member.T() # Member local transformation matrix
-- 
2.43.0


From ee2d536d909164b2d7a8d972ccb2e00e07aad5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 51/56] fix: draw factored pressures in the direction they act

---
 PyNite/Rendering.py     | 6 +++---
 PyNite/Visualization.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 464d6ff..813be21 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1132,10 +1132,10 @@ class Renderer:
                     load_value = load[0]*load_factors[load[1]]
                     
                     # Find the sign for this load. Intercept any divide by zero errors
-                    if load[0] == 0:
+                    if load_value == 0:
                         sign = 1
                     else:
-                        sign = abs(load[0])/load[0]
+                        sign = abs(load_value)/load_value
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
@@ -1144,7 +1144,7 @@ class Renderer:
                     position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
             
                     # Create an area load and get its data
-                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
+                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, abs(load_value)/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
 
 def _PerpVector(v):
     '''
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index c42b774..6fd3479 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1750,10 +1750,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 load_value = load[0]*load_factors[load[1]]
                 
                 # Find the sign for this load. Intercept any divide by zero errors
-                if load[0] == 0:
+                if load_value == 0:
                     sign = 1
                 else:
-                    sign = abs(load[0])/load[0]
+                    sign = abs(load_value)/load_value
           
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
-- 
2.43.0


From bf255bf9156545b11a0fb86207cfb6c4b618aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 52/56] fix: find the greatest pressure of a load case in
 models without members too

---
 PyNite/Rendering.py     | 16 ++++++++--------
 PyNite/Visualization.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 813be21..e76d6f6 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -963,16 +963,16 @@ class Renderer:
                         if abs(load[2]) > max_dist_load:
                             max_dist_load = abs(load[2])
                 
-                # Step through each plate
-                for plate in self.model.plates.values():
+            # Step through each plate
+            for plate in self.model.plates.values():
             
-                    # Step through each plate load
-                    for load in plate.pressures:
+                # Step through each plate load
+                for load in plate.pressures:
             
-                        if load[1] == self.case:
-                
-                            if abs(load[0]) > max_area_load:
-                                max_area_load = abs(load[0])
+                    if load[1] == self.case:
+            
+                        if abs(load[0]) > max_area_load:
+                            max_area_load = abs(load[0])
             
             # Step through each quad
             for quad in self.model.quads.values():
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 6fd3479..37af802 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -2102,16 +2102,16 @@ def _MaxLoads(model, combo_name=None, case=None):
                     if abs(load[2]) > max_dist_load:
                         max_dist_load = abs(load[2])
             
-            # Step through each plate
-            for plate in model.plates.values():
+        # Step through each plate
+        for plate in model.plates.values():
           
-                # Step through each plate load
-                for load in plate.pressures:
+            # Step through each plate load
+            for load in plate.pressures:
           
-                    if load[1] == case:
-            
-                        if abs(load[0]) > max_area_load:
-                            max_area_load = abs(load[0])
+                if load[1] == case:
+        
+                    if abs(load[0]) > max_area_load:
+                        max_area_load = abs(load[0])
           
         # Step through each quad
         for quad in model.quads.values():
-- 
2.43.0


From 7a458e1a03fa66afc6416c9ac85d6a35be963d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 53/56] fix: colour VTK contours with the values of the
 selected combination

---
 PyNite/Visualization.py | 73 +++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 37af802..d16e0f3 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1453,62 +1453,57 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
       
             # Determine which stress result has been requested by the user
             if stress_type == 'dz':
-                # Internally PyNite defines the nodes for a rectangular element in the order (i, j, m, n),
-                # while it defines the nodes for a quadrilateral element in the order (m, n, i, j)
-                if element.type == 'Rect':
-                    i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
-                else:
-                    i, j, m, n = element.d(combo_name)[[14, 20, 2, 8], :]
+                i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
                 element.i_node.contour.append(i)
                 element.j_node.contour.append(j)
                 element.m_node.contour.append(m)
                 element.n_node.contour.append(n)
             elif stress_type == 'Mx':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'My':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Mxy':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[2])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[2])
             elif stress_type == 'Qx':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Qy':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Sx':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Sy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Txy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[2])                 
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[2])                 
       
         # Average the values at each node to obtain a smoothed contour
         for node in model.nodes.values():
             # Prevent divide by zero errors for nodes with no contour values
             if node.contour != []:
-                node.contour = sum(node.contour)/len(node.contour)
+                node.contour = array(sum(node.contour)/len(node.contour)).item()
 
 def _DeformedShape(model, vtk_renderer, scale_factor, annotation_size, combo_name, render_nodes=True, theme='default'):
     '''
-- 
2.43.0


From 2a1d9152c74c0218527d00a642f7033918cbff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 54/56] fix: clear the whole previous VTK drawing before
 drawing anew

---
 PyNite/Visualization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index d16e0f3..9154f41 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -248,8 +248,7 @@ class Renderer():
         renderer = self.renderer
 
         # Clear out all the old actors from any previous renderings
-        for actor in renderer.GetActors():
-            renderer.RemoveActor(actor)
+        renderer.RemoveAllViewProps()
 
         # Add actors for each spring
         for vis_spring in vis_springs:
-- 
2.43.0


From 07d5245ec4653a5c550097741244cb55696c65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 55/56] fix: leave out the labels of loads in VTK drawings when
 labels are off

---
 PyNite/Visualization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 9154f41..ab1c391 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -341,7 +341,7 @@ class Renderer():
 
         # Render the loads if requested
         if (self.combo_name != None or self.case != None) and self.render_loads != False:
-            _RenderLoads(self.model, renderer, self.annotation_size, self.combo_name, self.case, self.theme)
+            _RenderLoads(self.model, renderer, self.annotation_size, self.combo_name, self.case, self.theme, self.labels)
         
         # Render the plates and quads, if present
         if self.model.quads or self.model.plates:
@@ -1573,7 +1573,7 @@ def _DeformedShape(model, vtk_renderer, scale_factor, annotation_size, combo_nam
     # Add the actor to the renderer
     vtk_renderer.AddActor(actor)
 
-def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='default'):
+def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='default', labels=True):
 
     # Create an append filter to store all the polydata in. This will allow us to use fewer actors to
     # display all the loads, which will greatly improve rendering speed as the user interacts. VTK
@@ -1631,7 +1631,7 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                     ptLoad = VisMoment((node.X, node.Y, node.Z), (0, 0, 1*sign), abs(load_value)/max_moment*2.5*annotation_size, '{:.3g}'.format(load_value), annotation_size)
                 
                 polydata.AddInputData(ptLoad.polydata.GetOutput())
-                renderer.AddActor(ptLoad.lblActor)
+                if labels: renderer.AddActor(ptLoad.lblActor)
                 ptLoad.lblActor.SetCamera(renderer.GetActiveCamera())
     
     # Step through each member
@@ -1687,7 +1687,7 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                     ptLoad = VisMoment(position, [0, 0, 1*sign], abs(load_value)/max_moment*2.5*annotation_size, '{:.3g}'.format(load_value), annotation_size)
             
                 polydata.AddInputData(ptLoad.polydata.GetOutput())
-                renderer.AddActor(ptLoad.lblActor)
+                if labels: renderer.AddActor(ptLoad.lblActor)
                 ptLoad.lblActor.SetCamera(renderer.GetActiveCamera())
     
         # Step through each member distributed load
@@ -1721,8 +1721,8 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                     distLoad = VisDistLoad(position1, position2, [0, 0, 1], w1/max_dist_load*5*annotation_size, w2/max_dist_load*5*annotation_size, '{:.3g}'.format(w1), '{:.3g}'.format(w2), annotation_size)
                
                 polydata.AddInputData(distLoad.polydata.GetOutput())
-                renderer.AddActor(distLoad.lblActors[0])
-                renderer.AddActor(distLoad.lblActors[1])
+                if labels: renderer.AddActor(distLoad.lblActors[0])
+                if labels: renderer.AddActor(distLoad.lblActors[1])
                 distLoad.lblActors[0].SetCamera(renderer.GetActiveCamera())
                 distLoad.lblActors[1].SetCamera(renderer.GetActiveCamera())   
     
@@ -1781,7 +1781,7 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 polygons.InsertNextCell(polygon)
                 
                 # Add the load label
-                renderer.AddActor(area_load.label_actor)
+                if labels: renderer.AddActor(area_load.label_actor)
           
                 # Set the text to follow the camera as the user interacts
                 area_load.label_actor.SetCamera(renderer.GetActiveCamera())
-- 
2.43.0


From b2293472b4b73b38ec91e9318e67395c5a5a6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 56/56] fix: don't report directions held by an enforced
 displacement as unstable

---
 PyNite/Analysis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 059a619..5324832 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -103,19 +103,19 @@ def _check_stability(model, K):
         # Determine which degree of freedom this term belongs to
         dof = i%6
 
-        # Check to see if this degree of freedom is supported
+        # Check to see if this degree of freedom is supported, or held by an enforced displacement
         if dof == 0:
-            supported = node.support_DX
+            supported = node.support_DX or node.EnforcedDX is not None
         elif dof == 1:
-            supported = node.support_DY
+            supported = node.support_DY or node.EnforcedDY is not None
         elif dof == 2:
-            supported = node.support_DZ
+            supported = node.support_DZ or node.EnforcedDZ is not None
         elif dof == 3:
-            supported = node.support_RX
+            supported = node.support_RX or node.EnforcedRX is not None
         elif dof == 4:
-            supported = node.support_RY
+            supported = node.support_RY or node.EnforcedRY is not None
         elif dof == 5:
-            supported = node.support_RZ
+            supported = node.support_RZ or node.EnforcedRZ is not None
 
         # Check if the degree of freedom on this diagonal is unstable
         if isclose(K[i, i], 0) and not supported:
-- 
2.43.0

