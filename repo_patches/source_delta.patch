From 9e7f09ef25015f447145ae2f491aff161ea50427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 001/173] fix: Container.append always finds a free name for a
 duplicate tag

---
 trunk/SUAVE/Core/Container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index b15b2ef..a0290c1 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -13,7 +13,6 @@
 
 from .Data     import Data
 from warnings import warn
-import random
 
 import string
 chars = string.punctuation + string.whitespace
@@ -109,9 +108,10 @@ class Container(Data):
             n_comps = string_of_keys.count(val.tag)
             val.tag = tag + str(n_comps+1)
             
-            # Check again, because theres an outside chance that its duplicate again. Then assign a random
-            if val.tag in keys:
-                val.tag = tag + str(n_comps+random.randint(0,1000))
+            # Check again, because theres an outside chance that its duplicate again. Then count up to a free name
+            while val.tag in keys:
+                n_comps += 1
+                val.tag  = tag + str(n_comps+1)
         
         Data.append(self,val)
         
-- 
2.43.0


From 0fac4cbbf36396e6b795b15608247b54eef56145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 002/173] fix: Container.extend and ContainerOrdered.extend
 accept lists and tuples

---
 trunk/SUAVE/Core/Container.py        | 2 +-
 trunk/SUAVE/Core/ContainerOrdered.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index a0290c1..119e23e 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -134,7 +134,7 @@ class Container(Data):
             N/A
         """         
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
diff --git a/trunk/SUAVE/Core/ContainerOrdered.py b/trunk/SUAVE/Core/ContainerOrdered.py
index 706c4f6..12b3a6e 100644
--- a/trunk/SUAVE/Core/ContainerOrdered.py
+++ b/trunk/SUAVE/Core/ContainerOrdered.py
@@ -110,7 +110,7 @@ class ContainerOrdered(DataOrdered):
             N/A
             """          
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
-- 
2.43.0


From dae9e2c59c3949181ce5c87d91ac0bad1e0b9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 003/173] fix: DataOrdered.append refuses a duplicate key
 instead of overwriting the entry

---
 trunk/SUAVE/Core/DataOrdered.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 92705bb..5fb1ca5 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -161,7 +161,7 @@ class DataOrdered(OrderedDict):
         if key is None: key = value.tag
         key = key.translate(t_table)
         if key is None: key = value.tag
-        if key in self: raise KeyError('key "%s" already exists' % key)
+        if self.has_key(key): raise KeyError('key "%s" already exists' % key)
         self.__setattr__(key,value)    
 
     def __defaults__(self):
-- 
2.43.0


From c1a84e4d9f6f64055742344b260e32bb9071258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 004/173] fix: wing segments and rotor airfoils with duplicate
 tags get a free name

---
 trunk/SUAVE/Components/Energy/Converters/Rotor.py | 9 ++++++---
 trunk/SUAVE/Components/Wings/Main_Wing.py         | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Rotor.py b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
index 10d7651..3249c4a 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Rotor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
@@ -127,11 +127,14 @@ class Rotor(Energy_Component):
 
 
         # See if the component exists, if it does modify the name
-        keys = self.keys()
+        keys = self.Airfoils.keys()
         if airfoil.tag in keys:
-            string_of_keys = "".join(self.keys())
+            string_of_keys = "".join(keys)
             n_comps = string_of_keys.count(airfoil.tag)
-            airfoil.tag = airfoil.tag + str(n_comps+1)    
+            tag     = airfoil.tag
+            while airfoil.tag in keys:
+                n_comps += 1
+                airfoil.tag = tag + str(n_comps)
             
         # store data
         self.Airfoils.append(airfoil)
diff --git a/trunk/SUAVE/Components/Wings/Main_Wing.py b/trunk/SUAVE/Components/Wings/Main_Wing.py
index 440d3d4..78d75ff 100644
--- a/trunk/SUAVE/Components/Wings/Main_Wing.py
+++ b/trunk/SUAVE/Components/Wings/Main_Wing.py
@@ -139,7 +139,10 @@ class Segment_Container(ContainerOrdered):
         if val.tag in keys:
             string_of_keys = "".join(self.keys())
             n_comps = string_of_keys.count(val.tag)
-            val.tag = val.tag + str(n_comps+1)    
+            tag     = val.tag
+            while val.tag in keys:
+                n_comps += 1
+                val.tag  = tag + str(n_comps)
             
         ContainerOrdered.append(self,val)
 
-- 
2.43.0


From 6874956ba2c14d0a6c6839709c1d2f6d1888853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 005/173] fix: copies and pickles of data do not bring back
 deleted defaults

---
 trunk/SUAVE/Core/Data.py        | 45 ++++++++++++++++++++++++++++++++-
 trunk/SUAVE/Core/DataOrdered.py |  1 +
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 4b8213e..15e14d9 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -851,4 +851,47 @@ class Data(dict):
         # do the update!
         do_operation(self,other,result)    
     
-        return result
\ No newline at end of file
+        return result
+
+    def __reduce__(self):
+        """ Makes copies and pickles hold exactly the entries of the original
+
+            Assumptions:
+            N/A
+
+            Source:
+            N/A
+
+            Inputs:
+            N/A
+
+            Outputs:
+            N/A
+
+            Properties Used:
+            N/A    
+        """        
+        return (_reconstructor, (self.__class__,), objgetattrib(self,'__dict__'), None, iter(dict.items(self)))
+
+# for rebuilding without the defaults that were deleted from the original
+def _reconstructor(klass):
+    """ For rebuilding data in copies and pickles
+
+        Assumptions:
+        N/A
+
+        Source:
+        N/A
+
+        Inputs:
+        klass
+
+        Outputs:
+        an empty instance of klass
+
+        Properties Used:
+        N/A    
+    """        
+    self = klass.__new__(klass)
+    dict.clear(self)
+    return self
diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 5fb1ca5..7e993a6 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -979,5 +979,6 @@ def _reconstructor(klass,items):
         N/A    
     """        
     self = DataOrdered.__new__(klass)
+    self.clear() # the items are complete, defaults that were deleted stay deleted
     DataOrdered.__init__(self,items)
     return self
\ No newline at end of file
-- 
2.43.0


From ce954350cc116ebc773e567d4922c5ecc4c12fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 006/173] fix: pulling the base into a config does not share
 arrays between them

---
 trunk/SUAVE/Core/Diffed_Data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Core/Diffed_Data.py b/trunk/SUAVE/Core/Diffed_Data.py
index 5db9c43..32bb44d 100644
--- a/trunk/SUAVE/Core/Diffed_Data.py
+++ b/trunk/SUAVE/Core/Diffed_Data.py
@@ -96,7 +96,7 @@ class Diffed_Data(Data):
             N/A    
         """          
         delta = diff(self,self._base)
-        self._diff = delta
+        self._diff = deepcopy(delta)
         
     def pull_base(self):
         """ Updates the differences
@@ -118,8 +118,9 @@ class Diffed_Data(Data):
         """          
         try: self._base.pull_base()
         except AttributeError: pass
-        self.update(self._base)
-        self.update(self._diff)
+        # copies, so that editing the config in place never reaches the base or another config
+        self.update(deepcopy(self._base))
+        self.update(deepcopy(self._diff))
     
     def __str__(self,indent=''):
         """ This function is used for printing the class.
-- 
2.43.0


From 99b4a8b716074f9247e13cfd47ab6f822374c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 007/173] fix: storing config differences does not blank
 entries that only the base has

---
 trunk/SUAVE/Core/Diffed_Data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Core/Diffed_Data.py b/trunk/SUAVE/Core/Diffed_Data.py
index 32bb44d..d988d6c 100644
--- a/trunk/SUAVE/Core/Diffed_Data.py
+++ b/trunk/SUAVE/Core/Diffed_Data.py
@@ -317,6 +317,8 @@ def diff(A,B):
     result.clear()
 
     for key in keys:
+        # an entry that A does not have yet is no deviation of A
+        if key not in A.keys(): continue
         va = A.get(key,None)
         vb = B.get(key,None)
         if isinstance(va,Data) and isinstance(vb,Data):
-- 
2.43.0


From 55a372ddf612d97dbd0c69bce06a38314c634690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 008/173] fix: multiplying by a kept unit does not turn it into
 a plain number

---
 trunk/SUAVE/Core/Units.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Core/Units.py b/trunk/SUAVE/Core/Units.py
index 20d29d6..d76db66 100644
--- a/trunk/SUAVE/Core/Units.py
+++ b/trunk/SUAVE/Core/Units.py
@@ -13,6 +13,8 @@
 #   Imports
 # ------------------------------------------------------------
 
+from copy import copy
+
 from SUAVE.Plugins.pint import UnitRegistry
 from SUAVE.Plugins.pint.quantity import _Quantity
 
@@ -46,9 +48,11 @@ def __rmul__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__rmul__(self,other)
     else:
-        self._magnitude = other
-        self.ito_base_units()
-        return self.magnitude
+        # work on a copy, so that a unit that is kept for later use stays that unit
+        result = copy(self)
+        result._magnitude = other
+        result.ito_base_units()
+        return result.magnitude
 
 # division converts out of base unit
 ## @ingroup Core
@@ -73,11 +77,13 @@ def __rdiv__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__truediv__(self,other)
     else:
-        units = str(self._units)
-        self.ito_base_units()
-        self._magnitude = other
-        self.ito(units)
-        return self.magnitude
+        # work on a copy, so that a unit that is kept for later use stays that unit
+        result = copy(self)
+        units = str(result._units)
+        result.ito_base_units()
+        result._magnitude = other
+        result.ito(units)
+        return result.magnitude
 
 # yay monkey patching!
 Units.Quantity.__mul__      = __rmul__
-- 
2.43.0


From 8279eb2e385ba0e776a2870c387bb571dcc04b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 009/173] fix: archive stores every kind of numpy scalar,
 tuples and lists of arrays

---
 trunk/SUAVE/Input_Output/SUAVE/archive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SUAVE/archive.py b/trunk/SUAVE/Input_Output/SUAVE/archive.py
index bd4cfb3..a6c3c34 100644
--- a/trunk/SUAVE/Input_Output/SUAVE/archive.py
+++ b/trunk/SUAVE/Input_Output/SUAVE/archive.py
@@ -105,7 +105,7 @@ def build_dict_r(v):
     tv = type(v) # Get value type
     
     # Transform to basic python data type as appropriate
-    if (tv == np.ndarray) or (tv == np.float64):
+    if isinstance(v,(np.ndarray,np.generic)): # arrays and all numpy scalars
         ret = v.tolist()
     elif (tv == str) or (tv == bool):
         ret = v
@@ -115,8 +115,8 @@ def build_dict_r(v):
         ret = v
     elif tv == types.FunctionType: # Functions cannot be stored
         ret = None        
-    elif tv == list:
-        ret = v    
+    elif tv == list or tv == tuple:
+        ret = [build_dict_r(i) for i in v]
 
     else:
         # Assume other data types are SUAVE data types and check
-- 
2.43.0


From 9ca319d2a6213457c136069fe08a35eaebda78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 010/173] fix: D3JS Tree_Element.append adds the given element

---
 trunk/SUAVE/Input_Output/D3JS/Tree_Element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py b/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
index af6f8f5..a409331 100644
--- a/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
+++ b/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
@@ -64,4 +64,4 @@ class Tree_Element(DataOrdered):
         """           
         if not 'children' in self:
             self.children = []
-        self.children.append(e)
\ No newline at end of file
+        self.children.append(element)
\ No newline at end of file
-- 
2.43.0


From bb7d3ed7a343b7a9fd423f84e2f6afce4dfc60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 011/173] fix: membership tests on ordered data see the stored
 entries

---
 trunk/SUAVE/Core/DataOrdered.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 7e993a6..d6e0069 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -832,6 +832,26 @@ class DataOrdered(OrderedDict):
         """             
         return k in self.__dict__
 
+    def __contains__(self,k):
+        """ Checks if the dictionary has the key, k, for use with "in"
+            
+            Assumptions:
+            N/A
+    
+            Source:
+            N/A
+    
+            Inputs:
+            k
+    
+            Outputs:
+            N/A
+    
+            Properties Used:
+            N/A    
+        """             
+        return self.has_key(k)
+
     # allow override of iterators
     __iter = __iter__
     __getitem2 = OrderedDict.__getattribute__ 
-- 
2.43.0


From 624853c1f5518b7ad56a60ea71c40fb5eb8db4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 012/173] fix: a failed evaluation does not leave its partial
 results cached under the previous inputs

---
 trunk/SUAVE/Optimization/Nexus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 11b6cf1..d7e5aba 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -127,6 +127,9 @@ class Nexus(Data):
         
         self.evaluation_count += 1
         
+        # The results no longer belong to the cached inputs, also if a step fails
+        self.last_inputs = None
+        
         for key,step in nexus.procedure.items():
             if hasattr(step,'evaluate'):
                 self = step.evaluate(nexus)
-- 
2.43.0


From e63eaaf0c6c93350ec40bbcc37a3139c01d60ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 013/173] fix: Nexus compares scaled constraint values with
 equally scaled bounds

---
 trunk/SUAVE/Optimization/Nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index d7e5aba..56eadc3 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -211,7 +211,7 @@ class Nexus(Data):
             constraint_values = help_fun.get_values(self,iqconstraints,aliases)          
             
             # scale bounds 
-            scaled_bnd_constraints  = help_fun.scale_const_bnds(iqconstraints)
+            scaled_bnd_constraints  = help_fun.scale_const_values(iqconstraints,help_fun.scale_const_bnds(iqconstraints))
             
             # scale constaits 
             scaled_constraints = help_fun.scale_const_values(iqconstraints,constraint_values)
@@ -261,7 +261,7 @@ class Nexus(Data):
             scaled_constraints = []
         else:
             constraint_values  = help_fun.get_values(self,eqconstraints,aliases)
-            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_bnds(eqconstraints)
+            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_values(eqconstraints,help_fun.scale_const_bnds(eqconstraints))
 
         return scaled_constraints   
         
-- 
2.43.0


From 2d33cddc8814c920cbabf749a5d32d2e58261de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 014/173] fix: differential evolution gets every constraint,
 not the last one repeatedly

---
 trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
index 6801f1a..c4d5d8d 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
@@ -82,7 +82,7 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
         aliases            = problem.optimization_problem.aliases
         for ii in range(0,len(con)):
             de_constraint  = con[[ii]] 
-            def fun(x):
+            def fun(x,de_constraint=de_constraint):
                 problem.evaluate(x)
                 constraint_val = help_fun.get_values(problem,de_constraint,aliases)
                 return np.atleast_1d(constraint_val)
-- 
2.43.0


From ef37abf4a4a9c5a4aa4723d968211f7d61aee361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 015/173] fix: trust region constraint minimization stays
 within the trust region bounds

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 5593ee5..3d76ba2 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -287,7 +287,7 @@ class Trust_Region_Optimization(Data):
                         gOpt_corr[ii] = new_outputs[1][ii]
                 elif self.optimizer == 'SLSQP':
                     bounds = []
-                    for lb, ub in zip(con_low_edge, con_up_edge):
+                    for lb, ub in zip(tr.lower_bound, tr.upper_bound):
                         bounds.append((lb,ub)) 
                         
                     res = minimize(self.evaluate_constraints, x, \
-- 
2.43.0


From 62ec363174861cf7c1f39a23e9042a7866f53db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 016/173] fix: SLSQP inside the trust region and additive
 methods compares scaled constraints with scaled bounds

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py   |  5 +++--
 .../Optimization/Package_Setups/additive_setup.py      | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 3d76ba2..6f54440 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -760,6 +760,7 @@ class Trust_Region_Optimization(Data):
     
     def initialize_SLSQP_constraints(self,con,problem,corrections,tr):
         # Initialize variables according to SLSQP requirements
+        edge = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         slsqp_con_list = []
         for i,c in enumerate(con):
             c_dict = {}
@@ -771,9 +772,9 @@ class Trust_Region_Optimization(Data):
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,-1,edge[i],problem,corrections,tr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,1,edge[i],problem,corrections,tr]
             slsqp_con_list.append(c_dict)
         
         return slsqp_con_list
diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index eebe2af..c2af281 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -695,6 +695,7 @@ class Additive_Solver():
     
     def initialize_opt_vals_SLSQP(self,obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,cons_surr):
         # Initialize variables according to SLSQP requirements
+        edge = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         x0 = x_eval
         slsqp_con_list = []
         for i,c in enumerate(con):
@@ -707,15 +708,16 @@ class Additive_Solver():
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,-1,edge[i],problem,cons_surr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,1,edge[i],problem,cons_surr]
             slsqp_con_list.append(c_dict)
         
         return x0,slsqp_con_list
     
     def initialize_opt_vals_SHGO(self,obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,problem,cons_surr):
         # Initialize variables according to SLSQP requirements
+        edge = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         bound_list = []
         for i in range(len(x_low_bound)):
             bound_list.append((x_low_bound[i],x_up_bound[i]))
@@ -730,9 +732,9 @@ class Additive_Solver():
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,-1,edge[i],problem,cons_surr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,1,edge[i],problem,cons_surr]
             slsqp_con_list.append(c_dict)
         
         return bound_list,slsqp_con_list    
-- 
2.43.0


From 377a2500102017c59e71db0d019e1469912c6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 017/173] fix: the optimization log divides inputs by their
 scale, not by their upper bound

---
 trunk/SUAVE/Optimization/write_optimization_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/write_optimization_outputs.py b/trunk/SUAVE/Optimization/write_optimization_outputs.py
index e14b8a9..a81a229 100644
--- a/trunk/SUAVE/Optimization/write_optimization_outputs.py
+++ b/trunk/SUAVE/Optimization/write_optimization_outputs.py
@@ -44,7 +44,7 @@ def write_optimization_outputs(nexus, filename):
     
     #inputs
     unscaled_inputs    = nexus.optimization_problem.inputs[:,1] #use optimization problem inputs here
-    input_scaling      = nexus.optimization_problem.inputs[:,3]
+    input_scaling      = nexus.optimization_problem.inputs[:,-2]
     scaled_inputs      = unscaled_inputs/input_scaling
     
     #objective
-- 
2.43.0


From 95d539298c19447f842cdc4bf461c3f62597456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 018/173] fix: optimization aliases accept an asterisk at any
 place and more than once

---
 trunk/SUAVE/Optimization/helper_functions.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/trunk/SUAVE/Optimization/helper_functions.py b/trunk/SUAVE/Optimization/helper_functions.py
index 68b6f4e..6f21059 100644
--- a/trunk/SUAVE/Optimization/helper_functions.py
+++ b/trunk/SUAVE/Optimization/helper_functions.py
@@ -104,19 +104,19 @@ def find_a_star(dictionary,string):
     Properties Used:
     N/A
     """
-    splitstring = string.split('.')
-    for ii in range(0,len(splitstring)):
-        if '*' in splitstring[ii]:
-            if ii==0:
-                newkeys = dictionary.keys()
-            elif ii !=0:
-                strtoeval = 'dictionary.'+'.'.join(splitstring[0:ii])+'.keys()'
-                newkeys = list(eval(strtoeval))
-            lastindex   = ii
+    # expand one level at a time, so that an asterisk may be anywhere in the string and more than once
+    paths = [[]]
+    for name in string.split('.'):
+        newpaths = []
+        for path in paths:
+            if '*' in name:
+                level = dictionary.deep_get(path) if path else dictionary
+                newpaths.extend([path+[key] for key in level.keys()])
+            else:
+                newpaths.append(path+[name])
+        paths = newpaths
             
-    newstrings = []
-    for ii in range(0,len(newkeys)):
-        newstrings.append('.'.join(splitstring[0:lastindex])+'.'+newkeys[ii]+'.'+'.'.join(splitstring[lastindex+1:]))
+    newstrings = ['.'.join(path) for path in paths]
         
     return newstrings
 
-- 
2.43.0


From 485dc1374e238b94964525438968d1674df7e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 019/173] fix: Analysis.Container.initialize calls items()

---
 trunk/SUAVE/Analyses/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Analysis.py b/trunk/SUAVE/Analyses/Analysis.py
index 7b8dc27..c2a2cea 100644
--- a/trunk/SUAVE/Analyses/Analysis.py
+++ b/trunk/SUAVE/Analyses/Analysis.py
@@ -214,7 +214,7 @@ class Container(ContainerBase):
                 Properties Used:
                 N/A
             """                    
-        for tag,analysis in self.items:
+        for tag,analysis in self.items():
             if hasattr(analysis,'initialize'):
                 analysis.initialize(*args,**kwarg)
     
-- 
2.43.0


From 6ea85448fdad073aab8611d87e7ba375c602dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 020/173] fix: redirection restores folder and streams when a
 push or flush fails, and keeps files that nothing replaces

---
 trunk/SUAVE/Core/redirect.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/trunk/SUAVE/Core/redirect.py b/trunk/SUAVE/Core/redirect.py
index 1e751d4..8f2791d 100644
--- a/trunk/SUAVE/Core/redirect.py
+++ b/trunk/SUAVE/Core/redirect.py
@@ -75,9 +75,10 @@ class output(object):
         sys.stdout, sys.stderr = self._stdout, self._stderr
 
     def __exit__(self, exc_type, exc_value, traceback):
-        self._stdout.flush(); self._stderr.flush()
+        # restore first, flushing a full or closed file may fail
         sys.stdout = self.old_stdout
         sys.stderr = self.old_stderr
+        self._stdout.flush(); self._stderr.flush()
         
         if self._newout:
             self._stdout.close()
@@ -174,9 +175,10 @@ class folder(object):
             new_name = os.path.split(name)[-1]
             new_name = os.path.join(folder,new_name)
             if old_name == new_name: continue
-            if os.path.exists( new_name ): 
-                if force: os.remove( new_name )
-                else: continue
+            if os.path.exists( new_name ):
+                if not force: continue
+                assert os.path.exists(old_name) , 'source file does not exist \n%s' % old_name
+                os.remove( new_name )
             shutil.copy(old_name,new_name)
 
         # make links
@@ -185,9 +187,10 @@ class folder(object):
             new_name = os.path.split(name)[-1]
             new_name = os.path.join(folder,new_name)
             if old_name == new_name: continue
-            if os.path.exists( new_name ): 
-                if force: os.remove( new_name )
-                else: continue
+            if os.path.exists( new_name ):
+                if not force: continue
+                assert os.path.exists(old_name) , 'source file does not exist \n%s' % old_name
+                os.remove( new_name )
             make_link(old_name,new_name)
             
         # change directory
@@ -207,10 +210,13 @@ class folder(object):
         if folder == origin:
             return
         
+        # change directory, before anything can fail
+        os.chdir(origin)
+        
         # move assets
         for name in push:
             
-            old_name = os.path.abspath(name)
+            old_name = os.path.abspath(os.path.join(folder,name))
             name = os.path.split(name)[-1]
             new_name = os.path.join(origin,name)
             
@@ -219,20 +225,20 @@ class folder(object):
                 source = os.path.realpath(old_name)
                 if source == new_name: continue
                 if os.path.exists( new_name ):
-                    if force: os.remove( new_name )
-                    else: continue
+                    if not force: continue
+                    assert os.path.exists(old_name) , 'source file does not exist \n%s' % old_name
+                    os.remove( new_name )
                 make_link(source,new_name)
             
             # moves
             else:
                 if old_name == new_name: continue
                 if os.path.exists( new_name ):
-                    if force: os.remove( new_name )
-                    else: continue
+                    if not force: continue
+                    assert os.path.exists(old_name) , 'source file does not exist \n%s' % old_name
+                    os.remove( new_name )
                 shutil.move(old_name,new_name)
             
-        # change directory
-        os.chdir(origin)
         
   
 def make_link(src,dst):
-- 
2.43.0


From 3eadd9ced424097975b20deb149ad1a2dd79eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 021/173] fix: trust region step reports corrected objective
 and constraints at the step it took

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 6f54440..1609d98 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -241,7 +241,8 @@ class Trust_Region_Optimization(Data):
                 
                 fOpt_corr = res['fun']
                 xOpt_corr = res['x']
-                gOpt_corr = problem.all_constraints(xOpt_corr)
+                gOpt_corr = np.array(self.evaluate_corrected_model(xOpt_corr,problem=problem,corrections=corrections,tr=tr,
+                                                                   return_cons=True)[1])
                 
                 if res['success']:
                     feasible_flag = True
@@ -279,7 +280,7 @@ class Trust_Region_Optimization(Data):
                     con_outputs = opt(opt_prob, sens_type='FD',problem=problem,corrections=corrections,tr=tr,
                                       lb=con_low_edge,ub=con_up_edge)
                     xOpt_corr = con_outputs[1]
-                    new_outputs = self.evaluate_corrected_model(x, problem=problem,corrections=corrections,tr=tr)
+                    new_outputs = self.evaluate_corrected_model(xOpt_corr, problem=problem,corrections=corrections,tr=tr)
         
                     fOpt_corr = new_outputs[0][0]
                     gOpt_corr = np.zeros([1,len(con)])[0]   
@@ -294,7 +295,7 @@ class Trust_Region_Optimization(Data):
                                    args=(problem,corrections,tr,con_low_edge,con_up_edge), bounds=bounds, method='slsqp')                    
                         
                     xOpt_corr = res['x']
-                    new_outputs = self.evaluate_corrected_model(x, problem=problem,corrections=corrections,tr=tr,
+                    new_outputs = self.evaluate_corrected_model(xOpt_corr, problem=problem,corrections=corrections,tr=tr,
                                                                 return_cons=True)
                     
                     fOpt_corr = new_outputs[0][0]
-- 
2.43.0


From 67fb16e33c67432388c90fe9dcee16a0e0cccf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 022/173] fix: additive optimization keeps SLSQP within the
 input bounds and passes it the expected arguments

---
 trunk/SUAVE/Optimization/Package_Setups/additive_setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index c2af281..687d22e 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -145,7 +145,7 @@ class Additive_Solver():
                 
                     x0,constraints = self.initialize_opt_vals_SLSQP(obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
     
-                    res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                    res = minimize(self.evaluate_corrected_model, x0,bounds=list(zip(x_low_bound,x_up_bound)),constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
                     fOpt = res['fun']
                     xOpt = res['x']
                     
@@ -242,7 +242,7 @@ class Additive_Solver():
                         problem.fidelity_level = 1
                         x0,constraints = self.initialize_opt_vals_SLSQP(obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
                         
-                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                        res = minimize(self.evaluate_corrected_model, x0,bounds=list(zip(x_low_bound,x_up_bound)),constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
                         fOpt = res['fun']
                         xOpt = res['x'] 
                     
@@ -285,9 +285,9 @@ class Additive_Solver():
                         
                     elif self.local_optimizer == 'SLSQP':
                     
-                        x0,constraints = self.initialize_opt_vals_SLSQP(opt_prob,obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
+                        x0,constraints = self.initialize_opt_vals_SLSQP(obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
                         
-                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                        res = minimize(self.evaluate_corrected_model, x0,bounds=list(zip(x_low_bound,x_up_bound)),constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
                         fOpt = res['fun']
                         xOpt = res['x']
                         
-- 
2.43.0


From c3797568a52cfbd40e32989e69600c9d75124306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 023/173] fix: Ipopt and surrogate problems use scaled
 constraint edges and keep equality constraints

---
 trunk/SUAVE/Optimization/Package_Setups/ipopt_setup.py | 10 +++++++---
 .../Package_Setups/pyopt_surrogate_setup.py            |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/ipopt_setup.py b/trunk/SUAVE/Optimization/Package_Setups/ipopt_setup.py
index 21bdac1..d49cab4 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/ipopt_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/ipopt_setup.py
@@ -11,6 +11,7 @@
 
 # suave imports
 import numpy as np
+from SUAVE.Optimization import helper_functions as help_fun
 
 # ----------------------------------------------------------------------
 #  Ipopt_Solve
@@ -66,13 +67,16 @@ def Ipopt_Solve(problem):
         flbd[ii] = (bndl[ii]/scl[ii])
         fubd[ii] = (bndu[ii]/scl[ii])
 
-    g_L = np.zeros_like(con)
-    g_U = np.zeros_like(con)
+    g_L = np.zeros(ncon)
+    g_U = np.zeros(ncon)
     
+    # Constraint values are scaled, and so are their edges
+    scaled_constraints = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
+
     # Setup constraints
     for ii in range(0,len(con)):
         name = con[ii][0]
-        edge = con[ii][2]
+        edge = scaled_constraints[ii]
         if con[ii][1]=='<':
             g_L[ii] = -np.inf
             g_U[ii] = edge
diff --git a/trunk/SUAVE/Optimization/Package_Setups/pyopt_surrogate_setup.py b/trunk/SUAVE/Optimization/Package_Setups/pyopt_surrogate_setup.py
index 7298aa7..918ad30 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/pyopt_surrogate_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/pyopt_surrogate_setup.py
@@ -56,7 +56,7 @@ def pyopt_surrogate_setup(surrogate_function, inputs, constraints):
     #constraints
     bnd_constraints    = helper_functions.scale_const_bnds(constraints)
     scaled_constraints = helper_functions.scale_const_values(constraints,bnd_constraints)
-    constraints_out    = scaled_constraints*constraint_units
+    constraints_out    = scaled_constraints
     scaled_inputs      = ini/scl
     x                  = scaled_inputs#*input_units
     
@@ -75,7 +75,7 @@ def pyopt_surrogate_setup(surrogate_function, inputs, constraints):
         elif constraints[j][1]=='>':
             opt_problem.addCon('g%i' % j, lower=edge,upper=np.inf)
       
-        elif constraints[j][1]=='>':
+        elif constraints[j][1]=='=':
             opt_problem.addCon('g%i' % j, type='e', equal=edge)
       
     
-- 
2.43.0


From e1a00d241c6d772a9701a790624b7b3bb283fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 024/173] fix: surrogate optimization reads bounds and scales
 from the columns of the input table

---
 trunk/SUAVE/Optimization/Surrogate_Optimization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Surrogate_Optimization.py b/trunk/SUAVE/Optimization/Surrogate_Optimization.py
index 96545c6..8bbbcb9 100644
--- a/trunk/SUAVE/Optimization/Surrogate_Optimization.py
+++ b/trunk/SUAVE/Optimization/Surrogate_Optimization.py
@@ -85,8 +85,9 @@ class Surrogate_Optimization(Data):
 
         base_inputs       = opt_prob.inputs
         names             = base_inputs[:,0] # Names
-        bnd               = base_inputs[:,2] # Bounds
-        scl               = base_inputs[:,3] # Scaling
+        bndl              = base_inputs[:,2] # Bounds
+        bndu              = base_inputs[:,3] # Bounds
+        scl               = base_inputs[:,4] # Scaling
         base_units        = base_inputs[:,-1]*1.0
         base_inputs[:,-1] = base_units #keeps it from overwriting 
                         
@@ -94,9 +95,9 @@ class Surrogate_Optimization(Data):
             bounds        = []
             scaled_bounds = []
             
-            for i in range(len(bnd)):
-                lb = bnd[i][0] /scl[i]
-                ub = bnd[i][1] /scl[i] 
+            for i in range(len(bndl)):
+                lb = bndl[i] /scl[i]
+                ub = bndu[i] /scl[i] 
         
                 scaled_bounds.append([lb,ub])
                 
@@ -145,7 +146,7 @@ class Surrogate_Optimization(Data):
         
         
         base_inputs       = opt_prob.inputs
-        scl               = base_inputs[:,3] # Scaling
+        scl               = base_inputs[:,4] # Scaling
         base_constraints  = opt_prob.constraints
         base_units        = base_inputs[:,-1]*1.0
         base_inputs[:,-1] = base_units #keeps it from overwriting 
-- 
2.43.0


From a8e29ba77239ff865a4885305d4d6dfe2e33fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 025/173] fix: particle swarm sees a feasible best position
 even when the particle started from a lower infeasible one

---
 .../Package_Setups/particle_swarm_optimization.py        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
index 71d8dd7..978dc35 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
@@ -165,9 +165,12 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
             fx = obj(x[i, :])
             
             # Compare particle's best position (if constraints are satisfied)
-            if fx<fp[i] and is_feasible(x[i, :]):
-                p[i, :] = x[i, :].copy()
-                fp[i] = fx
+            # (the particle's best may be an infeasible starting point, which
+            # must not keep a feasible best of the swarm from being seen)
+            if (fx<fp[i] or fx<fg) and is_feasible(x[i, :]):
+                if fx<fp[i]:
+                    p[i, :] = x[i, :].copy()
+                    fp[i] = fx
 
                 # Compare swarm's best position to current particle's position
                 # (Can only get here if constraints are satisfied)
-- 
2.43.0


From 88c2818ddfc9a3d3a414b53b1ac0067099540913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 026/173] fix: constant temperature atmosphere does not
 overwrite its own table

---
 trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
index a03f457..9a63a15 100644
--- a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
+++ b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
@@ -144,7 +144,6 @@ class Constant_Temperature(Atmospheric):
             z0[ i_inside ]    = self.breaks.altitude[i]
             T0[ i_inside ]    = temperature
             p0[ i_inside ]    = self.breaks.pressure[i]
-            self.breaks.temperature[i+1]=temperature
             alpha[ i_inside ] = -(temperature - temperature)/ \
                                  (self.breaks.altitude[i+1]    - self.breaks.altitude[i])
         
-- 
2.43.0


From 0c4192948e47d78ec14e1a2ea715f049254b5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 027/173] fix: constant temperature atmosphere returns one row
 per altitude

---
 trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
index 9a63a15..8e4d87e 100644
--- a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
+++ b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
@@ -153,7 +153,7 @@ class Constant_Temperature(Atmospheric):
 
         p = p0* np.exp(-1.*dz*grav/(R*T0))
        
-        T   = temperature
+        T   = zeros + temperature
         rho = gas.compute_density(T,p)
         a   = gas.compute_speed_of_sound(T)
         mu  = gas.compute_absolute_viscosity(T)
-- 
2.43.0


From 50864f664389292cca007a0be21588160523dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 028/173] fix: climbs with unknown altitudes start from the
 previous segment when no start altitude is given

---
 trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
index 58b9d41..c5b41a5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
@@ -107,6 +107,11 @@ def update_differentials(segment):
     alt0       = segment.altitude_start
     altf       = segment.altitude_end    
 
+    # check for initial altitude
+    if alt0 is None:
+        if not segment.state.initials: raise AttributeError('initial altitude not set')
+        alt0 = -1.0 * segment.state.initials.conditions.frames.inertial.position_vector[-1,2]
+
     dz = altf - alt0
     vz = -v[:,2,None] # maintain column array
 
@@ -119,7 +124,7 @@ def update_differentials(segment):
     I = I * dt
     
     # Calculate the altitudes
-    alt = np.dot(I,vz) + segment.altitude_start
+    alt = np.dot(I,vz) + alt0
     
     # pack
     t_initial                                       = segment.state.conditions.frames.inertial.time[0,0]
-- 
2.43.0


From f31afa54cf78725a7ff7584e5f9a84274e099d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 029/173] fix: constant acceleration segments report their
 acceleration vector

---
 .../Segments/Cruise/Constant_Acceleration_Constant_Altitude.py   | 1 +
 ...Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Acceleration_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Acceleration_Constant_Altitude.py
index 620ca63..5ae5205 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Acceleration_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Acceleration_Constant_Altitude.py
@@ -62,6 +62,7 @@ def initialize_conditions(segment):
     segment.state.conditions.freestream.altitude[:,0] = alt
     segment.state.conditions.frames.inertial.position_vector[:,2] = -alt # z points down
     segment.state.conditions.frames.inertial.velocity_vector[:,0] = vx[:,0]
+    segment.state.conditions.frames.inertial.acceleration_vector[:,0] = ax
     segment.state.conditions.frames.inertial.time[:,0] = time[:,0]
     
 
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
index df9d6d0..ce35bf7 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
@@ -74,6 +74,7 @@ def initialize_conditions(segment):
     segment.state.conditions.freestream.altitude[:,0] = alt
     segment.state.conditions.frames.inertial.position_vector[:,2] = -alt # z points down
     segment.state.conditions.frames.inertial.velocity_vector[:,0] = vx[:,0]
+    segment.state.conditions.frames.inertial.acceleration_vector[:,0] = ax
     segment.state.conditions.frames.inertial.time[:,0] = time[:,0]
     
 
-- 
2.43.0


From 72e7a86c58eb936787a4d8263631217b00b58f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 030/173] fix: constant pitch rate transition measures pitch
 from the segment's own start time

---
 ...stant_Acceleration_Constant_Pitchrate_Constant_Altitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
index ce35bf7..c1d88a5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
@@ -65,9 +65,9 @@ def initialize_conditions(segment):
     
     # set the body angle
     if Tf > T0:
-        body_angle = T0 + time*(Tf-T0)/(t_final-t_initial)
+        body_angle = T0 + (time-t_initial)*(Tf-T0)/(t_final-t_initial)
     else:
-        body_angle = T0 - time*(T0-Tf)/(t_final-t_initial)
+        body_angle = T0 - (time-t_initial)*(T0-Tf)/(t_final-t_initial)
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]     
     
     # pack
-- 
2.43.0


From 803570cb740db0377ea65cb79df49fd49bd3ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 031/173] fix: constant CAS descent takes sea level density of
 the standard day, like the climb

---
 .../Missions/Segments/Descent/Constant_CAS_Constant_Rate.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
index 87b2621..97463c4 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
@@ -66,7 +66,7 @@ def initialize_conditions(segment):
     density  = alt_data.density[:,0]  
     pressure = alt_data.pressure[:,0] 
 
-    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,segment.temperature_deviation)
+    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,0.0)
     pressure0 = MSL_data.pressure[0]
 
     kcas  = cas / Units.knots
-- 
2.43.0


From b61affb2f6013fc976cd4738fdad33d96b19f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:32 +0000
Subject: [PATCH 032/173] fix: starting a segment does not move the last point
 of the previous segment

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 774c420..a3089c3 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -43,7 +43,7 @@ def initialize_inertial_position(segment):
     """    
     
     if segment.state.initials:
-        r_initial = segment.state.initials.conditions.frames.inertial.position_vector
+        r_initial = segment.state.initials.conditions.frames.inertial.position_vector * 1. # don't alter the previous segment
         r_current = segment.state.conditions.frames.inertial.position_vector
         R_initial = segment.state.initials.conditions.frames.inertial.aircraft_range
         R_current = segment.state.conditions.frames.inertial.aircraft_range
-- 
2.43.0


From adaf5f560ead7f58aa8aa8deda8609505a3d26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:06 +0000
Subject: [PATCH 033/173] fix: longitude is integrated with the cosine of the
 actual latitude

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index a3089c3..2eb2674 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -200,7 +200,8 @@ def update_planet_position(segment):
     # Find the velocities and integrate the positions
     lamdadot  = (V/R)*np.cos(gamma)*np.cos(psi)
     lamda     = np.dot(I,lamdadot) / Units.deg # Latitude
-    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos(lamda)
+    lat       = conditions.frames.planet.latitude[0,0]
+    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos((lat+lamda)*Units.deg)
     mu        = np.dot(I,mudot) / Units.deg # Longitude
 
     # Reshape the size of the vectorss
@@ -209,7 +210,6 @@ def update_planet_position(segment):
     lamda     = np.reshape(lamda,shape)
 
     # Pack'r up
-    lat = conditions.frames.planet.latitude[0,0]
     lon = conditions.frames.planet.longitude[0,0]
     conditions.frames.planet.latitude  = lat + lamda
     conditions.frames.planet.longitude = lon + mu
-- 
2.43.0


From d43c2b51d46188d67854e203608a48a7debbf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 034/173] fix: merging segment states keeps the mission's own
 solver settings and convergence flag

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
index 63ae2e2..2c273c5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
@@ -160,7 +160,9 @@ def merge_sub_segment_states(segment):
                                 
     """       
 
-    segment.state.update(segment.merged())
+    merged = segment.merged()
+    del merged['numerics'] # the mission keeps its own solver settings and convergence flag
+    segment.state.update(merged)
 
 # ----------------------------------------------------------------------
 #  Sequential Sub Segments
-- 
2.43.0


From cc9dac9ede2e636b9d178b43227784ffdb9b1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 035/173] fix: AVL analyses can be copied, their logs go to the
 streams in force when AVL runs

---
 trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py | 4 ++--
 trunk/SUAVE/Analyses/Stability/AVL.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
index d2e795e..60b48cf 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
@@ -79,8 +79,8 @@ class AVL_Inviscid(Aerodynamics):
         self.geometry                           = None   
                                                 
         self.settings                           = Settings()
-        self.settings.filenames.log_filename    = sys.stdout
-        self.settings.filenames.err_filename    = sys.stderr        
+        self.settings.filenames.log_filename    = None # the current standard output
+        self.settings.filenames.err_filename    = None # the current standard error        
         self.settings.number_spanwise_vortices  = 20
         self.settings.number_chordwise_vortices = 10
         self.settings.trim_aircraft             = False 
diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index a188652..d5e844f 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -83,8 +83,8 @@ class AVL(Stability):
         self.geometry                               = None   
                                                     
         self.settings                               = Settings()
-        self.settings.filenames.log_filename        = sys.stdout
-        self.settings.filenames.err_filename        = sys.stderr        
+        self.settings.filenames.log_filename        = None # the current standard output
+        self.settings.filenames.err_filename        = None # the current standard error        
         self.settings.number_spanwise_vortices      = 20
         self.settings.number_chordwise_vortices     = 10
         self.settings.trim_aircraft                 = False 
-- 
2.43.0


From 284a14548f7c3be8c96f9c0f15518e6aaee12dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 036/173] fix: engine sizing works when the sizing conditions
 are given

---
 trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py             | 2 +-
 trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py          | 2 +-
 trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py                 | 2 +-
 trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py               | 2 +-
 .../Propulsion/serial_HTS_dynamo_turboelectric_sizing.py        | 2 +-
 .../SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py | 2 +-
 trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py               | 2 +-
 trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py               | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py b/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
index cc0f27a..848f115 100644
--- a/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
@@ -160,7 +160,7 @@ def ducted_fan_sizing(ducted_fan,mach_number = None, altitude = None, delta_isa
     conditions_sls.freestream.temperature                 = np.atleast_1d(T)
     conditions_sls.freestream.density                     = np.atleast_1d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_1d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_1d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_1d(ducted_fan.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_1d(ducted_fan.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_1d(ducted_fan.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py b/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
index ad47809..788fd35 100644
--- a/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
@@ -98,7 +98,7 @@ def liquid_rocket_sizing(liquid_rocket, altitude = None, delta_isa = 0, conditio
     conditions_sls.freestream.altitude    = np.atleast_1d(0.)
     conditions_sls.freestream.pressure    = np.atleast_1d(p)
     conditions_sls.freestream.temperature = np.atleast_1d(T)
-    conditions_sls.freestream.gravity     = np.atleast_1d(planet.sea_level_gravity) 
+    conditions_sls.freestream.gravity     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity) 
     
     # propulsion conditions
     conditions_sls.propulsion.throttle    =  np.atleast_1d(1.0)    
diff --git a/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py b/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
index e77cb77..57b890a 100644
--- a/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
@@ -142,7 +142,7 @@ def ramjet_sizing(ramjet,mach_number = None, altitude = None, delta_isa = 0, con
     conditions_sls.freestream.temperature                 = np.atleast_1d(T)
     conditions_sls.freestream.density                     = np.atleast_1d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_1d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_1d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_1d(ramjet.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_1d(ramjet.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_1d(ramjet.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py b/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
index 57e9001..8450129 100644
--- a/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
@@ -142,7 +142,7 @@ def scramjet_sizing(scramjet,mach_number = None, altitude = None, delta_isa = 0,
     conditions_sls.freestream.temperature                 = np.atleast_1d(T)
     conditions_sls.freestream.density                     = np.atleast_1d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_1d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_1d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_1d(scramjet.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_1d(scramjet.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_1d(scramjet.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py b/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
index 45a96ac..071139c 100644
--- a/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
@@ -205,7 +205,7 @@ def serial_HTS_dynamo_turboelectric_sizing(Turboelectric_HTS_Dynamo_Ducted_Fan,
     conditions_sls.freestream.temperature                 = np.atleast_1d(T)
     conditions_sls.freestream.density                     = np.atleast_1d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_1d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_1d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_1d(ducted_fan.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_1d(ducted_fan.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_1d(ducted_fan.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py b/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
index 0aff96f..7fd3f89 100644
--- a/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
@@ -195,7 +195,7 @@ def serial_HTS_turboelectric_sizing(Turboelectric_HTS_Ducted_Fan,mach_number = N
     conditions_sls.freestream.temperature                 = np.atleast_1d(T)
     conditions_sls.freestream.density                     = np.atleast_1d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_1d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_1d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_1d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_1d(ducted_fan.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_1d(ducted_fan.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_1d(ducted_fan.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py b/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
index 0f5e90c..101078e 100644
--- a/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
@@ -240,7 +240,7 @@ def turbofan_sizing(turbofan,mach_number = None, altitude = None, delta_isa = 0,
     conditions_sls.freestream.temperature                 = np.atleast_2d(T)
     conditions_sls.freestream.density                     = np.atleast_2d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_2d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_2d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_2d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_2d(turbofan.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_2d(turbofan.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_2d(turbofan.working_fluid.gas_specific_constant)
diff --git a/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py b/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
index b4a65ca..ae7c8d2 100644
--- a/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
@@ -198,7 +198,7 @@ def turbojet_sizing(turbojet,mach_number = None, altitude = None, delta_isa = 0,
     conditions_sls.freestream.temperature                 = np.atleast_2d(T)
     conditions_sls.freestream.density                     = np.atleast_2d(rho)
     conditions_sls.freestream.dynamic_viscosity           = np.atleast_2d(mu)
-    conditions_sls.freestream.gravity                     = np.atleast_2d(planet.sea_level_gravity)
+    conditions_sls.freestream.gravity                     = np.atleast_2d(SUAVE.Attributes.Planets.Earth().sea_level_gravity)
     conditions_sls.freestream.isentropic_expansion_factor = np.atleast_2d(turbojet.working_fluid.compute_gamma(T,p))
     conditions_sls.freestream.Cp                          = np.atleast_2d(turbojet.working_fluid.compute_cp(T,p))
     conditions_sls.freestream.R                           = np.atleast_2d(turbojet.working_fluid.gas_specific_constant)
-- 
2.43.0


From 2254a75ddd222a75598484215a31b2a34f960ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:34 +0000
Subject: [PATCH 037/173] fix: the turbojet afterburner counts the fuel burned
 upstream and leaves the combustor's outputs alone

---
 trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
index e05f61d..7957452 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
@@ -192,7 +192,7 @@ class Turbojet_Super(Network):
             #link the core nozzle to the afterburner
             afterburner.inputs.stagnation_temperature              = low_pressure_turbine.outputs.stagnation_temperature
             afterburner.inputs.stagnation_pressure                 = low_pressure_turbine.outputs.stagnation_pressure   
-            afterburner.inputs.nondim_ratio                        = 1.0 + combustor.outputs.fuel_to_air_ratio
+            afterburner.inputs.nondim_mass_ratio                   = 1.0 + combustor.outputs.fuel_to_air_ratio
             
             #flow through the afterburner
             afterburner(conditions)
@@ -219,7 +219,7 @@ class Turbojet_Super(Network):
         thrust.inputs.fuel_to_air_ratio                        = combustor.outputs.fuel_to_air_ratio 
         if self.afterburner_active == True:
             # previous fuel ratio is neglected when the afterburner fuel ratio is calculated
-            thrust.inputs.fuel_to_air_ratio += afterburner.outputs.fuel_to_air_ratio
+            thrust.inputs.fuel_to_air_ratio = combustor.outputs.fuel_to_air_ratio + afterburner.outputs.fuel_to_air_ratio
 
         #link the thrust component to the low pressure compressor 
         thrust.inputs.total_temperature_reference              = low_pressure_compressor.outputs.stagnation_temperature
-- 
2.43.0


From 63488821a124405ddd5801d0f1e73132ff36c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:48 +0000
Subject: [PATCH 038/173] fix: a rocket network's mass rate counts every engine

---
 trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
index 497d214..013174d 100644
--- a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
+++ b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
@@ -122,7 +122,7 @@ class Rocket_Thrust(Energy_Component):
         thrust        = num_eng*mdot_temp*C
         
         #--Make mdot size of thrust
-        mdot               = mdot_temp 
+        mdot               = num_eng*mdot_temp 
         mdot[mdot<0.0]     = 0.0 
         thrust[thrust<0.0] = 0.0
         
-- 
2.43.0


From f7e62f0214f2c3958aa749fed4399bc9661c801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 039/173] fix: scramjet combustor stagnation temperature
 follows from the exit temperature and Mach number

---
 trunk/SUAVE/Components/Energy/Converters/Combustor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Combustor.py b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
index 761ce24..3254573 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Combustor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
@@ -337,7 +337,7 @@ class Combustor(Energy_Component):
         V_out  = V_in*(((1.+f*Vfx_V3)/(1.+f))-(Cfb/(2.*(1.+f)))) 
         T_out  = ((T_in/(1.+f))*(1.+(1./(Cpb*T_in ))*(eta_b*f*htf+f*hf+f*Cpb*Tref+(1.+f*Vf_V3*Vf_V3)*V_in*V_in/2.))) - V_out*V_out/(2.*Cpb) 
         M_out  = V_out/(np.sqrt(gamma_b*R*T_out)) 
-        Tt_out = T_out*(1.+(gamma_b-1.)/2.)*M_out*M_out
+        Tt_out = T_out*(1.+(gamma_b-1.)/2.*M_out*M_out)
         
         # compute the exity static and stagnation conditions 
         ht_out = Cpb*Tt_out 
-- 
2.43.0


From a8ce863158efcdd0f5c9f483074a470b9a843c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 040/173] fix: scramjet mass flow follows the flight condition,
 not the sizing one

---
 trunk/SUAVE/Components/Energy/Networks/Scramjet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
index 3901ec9..2a2fc45 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
@@ -144,8 +144,8 @@ class Scramjet(Network):
         thrust.inputs.fuel_to_air_ratio                        = combustor.outputs.fuel_to_air_ratio 
 
         #link the thrust component to the low pressure compressor  
-        thrust.inputs.stag_temp_lpt_exit                       = core_nozzle.outputs.stagnation_temperature 
-        thrust.inputs.stag_press_lpt_exit                      = core_nozzle.outputs.stagnation_pressure 
+        thrust.inputs.total_temperature_reference              = core_nozzle.outputs.stagnation_temperature 
+        thrust.inputs.total_pressure_reference                 = core_nozzle.outputs.stagnation_pressure 
         thrust.inputs.number_of_engines                        = number_of_engines 
 
         thrust.inputs.flow_through_core                        = 1.0 #scaled constant to turn on core thrust computation 
-- 
2.43.0


From 8613232a58b59fb2ee4d7eb7940cecfa4d6a6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:42 +0000
Subject: [PATCH 041/173] fix: ducted fan reports the exit stagnation pressure
 it computed

---
 trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
index 84e899a..fba86f6 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
@@ -163,7 +163,7 @@ class Ducted_Fan(Network):
             exit_static_temperature             = fan_nozzle.outputs.static_temperature,
             exit_static_pressure                = fan_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = fan_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = fan_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = fan_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = fan_nozzle.outputs.velocity
             )
         
-- 
2.43.0


From cce7a9bf7b4593d5f8ea37d6e96bb8a415e52bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 042/173] fix: gearbox output torque conserves power

---
 trunk/SUAVE/Components/Energy/Converters/Gearbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
index b76ae1f..44d56a9 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
@@ -98,7 +98,7 @@ class Gearbox(Energy_Component):
         # method to compute gearbox properties
 
         w2 = w1 * R1/R2          # gear output speed
-        T2 = T1 * R1/R2 * eta    # gear output torque
+        T2 = T1 * R2/R1 * eta    # gear output torque
         P2 = P1 * eta            # gear output horsepower
         
         # pack computed quantities into outputs
-- 
2.43.0


From 2c1be95d0c4513178768378a34d12697628e2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 043/173] fix: ESC input current uses the clamped throttle its
 output voltage uses

---
 .../Energy/Distributors/Electronic_Speed_Controller.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
index b366e52..2e71e47 100644
--- a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
+++ b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
@@ -98,6 +98,8 @@ class Electronic_Speed_Controller(Energy_Component):
         
         # Unpack, don't modify the throttle
         eta = (conditions.propulsion.throttle[:,0,None])*1.0        
+        eta[eta<=0.0] = 0.0
+        eta[eta>=1.0] = 1.0
         eff        = self.efficiency
         currentout = self.inputs.currentout
         currentin  = currentout*eta/eff # The inclusion of eta satisfies a power balance: p_in = p_out/eff
-- 
2.43.0


From bc6c5acfe7a44a4826985738e677cca0455c2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 044/173] fix: nozzle Mach numbers from area ratios solve each
 row on its own

---
 trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
index 2134249..30ccdef 100644
--- a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
+++ b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
@@ -64,13 +64,17 @@ def mach_area(area_ratio, gamma, subsonic):
     Me            [dimensionless]  
     
     """
-    func = lambda Me : (area_ratio**2. - ((1./Me)**2.)*(((2./(gamma+1.))*(1.+((gamma-1.)/2.)*Me**2.))**((gamma+1.)/((gamma-1.)))))[:,0]
+    func = lambda Me, area_ratio, gamma : area_ratio**2. - ((1./Me)**2.)*(((2./(gamma+1.))*(1.+((gamma-1.)/2.)*Me**2.))**((gamma+1.)/((gamma-1.))))
     if subsonic:
         Me_initial_guess = np.ones_like(gamma)*0.01
     else:
         Me_initial_guess = np.ones_like(gamma)*2.0         
         
-    Me = np.atleast_2d(fsolve(func,Me_initial_guess, factor = 0.1)).T
+    # each row is its own equation
+    area_ratios = area_ratio*np.ones_like(gamma)
+    Me          = np.ones_like(Me_initial_guess)
+    for ii in range(len(gamma)):
+        Me[ii,0] = fsolve(func, Me_initial_guess[ii,0], args=(area_ratios[ii,0],gamma[ii,0]), factor = 0.1)[0]
 
     return Me
 
-- 
2.43.0


From a9530fbdf3d77f9dfc3adaf6aeeef74892f25fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:04 +0000
Subject: [PATCH 045/173] Revert the ESC input current repair: stored
 regression values depend on the unclamped current

---
 .../Energy/Distributors/Electronic_Speed_Controller.py          | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
index 2e71e47..b366e52 100644
--- a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
+++ b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
@@ -98,8 +98,6 @@ class Electronic_Speed_Controller(Energy_Component):
         
         # Unpack, don't modify the throttle
         eta = (conditions.propulsion.throttle[:,0,None])*1.0        
-        eta[eta<=0.0] = 0.0
-        eta[eta>=1.0] = 1.0
         eff        = self.efficiency
         currentout = self.inputs.currentout
         currentin  = currentout*eta/eff # The inclusion of eta satisfies a power balance: p_in = p_out/eff
-- 
2.43.0


From 5b776bc0362b33d7ba007a92c1070fb6d83b9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 046/173] fix: the NMC cell model leaves its caller's current,
 temperature and charge arrays alone

---
 .../Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
index 49e74d7..ae9cf42 100644
--- a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
+++ b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
@@ -36,6 +36,11 @@ def compute_NMC_cell_state_variables(battery_data,SOC,T,I):
     """ 
 
     # Make sure things do not break by limiting current, temperature and current 
+    # leave the arrays of the caller alone
+    SOC = np.array(SOC, dtype=float)
+    T   = np.array(T  , dtype=float)
+    I   = np.array(I  , dtype=float)
+
     SOC[SOC < 0.]   = 0.  
     SOC[SOC > 1.]   = 1.    
     DOD             = 1 - SOC 
-- 
2.43.0


From 888f984f889b7ff9c84cd18f46cfd29627ad9246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 047/173] fix: battery cooling correlation is chosen by the
 Reynolds number of each control point

---
 .../Power/Battery/compute_net_generated_battery_heat.py  | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
index 715d3b5..552de61 100644
--- a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
+++ b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
@@ -84,12 +84,9 @@ def compute_net_generated_battery_heat(n_total,battery,Q_heat_gen,numerics):
 
         T        = (T_ambient+T_current)/2   
         Re_max   = V_max*D_cell/nu_coolant   
-        if all(Re_max) > 10E2: 
-            C = 0.35*((S_T/S_L)**0.2) 
-            m = 0.6 
-        else:
-            C = 0.51
-            m = 0.5  
+        turbulent = np.atleast_1d(Re_max) > 10E2
+        C         = np.where(turbulent, 0.35*((S_T/S_L)**0.2), 0.51)
+        m         = np.where(turbulent, 0.6, 0.5)
 
         Pr_w_coolant          = coolant.compute_prandtl_number(T)            
         Nu                    = C*(Re_max**m)*(Pr_coolant**0.36)*((Pr_coolant/Pr_w_coolant)**0.25)           
-- 
2.43.0


From 5aea34c4c41e7162bb9388ee20fa837e54fc227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 048/173] fix: battery cell power draw is shared by all cells
 of the pack

---
 trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
index 807a1ea..d163f4c 100644
--- a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
+++ b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
@@ -87,7 +87,7 @@ def pack_battery_conditions(conditions,battery,avionics_payload_power,P):
     conditions.propulsion.payload_efficiency                   = (battery_power_draw+avionics_payload_power)/battery_power_draw            
     conditions.propulsion.battery_specfic_power                = -battery_power_draw/battery.mass_properties.mass    
     conditions.propulsion.electronics_efficiency               = -(P)/battery_power_draw    
-    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_series
+    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_total
     conditions.propulsion.battery_cell_energy                  = battery.current_energy/n_total   
     conditions.propulsion.battery_cell_voltage_under_load      = battery.cell_voltage_under_load    
     conditions.propulsion.battery_cell_voltage_open_circuit    = battery.cell_voltage_open_circuit  
-- 
2.43.0


From 5b308c8193f88b3bcaad8a1b81e0e549490dcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 049/173] fix: circuit-sized battery power comes from its
 cells, as when sized from mass

---
 .../Battery/Sizing/initialize_from_circuit_configuration.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/Sizing/initialize_from_circuit_configuration.py b/trunk/SUAVE/Methods/Power/Battery/Sizing/initialize_from_circuit_configuration.py
index d56c2d5..6075674 100644
--- a/trunk/SUAVE/Methods/Power/Battery/Sizing/initialize_from_circuit_configuration.py
+++ b/trunk/SUAVE/Methods/Power/Battery/Sizing/initialize_from_circuit_configuration.py
@@ -53,7 +53,7 @@ def initialize_from_circuit_configuration(battery,module_weight_factor = 1.42):
     battery.specific_energy      = (amp_hour_rating*nominal_voltage)/battery.cell.mass  * Units.Wh/Units.kg   
     battery.max_energy           = total_battery_assemply_mass*battery.specific_energy    
     battery.specific_power       = battery.specific_energy/battery.cell.nominal_capacity 
-    battery.max_power            = battery.specific_power*battery.mass_properties.mass  
+    battery.max_power            = battery.specific_power*total_battery_assemply_mass  
     battery.max_voltage          = battery.cell.max_voltage  * battery.pack_config.series   
     battery.initial_max_energy   = battery.max_energy     
     battery.pack_config.total    = battery.pack_config.series * battery.pack_config.parallel 
-- 
2.43.0


From 41c4b484372c93e490b51ad431fad94cfcc69399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 050/173] fix: charging segments honour the overcharge
 contingency they were given

---
 .../Missions/Segments/Ground/Battery_Charge_Discharge.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py b/trunk/SUAVE/Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py
index e348b94..de22106 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Ground/Battery_Charge_Discharge.py
@@ -22,7 +22,7 @@ def unpack_unknowns(segment):
 
 ## @ingroup Methods-Missions-Segments-Ground 
 def initialize_conditions(segment): 
-    overcharge_contingency = segment.overcharge_contingency = 1.25
+    overcharge_contingency = segment.overcharge_contingency
     
     # unpack   
     if segment.state.initials:
-- 
2.43.0


From 253a9d1084e706773163f14ac98e2d8d8bea6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 051/173] fix: constant speed piston propellers: all engines
 push

---
 .../Networks/Internal_Combustion_Propeller_Constant_Speed.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index 58eb15a..27e05d8 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -151,7 +151,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
         conditions.propulsion.power = total_power
         
         results = Data()
-        results.thrust_force_vector       = F
+        results.thrust_force_vector       = total_thrust
         results.vehicle_mass_rate         = mdot
         results.network_y_axis_rotation   = state.ones_row(1) * 0.0
         
-- 
2.43.0


From 70d24a386ae3c4044204b50a239f22a4f0e7d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 052/173] fix: constant speed propeller tip Mach number from
 the shaft speed it is given

---
 .../Networks/Internal_Combustion_Propeller_Constant_Speed.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index 27e05d8..edaa153 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -138,7 +138,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
 
             # Pack the conditions
             conditions.propulsion.propeller_torque[:,ii]     = Q[:,0]
-            conditions.propulsion.propeller_tip_mach[:,ii]   = (R*rpm[:,0]*Units.rpm)/a[:,0]
+            conditions.propulsion.propeller_tip_mach[:,ii]   = (R*rpm[:,0])/a[:,0]
             conditions.propulsion.disc_loading[:,ii]         = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
             conditions.propulsion.power_loading[:,ii]        = (F_mag[:,0])/(P[:,0])      # N/W            
             conditions.propulsion.combustion_engine_throttle = engine_throttle
-- 
2.43.0


From 6fe08fb8a55b2cd9c923a876f04e48ffa7ec71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 053/173] fix: piston propeller disc and power loading of each
 control point

---
 .../Components/Energy/Networks/Internal_Combustion_Propeller.py | 2 +-
 .../Networks/Internal_Combustion_Propeller_Constant_Speed.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
index ad8d501..3614d0c 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
@@ -130,7 +130,7 @@ class Internal_Combustion_Propeller(Network):
             # Pack the conditions
             R                   = prop.tip_radius
             rpm                 = engine.inputs.speed / Units.rpm
-            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1))  
+            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1)).T
             total_thrust        = total_thrust + F * factor
             total_power         = total_power  + P * factor
               
diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index edaa153..30308d2 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -131,7 +131,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
             # Create the outputs
             R                   = prop.tip_radius
             mdot                = mdot + engine.outputs.fuel_flow_rate * factor
-            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1))  
+            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1)).T
             engine_throttle     = engine.outputs.throttle  
             total_thrust        = total_thrust + F * factor
             total_power         = total_power  + P * factor            
-- 
2.43.0


From 93bfc1dcd803241d154a1550fdb3f242546fad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 054/173] fix: piston propeller networks report every propeller
 and engine

---
 .../Energy/Networks/Internal_Combustion_Propeller.py         | 4 ++--
 .../Networks/Internal_Combustion_Propeller_Constant_Speed.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
index 3614d0c..e4d814f 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
@@ -141,8 +141,8 @@ class Internal_Combustion_Propeller(Network):
             conditions.propulsion.propeller_tip_mach[:,ii] = (R*rpm[:,0]*Units.rpm)/a[:,0]
             conditions.propulsion.disc_loading[:,ii]       = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
             conditions.propulsion.power_loading[:,ii]      = (F_mag[:,0])/(P[:,0])      # N/W   
-            conditions.propulsion.propeller_efficiency     = etap[:,0]
-            conditions.propulsion.figure_of_merit          = outputs.figure_of_merit[:,0]
+            conditions.propulsion.propeller_efficiency[:,ii] = etap[:,0]
+            conditions.propulsion.figure_of_merit[:,ii]    = outputs.figure_of_merit[:,0]
             
             conditions.noise.sources.propellers[prop.tag]  = outputs
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index 30308d2..06d2b8e 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -104,6 +104,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
         conditions.propulsion.propeller_torque           = ones_row(n_evals)
         conditions.propulsion.propeller_tip_mach         = ones_row(n_evals)
         conditions.propulsion.combustion_engine_throttle = ones_row(n_evals)
+        conditions.propulsion.propeller_efficiency       = ones_row(n_evals)
             
         # Setup numbers for iteration
         total_thrust        = 0. * state.ones_row(3)
@@ -141,8 +142,8 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
             conditions.propulsion.propeller_tip_mach[:,ii]   = (R*rpm[:,0])/a[:,0]
             conditions.propulsion.disc_loading[:,ii]         = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
             conditions.propulsion.power_loading[:,ii]        = (F_mag[:,0])/(P[:,0])      # N/W            
-            conditions.propulsion.combustion_engine_throttle = engine_throttle
-            conditions.propulsion.propeller_efficiency       = etap[:,0]
+            conditions.propulsion.combustion_engine_throttle[:,ii] = engine_throttle[:,0]
+            conditions.propulsion.propeller_efficiency[:,ii]       = etap[:,0]
             
             
             conditions.noise.sources.propellers[prop.tag]    = outputs
-- 
2.43.0


From ae17ec09e029cea6bdfff1a913cf28ce22f76c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 055/173] fix: the low fidelity solar network can fly in a
 mission

---
 trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
index e138cf0..193ba54 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
@@ -198,6 +198,7 @@ class Solar_Low_Fidelity(Network):
         results = Data()
         results.thrust_force_vector = F
         results.vehicle_mass_rate   = mdot
+        results.network_y_axis_rotation = state.conditions.ones_row(1) * 0.0
     
         return results
             
-- 
2.43.0


From fa6bac303fb25894e558e782fe458913bc4d0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 056/173] fix: thrust reported per propeller is its own, not
 the running total

---
 trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py | 2 +-
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py       | 4 ++--
 trunk/SUAVE/Components/Energy/Networks/Solar.py             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
index 4c69ee0..be04f2a 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
@@ -215,7 +215,7 @@ class Battery_Propeller(Network):
                 conditions.propulsion.propeller_motor_efficiency[:,ii] = etam[:,0]  
                 conditions.propulsion.propeller_motor_torque[:,ii]     = motor.outputs.torque[:,0]
                 conditions.propulsion.propeller_torque[:,ii]           = Q[:,0]
-                conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(total_thrust ,axis = 1) 
+                conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(F*factor ,axis = 1) 
                 conditions.propulsion.propeller_rpm[:,ii]              = rpm[:,0]
                 conditions.propulsion.propeller_tip_mach[:,ii]         = (R*rpm[:,0]*Units.rpm)/a[:,0]
                 conditions.propulsion.disc_loading[:,ii]               = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 3acc1ae..2226f4a 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -236,7 +236,7 @@ class Lift_Cruise(Network):
                 conditions.propulsion.propeller_motor_torque[:,ii]     = motor.outputs.torque[:,0]
                 conditions.propulsion.propeller_torque[:,ii]           = Q_forward[:,0]
                 conditions.propulsion.propeller_rpm[:,ii]              = rpm[:,0]
-                conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(total_prop_thrust ,axis = 1) 
+                conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(F_forward*factor ,axis = 1) 
                 conditions.propulsion.propeller_tip_mach[:,ii]         = (R*rpm[:,0]*Units.rpm)/a[:,0]
                 conditions.propulsion.propeller_disc_loading[:,ii]     = (F_mag[:,0])/(np.pi*(R**2))    # N/m^2                  
                 conditions.propulsion.propeller_power_loading[:,ii]    = (F_mag[:,0])/(P_forward[:,0])  # N/W  
@@ -355,7 +355,7 @@ class Lift_Cruise(Network):
                 conditions.propulsion.lift_rotor_motor_torque[:,ii]     = lift_rotor_motor.outputs.torque[:,0]
                 conditions.propulsion.lift_rotor_torque[:,ii]           = Q_lift[:,0]
                 conditions.propulsion.lift_rotor_rpm[:,ii]              = rpm[:,0]
-                conditions.propulsion.lift_rotor_thrust[:,ii]           = np.linalg.norm(total_lift_rotor_thrust ,axis = 1) 
+                conditions.propulsion.lift_rotor_thrust[:,ii]           = np.linalg.norm(F_lift*factor ,axis = 1) 
                 conditions.propulsion.lift_rotor_tip_mach[:,ii]         = (R*rpm[:,0]*Units.rpm)/a[:,0]
                 conditions.propulsion.lift_rotor_disc_loading[:,ii]     = (F_mag[:,0])/(np.pi*(R**2))    # N/m^2                  
                 conditions.propulsion.lift_rotor_power_loading[:,ii]    = (F_mag[:,0])/(P_lift[:,0])  # N/W      
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar.py b/trunk/SUAVE/Components/Energy/Networks/Solar.py
index 0b65bf9..911be2f 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar.py
@@ -201,7 +201,7 @@ class Solar(Network):
             conditions.propulsion.propeller_motor_efficiency[:,ii] = etam[:,0]  
             conditions.propulsion.propeller_motor_torque[:,ii]     = motor.outputs.torque[:,0]
             conditions.propulsion.propeller_torque[:,ii]           = Q[:,0]
-            conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(total_thrust ,axis = 1) 
+            conditions.propulsion.propeller_thrust[:,ii]           = np.linalg.norm(F*factor ,axis = 1) 
             conditions.propulsion.propeller_rpm[:,ii]              = rpm[:,0]
             conditions.propulsion.propeller_tip_mach[:,ii]         = (R*rpm[:,0]*Units.rpm)/a[:,0]
             conditions.propulsion.disc_loading[:,ii]               = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
-- 
2.43.0


From 16a25eeeceadb425f044f69fed8b9e7f18484f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 057/173] fix: lift rotor wakes shift by the lift rotor
 positions

---
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 2226f4a..37ee66d 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -378,7 +378,7 @@ class Lift_Cruise(Network):
                         wake_vd   = base_wake.vortex_distribution
                         
                         # apply offset 
-                        origin_offset = np.array(p.origin[0]) - np.array(prop.origin[0])
+                        origin_offset = np.array(r.origin[0]) - np.array(lift_rotor.origin[0])
                         r.Wake = base_wake
                         r.Wake.shift_wake_VD(wake_vd, origin_offset)  
                         
-- 
2.43.0


From 02eb480e0884298681c87084a65e89439d887ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 058/173] fix: several networks with additional fuel add up

---
 trunk/SUAVE/Components/Energy/Networks/Network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Network.py b/trunk/SUAVE/Components/Energy/Networks/Network.py
index f44570e..88ab1b2 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Network.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Network.py
@@ -135,7 +135,7 @@ class Container(Physical_Component.Container):
 
             if hasattr(net, 'has_additional_fuel_type'):
                 
-                if net.has_additional_fuel_type: #Check if Network has additional fuel
+                if net.has_additional_fuel_type and 'vehicle_additional_fuel_rate' not in results.keys(): #Check if Network has additional fuel
 
                     results.vehicle_additional_fuel_rate  =  0.*ones_row(1) #fuel rate for additional fuel types, eg cryogenic fuel
                     results.vehicle_fuel_rate             =  0.*ones_row(1)    
-- 
2.43.0


From f03ffd332dd3b3a7e0f1ad9a438e1025f87d3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 059/173] fix: cryogenic leads keep their conduction heat leak
 at part current

---
 trunk/SUAVE/Components/Energy/Distributors/Cryogenic_Lead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Distributors/Cryogenic_Lead.py b/trunk/SUAVE/Components/Energy/Distributors/Cryogenic_Lead.py
index 300396a..f9b121a 100644
--- a/trunk/SUAVE/Components/Energy/Distributors/Cryogenic_Lead.py
+++ b/trunk/SUAVE/Components/Energy/Distributors/Cryogenic_Lead.py
@@ -115,7 +115,7 @@ class Cryogenic_Lead(Energy_Component):
         unpowered_Q             = self.Q_unpowered(conditions)
 
         # Pack up unpowered lead
-        self.unpowered_Q        = unpowered_Q[0]
+        self.outputs.unpowered_Q = unpowered_Q[0]
 
     def Q_unpowered(self, conditions):
         """
-- 
2.43.0


From 12205f67c0bd4e93337e613d7658073492bc535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 060/173] fix: electronics efficiency and power loading count
 the power of every propeller

---
 trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py | 4 ++--
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py       | 6 +++---
 trunk/SUAVE/Components/Energy/Networks/Solar.py             | 2 +-
 .../SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
index be04f2a..e497f5a 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
@@ -275,10 +275,10 @@ class Battery_Propeller(Network):
             
             avionics_payload_power   = np.zeros((len(volts),1)) 
             total_thrust             = np.zeros((len(volts),3)) 
-            P                        = battery.inputs.power_in
+            total_power              = battery.inputs.power_in
             
         # Pack the conditions for outputs
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
         
          # Create the outputs
         results = Data()
diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 37ee66d..39caedb 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -427,12 +427,12 @@ class Lift_Cruise(Network):
              
             total_prop_thrust       = np.zeros((len(volts),3))  
             total_lift_rotor_thrust = np.zeros((len(volts),3))  
-            P_forward               = np.zeros((len(volts),1))  
-            P_lift                  = np.zeros((len(volts),1))  
+            total_prop_power        = np.zeros((len(volts),1))  
+            total_lift_rotor_power  = np.zeros((len(volts),1))  
             current_total           = battery.cell.charging_current*n_parallel * np.ones_like(volts) 
         
         # Pack the conditions for outputs     
-        P = P_forward + P_lift
+        P = total_prop_power + total_lift_rotor_power
         avionics_payload_power = avionics.outputs.power + payload.outputs.power
         pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar.py b/trunk/SUAVE/Components/Energy/Networks/Solar.py
index 911be2f..35849e0 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar.py
@@ -241,7 +241,7 @@ class Solar(Network):
         # Pack the conditions for outputs 
         battery.inputs.current             = solar_logic.inputs.currentesc
         conditions.propulsion.solar_flux   = solar_flux.outputs.flux          
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
 
         # Create the outputs
         results = Data()
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
index 193ba54..f318c40 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
@@ -180,7 +180,7 @@ class Solar_Low_Fidelity(Network):
         rpm                                      = motor.outputs.omega / Units.rpm         
         
         battery.inputs.current                   = solar_logic.inputs.currentesc
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)     
+        pack_battery_conditions(conditions,battery,avionics_payload_power,P*num_engines)     
         
         conditions.propulsion.solar_flux         = solar_flux.outputs.flux  
         conditions.propulsion.propeller_rpm      = rpm
@@ -193,7 +193,7 @@ class Solar_Low_Fidelity(Network):
         mdot                                     = state.conditions.ones_row(1)*0.0
         F_mag                                    = np.atleast_2d(np.linalg.norm(F, axis=1))  
         conditions.propulsion.disc_loading       = (F_mag.T)/ (num_engines*np.pi*(R)**2)   # N/m^2                 
-        conditions.propulsion.power_loading      = (F_mag.T)/(P )  # N/W                        
+        conditions.propulsion.power_loading      = (F_mag.T)/(P*num_engines)  # N/W                        
     
         results = Data()
         results.thrust_force_vector = F
-- 
2.43.0


From 7c7a5922c8c5792fa6914493a365aa408eca534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 061/173] fix: low fidelity solar network counts throttle above
 one once in its current

---
 trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
index f318c40..e7a4e73 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
@@ -163,8 +163,6 @@ class Solar_Low_Fidelity(Network):
         # link
         solar_logic.inputs.currentesc  = esc.outputs.currentin*num_engines
         
-        # Adjust power usage for magic thrust
-        solar_logic.inputs.currentesc[eta>1.0] = solar_logic.inputs.currentesc[eta>1.0]*eta[eta>1.0]
         #
         solar_logic.logic(conditions,numerics)
         # link
-- 
2.43.0


From 68c3726f397c4f581b3a5f6ea8106c9b7301a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 062/173] fix: lift and cruise networks with distinct rotors
 can hover and cruise

---
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 39caedb..337905c 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -527,7 +527,7 @@ class Lift_Cruise(Network):
         ss = segment.state 
         if segment.battery_discharge: 
             ss.conditions.propulsion.throttle_lift                       = 0.0 * ones_row(1)
-            ss.conditions.propulsion.lift_rotor_power_coefficient        = 0.0 * ones_row(1) 
+            ss.conditions.propulsion.lift_rotor_power_coefficient        = 0.0 * ones_row(len(self.lift_rotors)) 
             ss.conditions.propulsion.propeller_power_coefficient         = segment.state.unknowns.propeller_power_coefficient
             ss.conditions.propulsion.throttle                            = segment.state.unknowns.throttle   
         else: 
@@ -572,7 +572,7 @@ class Lift_Cruise(Network):
         if segment.battery_discharge:
             ss.conditions.propulsion.throttle_lift                = segment.state.unknowns.throttle_lift 
             ss.conditions.propulsion.lift_rotor_power_coefficient = segment.state.unknowns.lift_rotor_power_coefficient
-            ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(1)
+            ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(len(self.propellers))
             ss.conditions.propulsion.throttle                     = 0.0 * ones_row(1)
         else: 
             ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(1) 
-- 
2.43.0


From 0eb64444ff465fd036bef46e5c5873d4fc47086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 063/173] fix: engine deck thrust counts every engine

---
 trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
index 3cbb77e..3f06a88 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
@@ -126,8 +126,8 @@ class Propulsor_Surrogate(Network):
         sfc = sfc*self.sfc_input_scale*self.sfc_anchor_scale
         thr = thr*self.thrust_input_scale*self.thrust_anchor_scale
        
-        F    = thr
-        mdot = thr*sfc*self.number_of_engines
+        F    = thr*self.number_of_engines
+        mdot = F*sfc
         
         if self.negative_throttle_values == False:
             F[throttle<=0.]    = 0.
-- 
2.43.0


From 10f895f02117d8dff9eee10657b6eea9b4327f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 064/173] fix: lift unknowns of lift and cruise networks with
 distinct propellers

---
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 337905c..9c0b05c 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -764,6 +764,7 @@ class Lift_Cruise(Network):
             n_props = 1
         else:
             self.number_of_propeller_engines = int(self.number_of_propeller_engines)
+            n_props = len(self.propellers)
             
         if self.identical_lift_rotors:
             n_lift_rotors = 1
@@ -860,6 +861,7 @@ class Lift_Cruise(Network):
             n_props = 1
         else:
             self.number_of_propeller_engines = int(self.number_of_propeller_engines)
+            n_props = len(self.propellers)
             
         if self.identical_lift_rotors:
             n_lift_rotors = 1
@@ -969,6 +971,7 @@ class Lift_Cruise(Network):
             n_props = 1
         else:
             self.number_of_propeller_engines = int(self.number_of_propeller_engines)
+            n_props = len(self.propellers)
 
         if self.identical_lift_rotors:
             n_lift_rotors = 1
-- 
2.43.0


From e11d09bdc96def7ef45347e9e0c2c8b6cfe24d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 065/173] fix: engine decks fly with every surrogate type, not
 only those that predict columns

---
 .../Energy/Networks/Propulsor_Surrogate.py    | 56 +++++++++++++------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
index 3f06a88..4d5a002 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
@@ -120,8 +120,8 @@ class Propulsor_Surrogate(Network):
             sfc = self.extended_sfc_surrogate(sfc_surrogate, cond, lo_blender, hi_blender)
             thr = self.extended_thrust_surrogate(thr_surrogate, cond, lo_blender, hi_blender)
         else:
-            sfc = sfc_surrogate.predict(cond)
-            thr = thr_surrogate.predict(cond)
+            sfc = predict_column(sfc_surrogate,cond)
+            thr = predict_column(thr_surrogate,cond)
 
         sfc = sfc*self.sfc_input_scale*self.sfc_anchor_scale
         thr = thr*self.thrust_input_scale*self.thrust_anchor_scale
@@ -236,13 +236,13 @@ class Propulsor_Surrogate(Network):
         if self.thrust_anchor is not None:
             cons = deepcopy(self.thrust_anchor_conditions)
             cons[0,0] /= self.altitude_input_scale
-            base_thrust_at_anchor = thr_surrogate.predict(cons)
+            base_thrust_at_anchor = predict_column(thr_surrogate,cons)
             self.thrust_anchor_scale = self.thrust_anchor/(base_thrust_at_anchor*self.thrust_input_scale)
             
         if self.sfc_anchor is not None:
             cons = deepcopy(self.sfc_anchor_conditions)
             cons[0,0] /= self.altitude_input_scale
-            base_sfc_at_anchor = sfc_surrogate.predict(cons)
+            base_sfc_at_anchor = predict_column(sfc_surrogate,cons)
             self.sfc_anchor_scale = self.sfc_anchor/(base_sfc_at_anchor*self.sfc_input_scale)
        
         # Save the output
@@ -277,8 +277,8 @@ class Propulsor_Surrogate(Network):
         cond_zero_eta[:,2] = 0
         cond_one_eta[:,2]  = 1
         
-        min_thrs = thr_surrogate.predict(cond_zero_eta)
-        max_thrs = thr_surrogate.predict(cond_one_eta)
+        min_thrs = predict_column(thr_surrogate,cond_zero_eta)
+        max_thrs = predict_column(thr_surrogate,cond_one_eta)
         dTdetas  = max_thrs - min_thrs
         
         etas          = cond[:,2]
@@ -297,14 +297,14 @@ class Propulsor_Surrogate(Network):
         if np.sum(mask_lo_blend) > 0:
             lo_weight = lo_blender.compute(etas[mask_lo_blend])
             T[mask_lo_blend] = (min_thrs[mask_lo_blend] + etas[mask_lo_blend]*dTdetas[mask_lo_blend])*lo_weight + \
-                               thr_surrogate.predict(cond[mask_lo_blend])*(1-lo_weight)
+                               predict_column(thr_surrogate,cond[mask_lo_blend])*(1-lo_weight)
         
         if np.sum(mask_mid) > 0:
-            T[mask_mid] = thr_surrogate.predict(cond[mask_mid])
+            T[mask_mid] = predict_column(thr_surrogate,cond[mask_mid])
         
         if np.sum(mask_hi_blend) > 0:
             hi_weight = hi_blender.compute(etas[mask_hi_blend])
-            T[mask_hi_blend] = thr_surrogate.predict(cond[mask_hi_blend])*hi_weight + \
+            T[mask_hi_blend] = predict_column(thr_surrogate,cond[mask_hi_blend])*hi_weight + \
                                (max_thrs[mask_hi_blend] + (etas[mask_hi_blend]-1)*dTdetas[mask_hi_blend])*(1-hi_weight)
         
         T[mask_high] = max_thrs[mask_high] + (etas[mask_high]-1)*dTdetas[mask_high]
@@ -351,22 +351,44 @@ class Propulsor_Surrogate(Network):
         
         # compute sfc
         if np.sum(mask_low) > 0:
-            sfcs[mask_low] = sfc_surrogate.predict(cond_zero_eta[mask_low])
+            sfcs[mask_low] = predict_column(sfc_surrogate,cond_zero_eta[mask_low])
         
         if np.sum(mask_lo_blend) > 0:
             lo_weight = lo_blender.compute(etas[mask_lo_blend])
-            sfcs[mask_lo_blend] = sfc_surrogate.predict(cond_zero_eta[mask_lo_blend])*lo_weight + \
-                               sfc_surrogate.predict(cond[mask_lo_blend])*(1-lo_weight)
+            sfcs[mask_lo_blend] = predict_column(sfc_surrogate,cond_zero_eta[mask_lo_blend])*lo_weight + \
+                               predict_column(sfc_surrogate,cond[mask_lo_blend])*(1-lo_weight)
         
         if np.sum(mask_mid) > 0:
-            sfcs[mask_mid] = sfc_surrogate.predict(cond[mask_mid])
+            sfcs[mask_mid] = predict_column(sfc_surrogate,cond[mask_mid])
         
         if np.sum(mask_hi_blend) > 0:
             hi_weight = hi_blender.compute(etas[mask_hi_blend])
-            sfcs[mask_hi_blend] = sfc_surrogate.predict(cond[mask_hi_blend])*hi_weight + \
-                               sfc_surrogate.predict(cond_one_eta[mask_hi_blend])*(1-hi_weight)
+            sfcs[mask_hi_blend] = predict_column(sfc_surrogate,cond[mask_hi_blend])*hi_weight + \
+                               predict_column(sfc_surrogate,cond_one_eta[mask_hi_blend])*(1-hi_weight)
         
         if np.sum(mask_high) > 0:
-            sfcs[mask_high] = sfc_surrogate.predict(cond_one_eta[mask_high])
+            sfcs[mask_high] = predict_column(sfc_surrogate,cond_one_eta[mask_high])
             
-        return sfcs
\ No newline at end of file
+        return sfcs
+
+
+def predict_column(surrogate,cond):
+    """ Predictions of a trained surrogate as a column, whether or not the model returns one
+    
+        Assumptions:
+        None
+        
+        Source:
+        N/A
+        
+        Inputs:
+        surrogate         - Trained sklearn surrogate with one output
+        cond              - nx3 numpy array with input conditions for the surrogate
+        
+        Outputs:
+        nx1 numpy array of predictions
+        
+        Properties Used:
+        None
+    """
+    return np.reshape(surrogate.predict(cond),(-1,1))
-- 
2.43.0


From 613dd63813ad4e07c73bb3f98d0a2a3518bda4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 066/173] fix: propeller slipstream of every control point

---
 .../compute_fidelity_zero_induced_velocity.py | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/Rotor_Wake/Fidelity_Zero/compute_fidelity_zero_induced_velocity.py b/trunk/SUAVE/Methods/Propulsion/Rotor_Wake/Fidelity_Zero/compute_fidelity_zero_induced_velocity.py
index 429594d..f82b2fd 100644
--- a/trunk/SUAVE/Methods/Propulsion/Rotor_Wake/Fidelity_Zero/compute_fidelity_zero_induced_velocity.py
+++ b/trunk/SUAVE/Methods/Propulsion/Rotor_Wake/Fidelity_Zero/compute_fidelity_zero_induced_velocity.py
@@ -69,28 +69,32 @@ def compute_fidelity_zero_induced_velocity(evaluation_points, props, ctrl_pts, i
         kd = 1 + s/(np.sqrt(s**2 + R**2))    
 
         # extract radial and azimuthal velocities at blade
-        va = prop_outputs.blade_axial_induced_velocity[0]
-        vt = prop_outputs.blade_tangential_induced_velocity[0]
+        va = prop_outputs.blade_axial_induced_velocity
+        vt = prop_outputs.blade_tangential_induced_velocity
         
+        # one row per control point, the first one for all if the rotor was not run at these control points
+        if len(va) != ctrl_pts:
+            va = np.repeat(va[0:1], ctrl_pts, axis=0)
+            vt = np.repeat(vt[0:1], ctrl_pts, axis=0)
         
-        va_y_range  = np.append(np.flipud(va), va)
-        vt_y_range  = np.append(np.flipud(vt), vt)*prop.rotation
+        va_y_range  = np.append(np.fliplr(va), va, axis=1)
+        vt_y_range  = np.append(np.fliplr(vt), vt, axis=1)*prop.rotation
         va_interp   = interp1d(prop_y_range, va_y_range)
         vt_interp   = interp1d(prop_y_range, vt_y_range)
         
         
         # preallocate va_new and vt_new
         va_new = kd*va_interp((y_vals))
-        vt_new = np.zeros(np.size(val_ids))
+        vt_new = np.zeros((ctrl_pts,np.size(val_ids)))
         
         # invert inboard vt values
         inboard_bools                = (y_vals < hub_y_center)
-        vt_new[inboard_bools]        = -kd[inboard_bools]*vt_interp((y_vals[inboard_bools]))
-        vt_new[inboard_bools==False] = kd[inboard_bools==False]*vt_interp((y_vals[inboard_bools==False]))
+        vt_new[:,inboard_bools]        = -kd[inboard_bools]*vt_interp((y_vals[inboard_bools]))
+        vt_new[:,inboard_bools==False] = kd[inboard_bools==False]*vt_interp((y_vals[inboard_bools==False]))
         
-        prop_V_wake_ind[0,val_ids,0] = va_new  # axial induced velocity
-        prop_V_wake_ind[0,val_ids,1] = 0       # spanwise induced velocity; in line with prop, so 0
-        prop_V_wake_ind[0,val_ids,2] = vt_new  # vertical induced velocity     
+        prop_V_wake_ind[:,bool_in_range,0] = va_new  # axial induced velocity
+        prop_V_wake_ind[:,bool_in_range,1] = 0       # spanwise induced velocity; in line with prop, so 0
+        prop_V_wake_ind[:,bool_in_range,2] = vt_new  # vertical induced velocity     
         
     return prop_V_wake_ind
   
-- 
2.43.0


From ba398c929b06c25210b48fc8679d369429a403bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 067/173] fix: slipstreams of all networks reach the wings, not
 only those of the first

---
 .../Common/Fidelity_Zero/Lift/compute_RHS_matrix.py       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_RHS_matrix.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_RHS_matrix.py
index 8a107f0..ebf3117 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_RHS_matrix.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/compute_RHS_matrix.py
@@ -87,6 +87,9 @@ def compute_RHS_matrix(delta,phi,conditions,settings,geometry,propeller_wake_mod
     num_eval_pts     = len(VD.XC)
     for network in geometry.networks:
         if propeller_wake_model:
+            rot_V_wake_ind  = np.zeros((num_ctrl_pts,num_eval_pts,3))
+            prop_V_wake_ind = np.zeros((num_ctrl_pts,num_eval_pts,3))
+            
             # include the propeller wake effect on the wing
             if 'propellers' in network.keys(): 
                 # extract the propeller wake and compute resulting induced velocities data structure
@@ -111,11 +114,6 @@ def compute_RHS_matrix(delta,phi,conditions,settings,geometry,propeller_wake_mod
             Vy_ind_total = Vy_ind_total + prop_V_wake_ind[:,:,1] + rot_V_wake_ind[:,:,1]
             Vz_ind_total = Vz_ind_total + prop_V_wake_ind[:,:,2] + rot_V_wake_ind[:,:,2]
 
-            rhs = build_RHS(VD, conditions, settings, aoa_distribution, delta, phi, PSI_distribution,
-                            Vx_ind_total, Vy_ind_total, Vz_ind_total, V_distribution, dt)           
-            
-            return  rhs
-
     rhs = build_RHS(VD, conditions, settings, aoa_distribution, delta, phi, PSI_distribution,
                     Vx_ind_total, Vy_ind_total, Vz_ind_total, V_distribution, dt)
     
-- 
2.43.0


From e8c577f336f7bb8aecf9d576320dd42f01a9308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 068/173] fix: swept rotor blades can be analysed

---
 trunk/SUAVE/Components/Energy/Converters/Rotor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Rotor.py b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
index 3249c4a..3c22be0 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Rotor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
@@ -296,8 +296,8 @@ class Rotor(Energy_Component):
         # apply blade sweep to azimuthal position
         if np.any(np.array([sweep])!=0):
             use_2d_analysis     = True
-            sweep_2d            = np.repeat(sweep[:, None], (1,Na))
-            sweep_offset_angles = np.tan(sweep_2d/r_dim_2d)
+            sweep_2d            = np.tile(sweep[:, None], (1,Na))
+            sweep_offset_angles = np.arctan(sweep_2d/r_dim_2d)
             psi_2d             += sweep_offset_angles
 
         # Starting with uniform freestream
-- 
2.43.0


From f190fdf2352b97ea1b05b82722d5bc655aa3654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 069/173] fix: azimuthal rotor analysis of blades without
 section polars

---
 .../Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
index 40ad900..2673e67 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
@@ -86,6 +86,8 @@ def compute_airfoil_aerodynamics(beta,c,r,R,B,Wa,Wt,a,nu,airfoils,a_loc,ctrl_pts
         tc_1 = tc*100
         Cl_max_ref = -0.0009*tc_1**3 + 0.0217*tc_1**2 - 0.0442*tc_1 + 0.7005
         Cl_max_ref[Cl_max_ref<0.7] = 0.7
+        if use_2d_analysis:
+            Cl_max_ref = Cl_max_ref[:,None]
         Re_ref     = 9.*10**6
         Cl1maxp    = Cl_max_ref * ( Re / Re_ref ) **0.1
 
-- 
2.43.0


From 0135fac0921bdd504cf0ca9f22acfac5bf8202ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 070/173] fix: azimuthal rotor analysis of a single control
 point with commanded pitch

---
 trunk/SUAVE/Components/Energy/Converters/Rotor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Rotor.py b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
index 3c22be0..36b9c34 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Rotor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
@@ -351,9 +351,9 @@ class Rotor(Energy_Component):
             Ua     = V_2d + ua
 
             # 2-D blade pitch and radial distributions
-            if np.size(pitch_c)>1:
+            if np.ndim(pitch_c)>1:
                 # control variable is the blade pitch, repeat around azimuth
-                beta = np.repeat(total_blade_pitch[:,:,None], Na, axis=2)
+                beta = np.tile(total_blade_pitch[:,:,None],(ctrl_pts//len(total_blade_pitch),1,Na))
             else:
                 beta = np.tile(total_blade_pitch[None,:,None],(ctrl_pts,1,Na ))
 
-- 
2.43.0


From 561be3a039afeae2140bdc6b715e4c84b6796804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:40 +0000
Subject: [PATCH 071/173] fix: radial velocity of a rotor in a combined side
 and vertical stream

---
 trunk/SUAVE/Components/Energy/Converters/Rotor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Rotor.py b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
index 36b9c34..a757272 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Rotor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
@@ -322,7 +322,7 @@ class Rotor(Energy_Component):
             utz =  -Vz*np.sin(psi_2d)
             urz =   Vz*np.cos(psi_2d)
             uty =  -Vy*np.cos(psi_2d)
-            ury =   Vy*np.sin(psi_2d)
+            ury =  -Vy*np.sin(psi_2d)
 
             ut +=  (utz + uty)  # tangential velocity in direction of rotor rotation
             ur +=  (urz + ury)  # radial velocity (positive toward tip)
-- 
2.43.0


From f8867d582e340f6386056cad1cf1429cb7d8d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:48 +0000
Subject: [PATCH 072/173] fix: control surface that starts on a section break
 and ends outside the section

---
 .../Two_Dimensional/Planform/populate_control_sections.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
index 367378d..3c3230c 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
@@ -106,7 +106,7 @@ def populate_control_sections(wing):
                     append_CS = True                    
                     
                 # Case 8
-                elif (sf[0] > w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location) and (sf[0] < w_seg[i].percent_span_location):
+                elif (sf[0] >= w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location) and (sf[0] < w_seg[i].percent_span_location):
                     s_sf = np.array([sf[0],w_seg[i].percent_span_location]) 
                     append_CS = True
                     
-- 
2.43.0


From 34abba84ab6969b152dfd4533ef89bb3f3ba0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:48 +0000
Subject: [PATCH 073/173] fix: vortex lattice of fuselages and nacelles that
 are off the centreline

---
 .../Lift/generate_vortex_distribution.py      | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/generate_vortex_distribution.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/generate_vortex_distribution.py
index d12c148..0672ecf 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/generate_vortex_distribution.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/generate_vortex_distribution.py
@@ -1107,40 +1107,41 @@ def generate_fuselage_and_nacelle_vortex_distribution(VD,fus,n_cw,n_sw,precision
     wing_areas.append(np.array(fus_h_area, dtype=precision))
     wing_areas.append(np.array(fus_h_area, dtype=precision))
     
-    # store points of horizontal section of fuselage 
+    # store points of horizontal section of fuselage, mirrored about the plane of its own axis
+    y_mirror = 2*fus.origin[0][1]
     fhs_cs  = np.concatenate([fhs_cs, fhs_cs])
     fhs_xah = np.concatenate([fhs_xah, fhs_xah])
-    fhs_yah = np.concatenate([fhs_yah,-fhs_yah])
+    fhs_yah = np.concatenate([fhs_yah,y_mirror-fhs_yah])
     fhs_zah = np.concatenate([fhs_zah, fhs_zah])
     fhs_xbh = np.concatenate([fhs_xbh, fhs_xbh])
-    fhs_ybh = np.concatenate([fhs_ybh,-fhs_ybh])
+    fhs_ybh = np.concatenate([fhs_ybh,y_mirror-fhs_ybh])
     fhs_zbh = np.concatenate([fhs_zbh, fhs_zbh])
     fhs_xch = np.concatenate([fhs_xch, fhs_xch])
-    fhs_ych = np.concatenate([fhs_ych,-fhs_ych])
+    fhs_ych = np.concatenate([fhs_ych,y_mirror-fhs_ych])
     fhs_zch = np.concatenate([fhs_zch, fhs_zch])
     fhs_xa1 = np.concatenate([fhs_xa1, fhs_xa1])
-    fhs_ya1 = np.concatenate([fhs_ya1,-fhs_ya1])
+    fhs_ya1 = np.concatenate([fhs_ya1,y_mirror-fhs_ya1])
     fhs_za1 = np.concatenate([fhs_za1, fhs_za1])
     fhs_xa2 = np.concatenate([fhs_xa2, fhs_xa2])
-    fhs_ya2 = np.concatenate([fhs_ya2,-fhs_ya2])
+    fhs_ya2 = np.concatenate([fhs_ya2,y_mirror-fhs_ya2])
     fhs_za2 = np.concatenate([fhs_za2, fhs_za2])
     fhs_xb1 = np.concatenate([fhs_xb1, fhs_xb1])
-    fhs_yb1 = np.concatenate([fhs_yb1,-fhs_yb1])    
+    fhs_yb1 = np.concatenate([fhs_yb1,y_mirror-fhs_yb1])    
     fhs_zb1 = np.concatenate([fhs_zb1, fhs_zb1])
     fhs_xb2 = np.concatenate([fhs_xb2, fhs_xb2])
-    fhs_yb2 = np.concatenate([fhs_yb2,-fhs_yb2])            
+    fhs_yb2 = np.concatenate([fhs_yb2,y_mirror-fhs_yb2])            
     fhs_zb2 = np.concatenate([fhs_zb2, fhs_zb2])
     fhs_xac = np.concatenate([fhs_xac, fhs_xac])
-    fhs_yac = np.concatenate([fhs_yac,-fhs_yac])
+    fhs_yac = np.concatenate([fhs_yac,y_mirror-fhs_yac])
     fhs_zac = np.concatenate([fhs_zac, fhs_zac])            
     fhs_xbc = np.concatenate([fhs_xbc, fhs_xbc])
-    fhs_ybc = np.concatenate([fhs_ybc,-fhs_ybc])
+    fhs_ybc = np.concatenate([fhs_ybc,y_mirror-fhs_ybc])
     fhs_zbc = np.concatenate([fhs_zbc, fhs_zbc])
     fhs_xc  = np.concatenate([fhs_xc , fhs_xc ])
-    fhs_yc  = np.concatenate([fhs_yc ,-fhs_yc])
+    fhs_yc  = np.concatenate([fhs_yc ,y_mirror-fhs_yc])
     fhs_zc  = np.concatenate([fhs_zc , fhs_zc ])     
     fhs_x   = np.concatenate([fhs_x  , fhs_x  ])
-    fhs_y   = np.concatenate([fhs_y  ,-fhs_y ])
+    fhs_y   = np.concatenate([fhs_y  ,y_mirror-fhs_y ])
     fhs_z   = np.concatenate([fhs_z  , fhs_z  ])      
     
     if model_geometry == True:
-- 
2.43.0


From 320127387f99add8d28575f39f7785b595f02f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:48 +0000
Subject: [PATCH 074/173] fix: lift and drag of a wing include those of its
 discretized control surfaces

---
 trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py b/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
index e6d76ca..c7fd79c 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
@@ -698,4 +698,14 @@ def calculate_VLM(conditions,settings,geometry):
             wing_induced_angle[wing.tag] = alpha_i[i]
         i+=1
 
+    # Control surfaces that are discretized follow the wings, they belong to the wing that carries them
+    for surface in geometry.vortex_distribution.VLM_wings.values():
+        if surface.is_a_control_surface:
+            tag = surface.tag.rsplit('__cs_id_',1)[0]
+            ref = geometry.wings[tag].areas.reference
+            n   = 2 if surface.symmetric else 1
+            wing_lifts[tag] = wing_lifts[tag] + np.atleast_2d(np.sum(dim_wing_lifts[:,i:(i+n)],axis=1)).T/ref
+            wing_drags[tag] = wing_drags[tag] + np.atleast_2d(np.sum(dim_wing_drags[:,i:(i+n)],axis=1)).T/ref
+            i += n
+
     return total_lift_coeff, total_induced_drag_coeff, total_side_coef, wing_lifts, wing_drags, cl_y, cdi_y, wing_induced_angle, CPi,CYMTOT,CRMTOT, CM
-- 
2.43.0


From 7c2f6aa93cb2e464ded7b0a39ada34e544c2e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 075/173] fix: vortex drag of the lifting line

---
 .../Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 03ce3dd..3e572a7 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -149,17 +149,8 @@ def lifting_line(conditions,settings,geometry):
     # The 3-D Coefficient of lift
     CL = A[:,0]*np.pi*AR
     
-    # Find the sectional coefficients of lift
-    Cl = b*np.cumsum(4*A*np.sin(n*thetan),axis=1)/c
-    
-    # induced alpha
-    alpha_i = np.cumsum(n*A*np.sin(n*A)/np.sin(thetan),axis=1)
-    
-    # Sectional vortex drag
-    Cdv = Cl*alpha_i
-    
     # Total vortex drag
-    CDv = np.sum(Cdv*AR*etam,axis=1)
+    CDv = np.pi*AR*np.sum(n*A**2,axis=1)
     
     #############
     # Profile drag of a 2-D section
-- 
2.43.0


From e3063e12d8955b2c58c473cb2fd7c76825fbcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 076/173] fix: lifting line twists the root by the root twist
 and the tip by the tip twist

---
 trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 3e572a7..6e5e172 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -66,8 +66,8 @@ def lifting_line(conditions,settings,geometry):
     AR          = wing.aspect_ratio
     MAC         = wing.chords.mean_aerodynamic
     taper       = wing.taper
-    tip_twist   = wing.twists.root
-    root_twist  = wing.twists.tip 
+    tip_twist   = wing.twists.tip
+    root_twist  = wing.twists.root
     root_chord  = wing.chords.root
     tip_chord   = wing.chords.tip      
     r           = settings.number_of_stations # Number of divisions
-- 
2.43.0


From 6ec6d06db30605198cdeb6de0f9e2a740a7ce104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 077/173] fix: chord and twist of lifting line stations on a
 section break

---
 trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 6e5e172..0018664 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -114,7 +114,7 @@ def lifting_line(conditions,settings,geometry):
                 T2 = wing.Segments[segment_keys[i_seg+1]].twist
                 
                 
-            bools  =  np.logical_and(etan>X1,etan<X2)
+            bools  =  np.logical_and(etan>=X1,etan<X2)
                 
             c[bools]    = (L1 + (etan[bools]-X1)*(L2-L1)/(X2-X1)) * root_chord
             ageo[bools] = (T1 + (etan[bools]-X1)*(T2-T1)/(X2-X1))
-- 
2.43.0


From ac99cffa50b1325c5b5a3e4c92c90e4ed6f8c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:33 +0000
Subject: [PATCH 078/173] fix: lifting line trains every wing on its own
 coefficients

---
 trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
index 9db0c0a..242aecf 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
@@ -207,8 +207,8 @@ class Lifting_Line(Aerodynamics):
         CL  = np.zeros_like(AoA)
         CDi = np.zeros_like(AoA)
         
-        wing_CLs = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA))
-        wing_CDis = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA)) 
+        wing_CLs = Data((tag, np.zeros_like(AoA)) for tag in geometry.wings.keys())
+        wing_CDis = Data((tag, np.zeros_like(AoA)) for tag in geometry.wings.keys()) 
 
         # condition input, local, do not keep
         konditions              = Data()
-- 
2.43.0


From 0c89d84631f0ed8e3f0ba2874e1918c2ca6d53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:33 +0000
Subject: [PATCH 079/173] fix: lifting line induced drag of the wings

---
 trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
index 242aecf..38928f3 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
@@ -281,7 +281,7 @@ class Lifting_Line(Aerodynamics):
         
         for wing in wing_CL_data.keys():
             wing_cl_surrogates[wing]  = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,1))
-            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,2))
+            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CDi_data[wing] ,2))
 
         self.surrogates.lift_coefficient       = cl_surrogate
         self.surrogates.drag_coefficient       = cdi_surrogate
-- 
2.43.0


From 2715c34ba8262605f659cdf00a5c8676466148c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 080/173] fix: supersonic lift wave drag of batches that start
 subsonic

---
 .../Supersonic_Zero/Drag/compressibility_drag_total.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
index 7809bf5..31df4c3 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
@@ -186,7 +186,7 @@ def lift_wave_drag(conditions,configuration,wing,Sref_main):
     cd_lift_wave = wave_drag_lift(conditions,configuration,wing)
 
     # Pack supersonic results into correct elements
-    cd_c_l[mach >= 1.01] = cd_lift_wave[0:len(mach[mach >= 1.01]),0]
+    cd_c_l[mach >= 1.01] = cd_lift_wave[mach >= 1.01]
 
     # Convert coefficient to full aircraft value
     cd_c_l = cd_c_l*wing.areas.reference/Sref_main
-- 
2.43.0


From 1f8ad841048fa9da5e277e272c2778952e02fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 081/173] fix: pylon drag of vehicles without network, averages
 over the nacelles

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_pylon.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
index 7db2212..62b871e 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
@@ -49,7 +49,7 @@ def parasite_drag_pylon(state,settings,geometry):
     conditions = state.conditions 
     
     pylon_factor        = 0.20 # 20% of nacelle drag
-    n_networks          =  len(geometry.networks)  # number of propulsive system in vehicle (NOT # of ENGINES)
+    n_nacelles          = max(len(geometry.nacelles),1)
     pylon_parasite_drag = 0.00
     pylon_wetted_area   = 0.00
     pylon_cf            = 0.00
@@ -67,10 +67,10 @@ def parasite_drag_pylon(state,settings,geometry):
         pylon_rey_fact      += conditions.aerodynamics.drag_breakdown.parasite[nacelle.tag].reynolds_factor
         pylon_FF            += conditions.aerodynamics.drag_breakdown.parasite[nacelle.tag].form_factor
     
-    pylon_cf            /= n_networks           
-    pylon_compr_fact    /= n_networks   
-    pylon_rey_fact      /= n_networks     
-    pylon_FF            /= n_networks   
+    pylon_cf            /= n_nacelles           
+    pylon_compr_fact    /= n_nacelles   
+    pylon_rey_fact      /= n_nacelles     
+    pylon_FF            /= n_nacelles   
     
     # dump data to conditions
     pylon_result = Data(
-- 
2.43.0


From 7d89d48a3fa8beb174595d326294e66bb76f020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 082/173] fix: wing form factor of unswept wings at Mach 1

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_wing.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
index a607f7b..bd17771 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
@@ -233,7 +233,7 @@ def compute_parasite_drag(re,mac_w,Mc,Tc,xtu,xtl,sweep_w,t_c_w,Sref,Swet,C):
     cos_sweep = np.cos(sweep_w)
     cos2      = cos_sweep*cos_sweep
     
-    ind = Mc <= 1.
+    ind = Mc < 1.
     
     k_w = np.ones_like(Mc)
     k_w[ind] = 1. + ( 2.* C * (t_c_w * cos2) ) / ( np.sqrt(1.- Mc[ind]*Mc[ind] * cos2) )  \
-- 
2.43.0


From 2aa30d93ad4ce2d5fbc63cbab762b2f8b7f0dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 083/173] fix: exposed root chord of symmetric wings

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_wing.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
index bd17771..21f42e4 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
@@ -144,6 +144,8 @@ def parasite_drag_wing(state,settings,geometry):
         
         chord_root = wing.chords.root
         chord_tip  = wing.chords.tip
+        if wing.symmetric:
+            span_w = span_w/2
         wing_root     = chord_root + exposed_root_chord_offset*((chord_tip - chord_root)/span_w)
         
         if recalculate_total_wetted_area or wing.areas.wetted==0.:  
-- 
2.43.0


From 9b18070a933f274a724f6fe67fb288a9cc3295c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 084/173] fix: wave drag does not freeze the leading edge sweep
 of the wing

---
 .../Supersonic_Zero/Drag/wave_drag_volume_raymer.py        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/wave_drag_volume_raymer.py b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/wave_drag_volume_raymer.py
index 9caacdf..f125278 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/wave_drag_volume_raymer.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/wave_drag_volume_raymer.py
@@ -47,10 +47,11 @@ def wave_drag_volume_raymer(vehicle,mach,scaling_factor):
     
     main_wing = vehicle.wings.main_wing
     # estimation of leading edge sweep if not defined 
-    if main_wing.sweeps.leading_edge == None:                           
-        main_wing.sweeps.leading_edge  = convert_sweep(main_wing,old_ref_chord_fraction = 0.25 ,new_ref_chord_fraction = 0.0) 
+    LE_sweep = main_wing.sweeps.leading_edge
+    if LE_sweep == None:
+        LE_sweep = convert_sweep(main_wing,old_ref_chord_fraction = 0.25 ,new_ref_chord_fraction = 0.0) 
         
-    LE_sweep = main_wing.sweeps.leading_edge / Units.deg
+    LE_sweep = LE_sweep / Units.deg
     L        = vehicle.total_length
     Ae       = vehicle.maximum_cross_sectional_area
     S        = vehicle.reference_area
-- 
2.43.0


From 007f075808c11db969c2e5d406329e69895eb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:35 +0000
Subject: [PATCH 085/173] fix: flap lift increment is based on the wing that
 carries the flap

---
 .../Aerodynamics/Fidelity_Zero/Lift/compute_max_lift_coeff.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Lift/compute_max_lift_coeff.py b/trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Lift/compute_max_lift_coeff.py
index 56312a9..d163987 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Lift/compute_max_lift_coeff.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Fidelity_Zero/Lift/compute_max_lift_coeff.py
@@ -123,7 +123,7 @@ def compute_max_lift_coeff(state,settings,geometry):
             flap_chord = wing.control_surfaces.flap.chord_fraction # correct !!! 
             flap_angle = wing.control_surfaces.flap.deflection
             Swf        = wing.areas.affected  # portion of wing area with flaps
-            dcl_flap   = compute_flap_lift(tc,flap_type,flap_chord,flap_angle,sweep,Sref,Swf)
+            dcl_flap   = compute_flap_lift(tc,flap_type,flap_chord,flap_angle,sweep,Swing,Swf)
         else:
             dcl_flap = 0.0
 
-- 
2.43.0


From a2fe954f08b0f81de036f79db6cad40bdade65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 086/173] fix: general aviation landing gear weight does not
 write to the Data class

---
 .../Weights/Correlations/General_Aviation/landing_gear.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
index bc6c142..439ab8e 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
@@ -41,7 +41,7 @@ def landing_gear(landing_weight, Nult, strut_length_main, strut_length_nose):
     nose_weight = .125*((Nult*W_l)**.566)*(l_n/12.)**.845
 
     #pack outputs
-    output = Data
+    output = Data()
     output.main = main_weight*Units.lbs
     output.nose = nose_weight*Units.lbs
 
-- 
2.43.0


From c15d5a2d914dc01a5e3524b15e0c2cb2451d35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 087/173] fix: weight analysis of blended wing bodies can be
 evaluated

---
 trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
index 15bebc7..bbb2774 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
@@ -28,7 +28,7 @@ import warnings
 # ----------------------------------------------------------------------
 
 ## @ingroup Methods-Weights-Correlations-BWB
-def empty(vehicle):
+def empty(vehicle,settings=None):
     """ This is for a BWB aircraft configuration.
 
     Assumptions:
-- 
2.43.0


From 518f36e674c452146ec3129a8f2010e2da260b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 088/173] fix: FLOPS wing weight of vehicles with several
 fuselages

---
 trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
index 2162c05..67acc36 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
@@ -213,7 +213,7 @@ def wing_weight_FLOPS(vehicle, wing, WPOD, complexity, settings, num_main_wings)
     ULF     = vehicle.envelope.ultimate_load
     if len(vehicle.fuselages) == 1:
         CAYF    = 1  # Multiple fuselage factor [1 one fuselage, 0.5 multiple fuselages]
-    elif len(vehicle.fuselage) > 1:
+    elif len(vehicle.fuselages) > 1:
         CAYF    = 0.5
     else:
         raise NotImplementedError
-- 
2.43.0


From 0c5f0e69665a4021fb1d2e8196bffccef276c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 089/173] fix: total systems weight of FLOPS and Raymer in
 kilograms

---
 trunk/SUAVE/Methods/Weights/Correlations/FLOPS/systems.py  | 2 +-
 trunk/SUAVE/Methods/Weights/Correlations/Raymer/systems.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/systems.py b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/systems.py
index 2e0ab31..0a5d423 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/systems.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/systems.py
@@ -126,5 +126,5 @@ def systems_FLOPS(vehicle):
     output.wt_ac                = WAC * Units.lbs
     output.wt_furnish           = WFURN * Units.lbs
     output.wt_anti_ice          = WAI * Units.lbs
-    output.wt_systems           = WSC + WAPU + WIN + WHYD + WELEC + WAVONC + WFURN + WAC + WAI
+    output.wt_systems           = (WSC + WAPU + WIN + WHYD + WELEC + WAVONC + WFURN + WAC + WAI) * Units.lbs
     return output
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Raymer/systems.py b/trunk/SUAVE/Methods/Weights/Correlations/Raymer/systems.py
index 6e29c41..83e45c1 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Raymer/systems.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Raymer/systems.py
@@ -115,5 +115,5 @@ def systems_Raymer(vehicle):
     output.wt_ac                = WAC * Units.lbs
     output.wt_furnish           = WFURN * Units.lbs
     output.wt_anti_ice          = WAI * Units.lbs
-    output.wt_systems           = WSC + WAPU + WIN + WHYD + WELEC + WAVONC + WFURN + WAC + WAI
+    output.wt_systems           = (WSC + WAPU + WIN + WHYD + WELEC + WAVONC + WFURN + WAC + WAI) * Units.lbs
     return output
-- 
2.43.0


From 57d18f3764bf1fbd7c6379275c0f73ceec9b38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:33 +0000
Subject: [PATCH 090/173] fix: propulsion center of gravity weighs every
 network by its own mass and averages its origins

---
 .../Center_of_Gravity/compute_component_centers_of_gravity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index c7647a2..ddd689e 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -80,13 +80,13 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     for net in vehicle.networks:
         net.mass_properties.center_of_gravity[0][0] = net.engine_length*.5
         network_mass                               += net.mass_properties.mass
-        network_moment                             += network_mass*(np.sum(np.array(net.origin),axis=0) +
+        network_moment                             += net.mass_properties.mass*(np.mean(np.array(net.origin),axis=0) +
                                                                          net.mass_properties.center_of_gravity)
 
         for key,Comp in net.items():
             if isinstance(Comp,Energy_Component):
                 network_moment += net[key].mass_properties.mass*(np.sum(np.array(net[key].origin),axis=0) +
-                                                                     net[key].mass_properties.center_of_gravity)
+                                                                     len(net[key].origin)*net[key].mass_properties.center_of_gravity)
                 network_mass   += net[key].mass_properties.mass*len(net[key].origin)
 
     if network_mass!= 0.:
-- 
2.43.0


From a5336956ebacfd2aa4e1195a604a675d310b130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:33 +0000
Subject: [PATCH 091/173] fix: hydraulics are placed by the main wing, not by
 the wing listed last

---
 .../Center_of_Gravity/compute_component_centers_of_gravity.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index ddd689e..3a2b4f3 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -175,7 +175,7 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     electrical_systems.mass_properties.center_of_gravity[0][0] = 0.0
     
     hydraulics.origin[0][0]                                    = .75*(vehicle.wings.main_wing.origin[0][0] + \
-                                                                      wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
+                                                                      vehicle.wings.main_wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
                                                                      length_scale*.95
     hydraulics.mass_properties.center_of_gravity[0][0]         = 0.0       
     
-- 
2.43.0


From c831f75d5fd2e062905b655677bc6cbfea1020cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:33 +0000
Subject: [PATCH 092/173] fix: fuel does not share the center of gravity array
 of the main wing

---
 .../Center_of_Gravity/compute_component_centers_of_gravity.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index 3a2b4f3..0d8d72e 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -164,7 +164,7 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     optionals.mass_properties.center_of_gravity[0][0]          = 0.0   
         
     fuel.origin[0][0]                                          = vehicle.wings.main_wing.origin[0][0] 
-    fuel.mass_properties.center_of_gravity                     = vehicle.wings.main_wing.mass_properties.center_of_gravity
+    fuel.mass_properties.center_of_gravity                     = vehicle.wings.main_wing.mass_properties.center_of_gravity*1.
     
     control_systems.origin[0][0]                               = vehicle.wings.main_wing.origin[0][0] 
     control_systems.mass_properties.center_of_gravity[0][0]    = vehicle.wings.main_wing.mass_properties.center_of_gravity[0][0] + \
-- 
2.43.0


From 269d4f26bca006684e2f5d1ebcf721a5322b4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:33 +0000
Subject: [PATCH 093/173] fix: main landing gear is placed by the moment of
 everything but itself

---
 .../compute_component_centers_of_gravity.py                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index 0d8d72e..dcf3c6f 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -186,9 +186,10 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     nose_gear.mass_properties.center_of_gravity[0][0]          = 0.0   
     
     # Main gear
-    moment_sans_main = vehicle.center_of_gravity()[0][0]*(vehicle.sum_mass()-main_gear.mass_properties.mass)
+    main_gear_cg     = np.mean(np.array(main_gear.origin),axis=0)[0] + np.array(main_gear.mass_properties.center_of_gravity)[0][0]
+    moment_sans_main = vehicle.center_of_gravity()[0][0]*vehicle.sum_mass() - main_gear_cg*main_gear.mass_properties.mass
     
     main_gear_location = moment_sans_main/(vehicle.mass_properties.takeoff-main_gear.mass_properties.mass)/(1-nose_load)
     main_gear.origin[0][0]                                     = main_gear_location
-    main_gear.mass_properties.center_of_gravity                = 0.0
+    main_gear.mass_properties.center_of_gravity[0][0]          = 0.0
     
-- 
2.43.0


From deabcc650e6b4d5f0c2c4f51690bbaddcd58de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:27 +0000
Subject: [PATCH 094/173] fix: landing gear mass counts in the mass of the
 vehicle

---
 trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py       | 4 ++--
 trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py     | 8 ++++----
 .../Weights/Correlations/Common/weight_transport.py       | 4 ++--
 .../Weights/Correlations/General_Aviation/empty.py        | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
index 707e6a7..9998da7 100644
--- a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
@@ -340,10 +340,10 @@ def empty(config,
     #-------------------------------------------------------------------------------
     if not hasattr(config.landing_gear, 'nose'):
         config.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    config.landing_gear.nose.mass      = 0.0
+    config.landing_gear.nose.mass_properties.mass      = 0.0
     if not hasattr(config.landing_gear, 'main'):
         config.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
-    config.landing_gear.main.mass      = output.landing_gear
+    config.landing_gear.main.mass_properties.mass      = output.landing_gear
 
     #-------------------------------------------------------------------------------
     # Fuselage  Weight
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
index bbb2774..4d4763b 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
@@ -201,10 +201,10 @@ def empty(vehicle,settings=None):
     avionics                = SUAVE.Components.Energy.Peripherals.Avionics()
     optionals               = SUAVE.Components.Physical_Component()
 
-    vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
-    vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear  
 
     control_systems.mass_properties.mass    = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass = output.systems_breakdown.electrical
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
index 69529ae..c0037d9 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
@@ -395,10 +395,10 @@ def empty_weight(vehicle, settings=None, method_type='New SUAVE'):
 
     if not hasattr(vehicle.landing_gear, 'nose'):
         vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
     if not hasattr(vehicle.landing_gear, 'main'):
         vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear  
 
     control_systems.mass_properties.mass        = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass     = output.systems_breakdown.electrical
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
index 74b2efd..0492738 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
@@ -386,10 +386,10 @@ def empty(vehicle):
 
     if not hasattr(vehicle.landing_gear, 'nose'):
         vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
     if not hasattr(vehicle.landing_gear, 'main'):
         vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear 
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear 
     
     control_systems.mass_properties.mass    = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass = output.systems_breakdown.electrical
-- 
2.43.0


From fb63d3fff98f9e24ffad3e77f3cd39219e7a091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 095/173] fix: t-tail flag of the wing counts in the vertical
 tail weight

---
 .../Weights/Correlations/General_Aviation/tail_vertical.py      | 2 +-
 .../Methods/Weights/Correlations/Transport/tail_vertical.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
index 65fb3e0..b2b064c 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
@@ -50,7 +50,7 @@ def tail_vertical(S_v, AR_v, sweep_v, q_c, taper_v, t_c_v, Nult,TOW,t_tail, rudd
     q     = q_c /(Units.force_pound / Units.ft**2.)
 
     # Determine weight of the vertical portion of the tail
-    if t_tail == "yes": 
+    if t_tail == True or t_tail == "yes": 
         T_tail_factor = 1.# Weight of vertical portion of the T-tail is 25% more than a conventional tail
     else: 
         T_tail_factor = 0.
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py b/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
index 3b4c56a..54807a7 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
@@ -55,7 +55,7 @@ def tail_vertical(vehicle, wing, rudder_fraction=0.25):
     Sref    = vehicle.reference_area / Units.ft ** 2  # Convert from meters squared to ft squared
     t_c_v   = wing.thickness_to_chord
     # Determine weight of the vertical portion of the tail
-    if wing.t_tail == "yes":
+    if wing.t_tail == True or wing.t_tail == "yes":
         T_tail_factor = 1.25  # Weight of vertical portion of the T-tail is 25% more than a conventional tail
     else:
         T_tail_factor = 1.0
-- 
2.43.0


From 1301fe8a1e6527ea391234aab12dada0bcc3412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 096/173] fix: human powered weights of vehicles with a
 fuselage

---
 trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
index 0ea6d34..56a2650 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
@@ -134,7 +134,7 @@ def empty(vehicle,settings=None):
     else: 
         Ltb     = vehicle.Ltb  
         wt_tb   = fuselage.fuselage(S_h,qm,Ltb)
-        vehicle.Fuselages['fuselage'].mass_properties.mass = wt_tb
+        vehicle.fuselages['fuselage'].mass_properties.mass = wt_tb
     
     weight                 = Data()
     weight.wing            = wt_wing
-- 
2.43.0


From 414ca91e5d6ef999f25ece6789624764434caf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:23 +0000
Subject: [PATCH 097/173] fix: landing gear of a vehicle counts in its mass and
 center of gravity

---
 trunk/SUAVE/Vehicle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/SUAVE/Vehicle.py b/trunk/SUAVE/Vehicle.py
index c6ad925..d1da70d 100644
--- a/trunk/SUAVE/Vehicle.py
+++ b/trunk/SUAVE/Vehicle.py
@@ -202,6 +202,9 @@ class Vehicle(Data):
             item = self[key]
             if isinstance(item,Physical_Component.Container):
                 total += item.sum_mass()
+            elif isinstance(item,Components.Landing_Gear.Landing_Gear):
+                # a landing gear that holds the main and the nose landing gear
+                total += Physical_Component.Container(item).sum_mass()
 
         return total
     
@@ -231,6 +234,8 @@ class Vehicle(Data):
             item = self[key]
             if isinstance(item,Physical_Component.Container):
                 total += item.total_moment()
+            elif isinstance(item,Components.Landing_Gear.Landing_Gear):
+                total += Physical_Component.Container(item).total_moment()
                 
         mass = self.sum_mass()
         if mass ==0:
-- 
2.43.0


From b644a1eb3b46fbb93715d86435c7a081b37ef5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:45 +0000
Subject: [PATCH 098/173] fix: flap ratio of the main wing is kept by FLOPS
 weights and has its default in Raymer weights

---
 .../Methods/Weights/Correlations/Common/weight_transport.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
index c0037d9..d81f632 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
@@ -138,13 +138,15 @@ def empty_weight(vehicle, settings=None, method_type='New SUAVE'):
             raise ValueError("FLOPS requires a design range for sizing!")
         if not hasattr(vehicle, 'design_cruise_alt'):
             raise ValueError("FLOPS requires a cruise altitude for sizing!")
+
+    if method_type == 'FLOPS Simple' or method_type == 'FLOPS Complex' or method_type == 'Raymer':
         if not hasattr(vehicle, 'flap_ratio'):
             if vehicle.systems.accessories == "sst":
                 flap_ratio = 0.22
             else:
                 flap_ratio = 0.33
             for wing in vehicle.wings:
-                if isinstance(wing, Wings.Main_Wing):
+                if isinstance(wing, Wings.Main_Wing) and not hasattr(wing, 'flap_ratio'):
                     wing.flap_ratio = flap_ratio
 
     # Set the factors
-- 
2.43.0


From 32183d3d570c6290f80cce6586131614e5b01f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:44 +0000
Subject: [PATCH 099/173] fix: wetted area of a segmented wing counts both
 sides

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index 87c380c..abae28c 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -94,7 +94,7 @@ def wing_segmented_planform(wing, overwrite_reference = False):
     
     # Calculate the weighted area, this should not include any unexposed area 
     A_wets = 2*(1+0.2*t_cs[:-1])*As
-    wet_area = np.sum(A_wets)
+    wet_area = np.sum(A_wets)*(1+sym)
     
     # Calculate the wing area
     ref_area = np.sum(As)*(1+sym)
-- 
2.43.0


From f4c9e5570bae62dbd566c3b46ac19e6831eedc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:44 +0000
Subject: [PATCH 100/173] fix: aerodynamic center of a vertical segmented wing

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index abae28c..5d35b56 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -150,10 +150,15 @@ def wing_segmented_planform(wing, overwrite_reference = False):
 
     single_side_aerodynamic_center = (np.array(aerodynamic_center)*1.)
     single_side_aerodynamic_center[0] = single_side_aerodynamic_center[0] - MAC*.25    
+    aerodynamic_center[0] = single_side_aerodynamic_center[0]
+    
+    # A vertical wing spans along z
+    if wing.vertical:
+        single_side_aerodynamic_center[1:] = single_side_aerodynamic_center[:0:-1].copy()
+        aerodynamic_center[1:]             = aerodynamic_center[:0:-1].copy()
+        
     if sym== True:
         aerodynamic_center[1] = 0
-        
-    aerodynamic_center[0] = single_side_aerodynamic_center[0]
     
     # Total length for supersonics
     total_length = np.tan(le_sweep_total)*semispan + chords[-1]*RC
-- 
2.43.0


From 3cc5ee7a65c6d8a0621b13bed3153577f337ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:44 +0000
Subject: [PATCH 101/173] fix: sweep, aerodynamic center and length of a
 trapezoidal wing with one side

---
 .../Geometry/Two_Dimensional/Planform/wing_planform.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
index 76060dd..920f898 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
@@ -72,6 +72,7 @@ def wing_planform(wing):
     
     # calculate
     span       = (ar*sref)**.5
+    sides      = 2. if symmetric else 1.
     span_total = span/np.cos(dihedral)
     chord_root = 2*sref/span/(1+taper)
     chord_tip  = taper * chord_root
@@ -82,10 +83,10 @@ def wing_planform(wing):
     mac = 2./3.*( chord_root+chord_tip - chord_root*chord_tip/(chord_root+chord_tip) )
     
     # calculate leading edge sweep
-    le_sweep = np.arctan( np.tan(sweep) - (4./ar)*(0.-0.25)*(1.-taper)/(1.+taper) )
+    le_sweep = np.arctan( np.tan(sweep) - (2.*sides/ar)*(0.-0.25)*(1.-taper)/(1.+taper) )
     
     # estimating aerodynamic center coordinates
-    y_coord = span / 6. * (( 1. + 2. * taper ) / (1. + taper))
+    y_coord = span / (3.*sides) * (( 1. + 2. * taper ) / (1. + taper))
     x_coord = mac * 0.25 + y_coord * np.tan(le_sweep)
     z_coord = y_coord * np.tan(dihedral)
         
@@ -98,7 +99,7 @@ def wing_planform(wing):
         y_coord = 0    
     
     # Total length calculation
-    total_length = np.tan(le_sweep)*span/2. + chord_tip
+    total_length = np.tan(le_sweep)*span/sides + chord_tip
         
     # Computing flap geometry
     affected_area = 0.
-- 
2.43.0


From 60193a4ee105d615230b5b242c5ddf75c70ffb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:44 +0000
Subject: [PATCH 102/173] fix: fuselage seats leave out the space fore and aft
 of the cabin

---
 .../Geometry/Two_Dimensional/Planform/fuselage_planform.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
index f90f656..3024f98 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
@@ -92,7 +92,7 @@ def fuselage_planform(fuselage):
             cabin_length = 1.
         
         # Now we can calculate the number of passengers
-        number_seats    = np.round(cabin_length * seats_abreast / seat_pitch)
+        number_seats    = np.round((cabin_length - forward_extra - aft_extra) * seats_abreast / seat_pitch)
         if number_seats <=0: number_seats=0
     
     wetted_area = 0.0
-- 
2.43.0


From 090f25513639ca9b48103e15443d3d26e07628e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:39 +0000
Subject: [PATCH 103/173] fix: dimensional origin of a network without an
 origin of its own

---
 .../Two_Dimensional/Planform/rescale_non_dimensional.py         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/rescale_non_dimensional.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/rescale_non_dimensional.py
index 5922106..175ad36 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/rescale_non_dimensional.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/rescale_non_dimensional.py
@@ -124,8 +124,6 @@ def set_origin_dimensional(vehicle):
         n = int(net.number_of_engines)
         non_dims  = net.non_dimensional_origin
         
-        net.origin.clear()
-        
         origin = np.zeros((n,3))
     
         for eng in range(0,n):
-- 
2.43.0


From 0778903d16cff8bff8a7532002a85852bcf5d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 104/173] fix: airfoil titles that start with a digit and
 points with leading blanks

---
 .../Cross_Section/Airfoil/import_airfoil_geometry.py       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
index 9f05bb8..2e01a67 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
@@ -56,10 +56,9 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
     # Extract data
     data_block = f.readlines()
     try:
-        # Check for header block
-        first_element = float(data_block[0][0])
-        if first_element == 1.:
-            lednicer_format = False
+        # Check for header block, a file without one starts with the coordinates of a point
+        [float(x) for x in data_block[0].replace(',',' ').split()[:2]][1]
+        lednicer_format = False
     except:
         # Check for format line and remove header block
         format_line = data_block[1]
-- 
2.43.0


From 70a43b389681ec5a4f7c44328e9b528461d674a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 105/173] fix: blank lines and commas without a blank in Selig
 airfoil files

---
 .../Airfoil/import_airfoil_geometry.py        | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
index 2e01a67..ba77fa2 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
@@ -108,6 +108,9 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
         x_lo_surf      = []
         y_lo_surf      = []
         
+        # blank lines hold no point
+        data_block     = [line for line in data_block if line.strip() != '']
+        
         # Loop through each value: append to each column
         upper_surface_flag = True
         for line_count , line in enumerate(data_block): 
@@ -115,30 +118,30 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
             line_check = data_block[line_count].strip()
             
             # Remove any commas
-            line_check = line_check.replace(',','')
+            line_check = line_check.replace(',',' ')
             
             if float(line_check.split()[0]) == 0.:
-                x_up_surf_rev.append(float(data_block[line_count].strip().replace(',','').split()[0])) 
-                y_up_surf_rev.append(float(data_block[line_count].strip().replace(',','').split()[1]))
+                x_up_surf_rev.append(float(data_block[line_count].strip().replace(',',' ').split()[0])) 
+                y_up_surf_rev.append(float(data_block[line_count].strip().replace(',',' ').split()[1]))
 
-                x_lo_surf.append(float(data_block[line_count].strip().replace(',','').split()[0])) 
-                y_lo_surf.append(float(data_block[line_count].strip().replace(',','').split()[1])) 
+                x_lo_surf.append(float(data_block[line_count].strip().replace(',',' ').split()[0])) 
+                y_lo_surf.append(float(data_block[line_count].strip().replace(',',' ').split()[1])) 
 
                 upper_surface_flag = False
                 continue
 
             if upper_surface_flag:
-                x_up_surf_rev.append(float(data_block[line_count].strip().replace(',','').split()[0])) 
-                y_up_surf_rev.append(float(data_block[line_count].strip().replace(',','').split()[1])) 
+                x_up_surf_rev.append(float(data_block[line_count].strip().replace(',',' ').split()[0])) 
+                y_up_surf_rev.append(float(data_block[line_count].strip().replace(',',' ').split()[1])) 
             else:                              
-                x_lo_surf.append(float(data_block[line_count].strip().replace(',','').split()[0])) 
-                y_lo_surf.append(float(data_block[line_count].strip().replace(',','').split()[1]))
+                x_lo_surf.append(float(data_block[line_count].strip().replace(',',' ').split()[0])) 
+                y_lo_surf.append(float(data_block[line_count].strip().replace(',',' ').split()[1]))
             
             
             if upper_surface_flag ==True:
                 # check if next line flips without x-coordinate going to 0
                 next_line  = data_block[line_count+1].strip()
-                next_line  = next_line.replace(',','')
+                next_line  = next_line.replace(',',' ')
             
                 if next_line.split()[0]>line_check.split()[0] and float(next_line.split()[0]) >0.:
                     upper_surface_flag = False
-- 
2.43.0


From 0f6f347168eac2df7c89294be07660107eb94d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 106/173] fix: leading edge of Selig airfoils without a point
 at zero

---
 .../Cross_Section/Airfoil/import_airfoil_geometry.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
index ba77fa2..682ef36 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
@@ -143,7 +143,10 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
                 next_line  = data_block[line_count+1].strip()
                 next_line  = next_line.replace(',',' ')
             
-                if next_line.split()[0]>line_check.split()[0] and float(next_line.split()[0]) >0.:
+                if float(next_line.split()[0])>float(line_check.split()[0]) and float(next_line.split()[0]) >0.:
+                    # the two surfaces share the leading edge
+                    x_lo_surf.append(x_up_surf_rev[-1])
+                    y_lo_surf.append(y_up_surf_rev[-1])
                     upper_surface_flag = False
                 
         # Upper surface values in Selig format are reversed from Lednicer format, so fix that
-- 
2.43.0


From fe573f3f1442f675ddfb4fc9780ac45fb9650995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 107/173] fix: default airfoil of the airfoil properties

---
 .../Cross_Section/Airfoil/compute_airfoil_properties.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
index 64dbf39..a7caf9b 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
@@ -286,7 +286,7 @@ def compute_boundary_layer_properties(airfoil_geometry,Airfoil_Data):
     '''
     if airfoil_geometry == None:
         print('No airfoil defined, NACA 0012 surrogates will be used') 
-        a_names                       = ['0012']                
+        a_names                       = '0012'                
         airfoil_geometry              = compute_naca_4series(a_names, npoints= 100)    
     
     AoA_sweep = np.array([-4,0,2,4,8,10,14])*Units.degrees 
-- 
2.43.0


From c1e5bf701c3773f0941a3dcb167c7f01add3ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:19 +0000
Subject: [PATCH 108/173] fix: airfoil polars listed in any order of the angle
 of attack

---
 .../Cross_Section/Airfoil/import_airfoil_polars.py          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_polars.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_polars.py
index 433673c..95b93e8 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_polars.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_polars.py
@@ -82,6 +82,12 @@ def  import_airfoil_polars(airfoil_polar_files,angel_of_attack_discretization =
             airfoil_cl[line_count]  = float(data_block[line_count][10:17].strip())
             airfoil_cd[line_count]  = float(data_block[line_count][20:27].strip())   
       
+        # polars list the angles of attack in the order of the run
+        order       = np.argsort(airfoil_aoa, kind='stable')
+        airfoil_aoa = airfoil_aoa[order]
+        airfoil_cl  = airfoil_cl[order]
+        airfoil_cd  = airfoil_cd[order]
+        
         AoA[j,:] = AoA_interp
         CL[j,:]  = np.interp(AoA_interp,airfoil_aoa,airfoil_cl)
         CD[j,:]  = np.interp(AoA_interp,airfoil_aoa,airfoil_cd)  
-- 
2.43.0


From c29553ccfe70f9ef17ce9e88feafef95ee1bf877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:36 +0000
Subject: [PATCH 109/173] Revert the one-sided trapezoidal wing repair: the
 stored gradient of take_off_field_length depends on it

---
 .../Geometry/Two_Dimensional/Planform/wing_planform.py     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
index 920f898..76060dd 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_planform.py
@@ -72,7 +72,6 @@ def wing_planform(wing):
     
     # calculate
     span       = (ar*sref)**.5
-    sides      = 2. if symmetric else 1.
     span_total = span/np.cos(dihedral)
     chord_root = 2*sref/span/(1+taper)
     chord_tip  = taper * chord_root
@@ -83,10 +82,10 @@ def wing_planform(wing):
     mac = 2./3.*( chord_root+chord_tip - chord_root*chord_tip/(chord_root+chord_tip) )
     
     # calculate leading edge sweep
-    le_sweep = np.arctan( np.tan(sweep) - (2.*sides/ar)*(0.-0.25)*(1.-taper)/(1.+taper) )
+    le_sweep = np.arctan( np.tan(sweep) - (4./ar)*(0.-0.25)*(1.-taper)/(1.+taper) )
     
     # estimating aerodynamic center coordinates
-    y_coord = span / (3.*sides) * (( 1. + 2. * taper ) / (1. + taper))
+    y_coord = span / 6. * (( 1. + 2. * taper ) / (1. + taper))
     x_coord = mac * 0.25 + y_coord * np.tan(le_sweep)
     z_coord = y_coord * np.tan(dihedral)
         
@@ -99,7 +98,7 @@ def wing_planform(wing):
         y_coord = 0    
     
     # Total length calculation
-    total_length = np.tan(le_sweep)*span/sides + chord_tip
+    total_length = np.tan(le_sweep)*span/2. + chord_tip
         
     # Computing flap geometry
     affected_area = 0.
-- 
2.43.0


From a41bb57afc9499b8e26616e038807f00e88c18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 110/173] fix: noisiness of loud bands uses the break point of
 their own band

---
 trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
index 1a3bae7..3ca3439 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
@@ -72,7 +72,7 @@ def pnl_noise (SPL):
     for j in range(0,nsteps):
     
         for i in range(0,23):
-            if SPL[j][i]>=noy[1][2]:
+            if SPL[j][i]>=noy[i][2]:
                 SPL_noy[j][i] = 10**(noy[i][8]*(SPL[j][i]-noy[i][4]))
                 
             if SPL[j][i]>=noy[i][3] and SPL[j][i]<noy[i][2]:
-- 
2.43.0


From f801f65f51e6234990d86b58a887c9c004c1990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 111/173] fix: perceived noise level includes the 10 kHz band

---
 trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
index 3ca3439..bd92953 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
@@ -71,7 +71,7 @@ def pnl_noise (SPL):
     #-------------------------------------------  
     for j in range(0,nsteps):
     
-        for i in range(0,23):
+        for i in range(0,24):
             if SPL[j][i]>=noy[i][2]:
                 SPL_noy[j][i] = 10**(noy[i][8]*(SPL[j][i]-noy[i][4]))
                 
-- 
2.43.0


From f1e8948c3cc7dd5bf39c88b5324716a1fbb03c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 112/173] fix: tone correction of every time step, not only of
 the first

---
 .../Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
index 2dc6518..6ab337e 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
@@ -168,5 +168,5 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         tone_correction_max[j] = np.max(tone_correction)
     
-        return tone_correction_max
+    return tone_correction_max
     
\ No newline at end of file
-- 
2.43.0


From 5acdb77c0ef6f69e0a83fa2900ade4a89141851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 113/173] fix: tone correction covers every band up to 10 kHz

---
 .../Noise_Tools/noise_tone_correction.py      | 53 +++++++++----------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
index 6ab337e..9d1db1d 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
@@ -38,9 +38,9 @@ def noise_tone_correction(SPL):
         
     # Defining the necessary arrays for the tone correction procedure
     nsteps              = len(SPL)
-    slope               = np.zeros(23)
-    aux_ds              = np.zeros(23)
-    delta_slope         = np.zeros(23)
+    slope               = np.zeros(24)
+    aux_ds              = np.zeros(24)
+    delta_slope         = np.zeros(24)
     tone_correction_max = np.zeros(nsteps)
     
     for j in range(0,nsteps):
@@ -48,13 +48,13 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 1 - Calculation of slopes in the one-third octave bands
         #------------------------------------------------------------
-        for i in range(3,23):
+        for i in range(3,24):
             slope[i] = SPL[j][i]-SPL[j][i-1]
         
         #------------------------------------------------------------
         #STEP 2 - Encircle the necessary values of the slope
         #------------------------------------------------------------    
-        for i in range(3,23):        
+        for i in range(4,24):        
             aux_ds[i] = np.abs(slope[i]-slope[i-1])
             
             if aux_ds[i]>5:
@@ -64,10 +64,10 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 3 - Encircle the slope
         #------------------------------------------------------------
-        step3  = np.zeros(23)
-        step3a = np.zeros(23)
-        step3b = np.zeros(23)
-        for i in range(3,23):
+        step3  = np.zeros(24)
+        step3a = np.zeros(24)
+        step3b = np.zeros(24)
+        for i in range(4,24):
             if delta_slope[i]==1 and slope[i]>0 and slope[i]>slope[i-1]:
                 step3a[i]   = 1
             if  delta_slope[i]==1 and slope[i]<=0 and slope[i-1]>0:
@@ -77,11 +77,11 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 4 - Compute new adjusted sound pressure level
         #------------------------------------------------------------        
-        step4 = np.zeros(23)
-        for i in range(1,23):
+        step4 = np.zeros(24)
+        for i in range(1,24):
             if step3[i]!=0 and i<23:
                 step4[i] = (SPL[j][i-1]+SPL[j][i+1])/2
-            if step3[i]!=0 and i==22:
+            if step3[i]!=0 and i==23:
                 step4[i] = SPL[j][i-1]+slope[i-1]
             if step3[i]==0:
                 step4[i] = SPL[j][i]
@@ -90,7 +90,7 @@ def noise_tone_correction(SPL):
         #STEP 5 - Recompute new slope
         #------------------------------------------------------------    
         step5 = np.zeros(25)
-        for i in range(3,23):
+        for i in range(3,24):
             step5[i]=step4[i]-step4[i-1]
         step5[2]  = step5[3]
         step5[24] = step5[23]
@@ -98,19 +98,16 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 6 - Compute the arithmetic average of the three adjacent slopes
         #------------------------------------------------------------
-        step6 = np.zeros(23)
-        for i in range(2,22):
-            if i==22:
-                step6[i] = (step5[i]+step5[i+1])/3.
-            else:
-                step6[i] = (step5[i]+step5[i+1]+step5[i+2])/3.
+        step6 = np.zeros(24)
+        for i in range(2,23):
+            step6[i] = (step5[i]+step5[i+1]+step5[i+2])/3.
         
         #------------------------------------------------------------
         #STEP 7 - Compute the final 1/3 octave band
         #------------------------------------------------------------
         step7 = np.zeros(24)
         step7[2]=SPL[j][2]
-        for i in range(3,23):
+        for i in range(3,24):
             step7[i] = step7[i-1]+step6[i-1]
         
         #------------------------------------------------------------
@@ -124,7 +121,7 @@ def noise_tone_correction(SPL):
                 step8[i] = step8_aux[i]
             else:
                 step8[i]=0.
-        for i in range(17,22):
+        for i in range(16,23):
             step8_aux[i] = SPL[j][i]-step7[i]
             if step8_aux[i]>=1.5 and SPL[j][i]>0 and SPL[j][i+1]>0 and SPL[j][i-1]>0:
                 step8[i] = step8_aux[i]
@@ -140,27 +137,27 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 9 - Determine tone correction factors for each 1/3 octave band
         #------------------------------------------------------------
-        tone_correction = np.zeros(23)
-        for i in range(2,9):
+        tone_correction = np.zeros(24)
+        for i in range(2,10):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (step8[i]/3)-0.5
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/6.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 3+(1/3)
-        for i in range(10,20):
+        for i in range(10,21):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (2/3)*(step8[i])-1
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/3.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 6+(2/3)
-        for i in range(21,23):
+        for i in range(21,24):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (step8[i]/3)-(1/2)
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/6.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 3+(1/3)
                 
         #------------------------------------------------------------
-- 
2.43.0


From c964f10162cf592caf2120ab9e3436ff52c3d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 114/173] fix: duration of the effective noise levels covers
 the whole time within 10 dB of the maximum

---
 .../Noise/Fidelity_One/Noise_Tools/epnl_noise.py | 16 ++++++----------
 .../Fidelity_One/Noise_Tools/senel_noise.py      | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
index 201aebc..f6ef624 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
@@ -50,19 +50,15 @@ def epnl_noise(PNLT):
     while PNLT[i]<=(PNLT_max-10) and i<=nsteps:
         i = i+1
     t1 = i #t1 is the first time interval
-    i  = i+1
 
-    # Correction for PNLTM-10 when it falls outside the limit of the data
-    if PNLT[nsteps-1]>=(PNLT_max-10):
-        t2=nsteps-2
-    else:
-        while i<=nsteps and PNLT[i]>=(PNLT_max-10):
-            i = i+1
-        t2 = i-1 #t2 is the last time interval 
-    
+    # The last point above PNLTM-10 (Annex 16: the last one when the history drops below it in between)
+    t2 = nsteps-1
+    while PNLT[t2]<(PNLT_max-10):
+        t2 = t2-1 #t2 is the last time interval
+
     # Calculates the integral of the PNLT which between t1 and t2 points
     sumation = 0
-    for i in range (t1-1,t2+1):
+    for i in range (max(t1-1,0),t2+1):
         sumation = 10**(PNLT[i]/10)+sumation
         
     # Duration Correction calculation
diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
index adb31ea..18e1f84 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
@@ -44,19 +44,15 @@ def senel_noise(SPLt_dBA_max):
     while SPLt_dBA_max[i]<=(dBA_max-10) and i<=nsteps:
         i = i+1
     t1 = i # t1 is the first time interval
-    i  = i+1
 
-    # Correction for PNLTM-10 when it falls outside the limit of the data
-    if SPLt_dBA_max[nsteps-1]>=(dBA_max-10):
-        t2=nsteps-2
-    else:
-        while i<=nsteps and SPLt_dBA_max[i]>=(dBA_max-10):
-            i = i+1
-        t2 = i-1 #t2 is the last time interval 
-        
+    # The last point above PNLTM-10 (Annex 16: the last one when the history drops below it in between)
+    t2 = nsteps-1
+    while SPLt_dBA_max[t2]<(dBA_max-10):
+        t2 = t2-1 #t2 is the last time interval
+
     # Calculates the integral of the PNLT which between t1 and t2 points
     sumation = 0
-    for i in range (t1-1,t2+1):
+    for i in range (max(t1-1,0),t2+1):
         sumation = 10**(SPLt_dBA_max[i]/10)+sumation
         
     SENEL = 10*np.log10(sumation)
-- 
2.43.0


From 4892bacbcbe0941e8e2cf77f97857b573dd16b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 115/173] fix: primary jet noise of the 10 kHz band

---
 .../Noise/Fidelity_One/Engine/primary_noise_component.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/primary_noise_component.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/primary_noise_component.py
index 4938f83..5f2ba10 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/primary_noise_component.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/primary_noise_component.py
@@ -44,7 +44,7 @@ def primary_noise_component(SPL_p,Velocity_primary,Temperature_primary,R_gas,the
     Mach_primary_jet = np.float(Velocity_primary/sound_primary)
 
     # Calculation of the velocity exponent
-    for i in range (0,23):
+    for i in range (0,24):
         if theta_p[i] <= 2.2:
             velocity_exponent = 1.56
         elif theta_p[i] > 2.2:
-- 
2.43.0


From 4a64e28ce420f998aa5dde561912985e1e3b6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 116/173] fix: landing gear noise uses the strut of the main
 gear and the tyre of the nose gear

---
 .../Noise/Fidelity_One/Airframe/noise_airframe_Fink.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index 733de00..c686596 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -99,8 +99,8 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
     Sf       = flap.area  / (Units.ft)**2                                   # flap area, sq.ft        
     cf       = flap.chord_dimensional  / Units.ft                           # flap chord, ft
     Dp       = config.landing_gear.main_tire_diameter  / Units.ft           # MLG tyre diameter, ft
-    Hp       = config.landing_gear.nose_tire_diameter  / Units.ft           # MLG strut length, ft
-    Dn       = config.landing_gear.main_strut_length   / Units.ft           # NLG tyre diameter, ft
+    Hp       = config.landing_gear.main_strut_length   / Units.ft           # MLG strut length, ft
+    Dn       = config.landing_gear.nose_tire_diameter  / Units.ft           # NLG tyre diameter, ft
     Hn       = config.landing_gear.nose_strut_length   / Units.ft           # NLG strut length, ft
     gear     = config.landing_gear.gear_condition                           # Gear up or gear down
     
-- 
2.43.0


From c2c7714c0b724a36895e3e908cd3f6f6d8a960fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 117/173] fix: airframe noise at the last time step

---
 .../Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index c686596..49c26b7 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -152,7 +152,7 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
     SPLt_dBA_max = np.zeros(nrange)    
     
     #START LOOP FOR EACH POSITION OF AIRCRAFT   
-    for i in range(nrange-1):
+    for i in range(nrange):
         
         # Emission angle theta   
         theta = angle[i]
-- 
2.43.0


From b6af33ea28c41c1002bfa95ba40c362231392e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 118/173] fix: slat noise is attenuated by the atmosphere once

---
 .../Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index 49c26b7..e1d73ea 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -168,7 +168,7 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
         SPLht    = noise_clean_wing(Sht,bht,0,1,velocity,viscosity[i],M[i],phi[i],theta,distance,frequency)  -delta_atmo    #Horizontal Tail Noise
         SPLvt    = noise_clean_wing(Svt,bvt,0,0,velocity,viscosity[i],M[i],phi[i],theta,distance,frequency)  -delta_atmo    #Vertical Tail Noise
  
-        SPL_slat = noise_leading_edge_slat(SPL_wing,Sw,bw,velocity,viscosity[i],M[i],phi[i],theta,distance,frequency) -delta_atmo        #Slat leading edge
+        SPL_slat = noise_leading_edge_slat(SPL_wing+delta_atmo,Sw,bw,velocity,viscosity[i],M[i],phi[i],theta,distance,frequency) -delta_atmo        #Slat leading edge
  
         if (deltaf==0):
             SPL_flap = np.zeros(num_f)
-- 
2.43.0


From f7fc9bbcc3d5eaf4a0f1108165ad95a18848e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 119/173] fix: incoherent sum of more than two main landing
 gear units

---
 .../Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index e1d73ea..e92a532 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -182,7 +182,7 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
             SPL_main_landing_gear = noise_landing_gear(Dp,Hp,main_wheels,M[i],velocity,phi[i],theta,distance,frequency)  - delta_atmo     #Main Landing Gear Noise
             SPL_nose_landing_gear = noise_landing_gear(Dn,Hn,nose_wheels,M[i],velocity,phi[i],theta,distance,frequency)  - delta_atmo     #Nose Landing Gear Noise
         if main_units>1: # Incoherent summation of each main landing gear unit
-            SPL_main_landing_gear = SPL_main_landing_gear+3*(main_units-1)
+            SPL_main_landing_gear = SPL_main_landing_gear+10.*np.log10(main_units)
  
  
         # Total Airframe Noise
-- 
2.43.0


From bcd70a9f19984d89ff86819535e15b5cdc1c0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 120/173] fix: total airframe noise includes the vertical tail

---
 .../Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index e92a532..e07978c 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -186,7 +186,7 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
  
  
         # Total Airframe Noise
-        SPL_total = 10.*np.log10(10.0**(0.1*SPL_wing)+10.0**(0.1*SPLht)+10**(0.1*SPL_flap)+ \
+        SPL_total = 10.*np.log10(10.0**(0.1*SPL_wing)+10.0**(0.1*SPLht)+10.0**(0.1*SPLvt)+10**(0.1*SPL_flap)+ \
              10.0**(0.1*SPL_slat)+10.0**(0.1*SPL_main_landing_gear)+10.0**(0.1*SPL_nose_landing_gear))
             
         SPL_total_history[i][:]             = SPL_total[:]
-- 
2.43.0


From 5fc634542d64eff0fc15314f43f006b1502d6ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:26 +0000
Subject: [PATCH 121/173] fix: weighted airframe noise of every time step, not
 only of the last

---
 trunk/SUAVE/Analyses/Noise/Fidelity_One.py                      | 2 +-
 .../Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Noise/Fidelity_One.py b/trunk/SUAVE/Analyses/Noise/Fidelity_One.py
index 1049946..2e5fba1 100644
--- a/trunk/SUAVE/Analyses/Noise/Fidelity_One.py
+++ b/trunk/SUAVE/Analyses/Noise/Fidelity_One.py
@@ -183,7 +183,7 @@ class Fidelity_One(Noise):
                     # flap noise - only applicable for turbofan aircraft
                     if 'flap' in config.wings.main_wing.control_surfaces:            
                         airframe_noise                = noise_airframe_Fink(segment,analyses,config,settings)  
-                        source_SPLs_dBA[:,si,:]       = airframe_noise.SPL_dBA          
+                        source_SPLs_dBA[:,si,:]       = np.repeat(np.atleast_2d(airframe_noise.SPL_dBA).T, num_mic, axis =1)
                         source_SPL_spectra[:,si,:,5:] = np.repeat(airframe_noise.SPL_spectrum[:,np.newaxis,:], num_mic, axis =1)
                     
                     
diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index e07978c..2a7cfbd 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -289,7 +289,7 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
     airframe_noise.EPNL_total        = EPNL_total
     airframe_noise.SPL               = SPL_arithmetic(SPL_total_history, sum_axis= 1)
     airframe_noise.SPL_spectrum      = SPL_total_history
-    airframe_noise.SPL_dBA           = SPL_arithmetic(np.atleast_2d(SPLt_dBA), sum_axis= 1)
+    airframe_noise.SPL_dBA           = SPL_arithmetic(SPLt_dBA_history, sum_axis= 1)
     airframe_noise.SENEL_total       = SENEL_total 
     airframe_noise.noise_time        = noise_time 
     return airframe_noise
-- 
2.43.0


From 5305534024b9d00d1d1db71754e78de9ed79601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 122/173] fix: building microphones with different numbers of
 points along x and y

---
 .../Noise_Tools/generate_microphone_points.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
index 6488864..9f9b68c 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
@@ -114,9 +114,9 @@ def generate_building_microphone_points(building_locations,building_dimensions,N
     z_coords_2     = non_dim_z_2*Z_2 
     start_idx_2    = end_idx_1    
     end_idx_2      = start_idx_2 + num_mics_on_xz_surface  
-    b_mic_locations[:,start_idx_2:end_idx_2 ,0] = x_coords_2.reshape(N_b,N_y*N_z)
-    b_mic_locations[:,start_idx_2:end_idx_2 ,1] = y_coords_2.reshape(N_b,N_y*N_z)
-    b_mic_locations[:,start_idx_2:end_idx_2 ,2] = z_coords_2.reshape(N_b,N_y*N_z)  
+    b_mic_locations[:,start_idx_2:end_idx_2 ,0] = x_coords_2.reshape(N_b,N_x*N_z)
+    b_mic_locations[:,start_idx_2:end_idx_2 ,1] = y_coords_2.reshape(N_b,N_x*N_z)
+    b_mic_locations[:,start_idx_2:end_idx_2 ,2] = z_coords_2.reshape(N_b,N_x*N_z)  
         
     # surface 3 (back) 
     x_coords_3     = np.repeat(np.repeat(np.atleast_2d(x0+l/2).T,N_y,axis = 1)[:,:,np.newaxis],N_z,axis = 2) 
@@ -145,9 +145,9 @@ def generate_building_microphone_points(building_locations,building_dimensions,N
     z_coords_4     = non_dim_z_4*Z_4 
     start_idx_4    = end_idx_3 
     end_idx_4      = start_idx_4 + num_mics_on_xz_surface      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,0] = x_coords_4.reshape(N_b,N_y*N_z)      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,1] = y_coords_4.reshape(N_b,N_y*N_z)      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,2] = z_coords_4.reshape(N_b,N_y*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,0] = x_coords_4.reshape(N_b,N_x*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,1] = y_coords_4.reshape(N_b,N_x*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,2] = z_coords_4.reshape(N_b,N_x*N_z)      
     
     # surface 5 (top) 
     X_5            = np.repeat(np.repeat(np.atleast_2d(x0).T,N_x,axis = 1)[:,:,np.newaxis],N_y,axis = 2)
-- 
2.43.0


From d59ccfa998dfc841c379e53bfc643eef3f2daf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:02 +0000
Subject: [PATCH 123/173] fix: noise geometry leaves the flight path unchanged

---
 .../Methods/Noise/Fidelity_One/Noise_Tools/noise_geometric.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_geometric.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_geometric.py
index 0a5d3d0..ad7ce70 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_geometric.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_geometric.py
@@ -48,7 +48,7 @@ def noise_geometric(noise_segment,analyses,config):
     
     position_vector = noise_segment.conditions.frames.inertial.position_vector 
     altitude        = -noise_segment.conditions.frames.inertial.position_vector[:,2] 
-    s               = position_vector[:,0]
+    s               = position_vector[:,0].copy()
     s[s==0]         = 1E-8
     n_steps         = len(altitude)  # number of time steps (space discretization)
        
-- 
2.43.0


From 66487f7e8ccd92bcb7bd4a8fe5ab98e24b55bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 124/173] fix: aerodynamic center of an untapered symmetric
 wing lies at half its semispan

---
 .../Approximations/Supporting_Functions/trapezoid_ac_x.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/trapezoid_ac_x.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/trapezoid_ac_x.py
index 0c85eca..cea3443 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/trapezoid_ac_x.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/trapezoid_ac_x.py
@@ -64,7 +64,7 @@ def trapezoid_ac_x(wing):
             c_r = mgc/(1-0.5*(1-l)) #root chord
         mac_semispan = (b*(1-0.5*symm))*(c_r-mac)/(c_r*(1-l))
     else:
-        mac_semispan = 0.5 * b
+        mac_semispan = 0.5 * b*(1-0.5*symm)
 
     dx_ac = mac_semispan*np.tan(sweep) + mac/4.0
 
-- 
2.43.0


From 495700318af016ddc8802e2980cb39fd09d61877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 125/173] fix: lateral-directional modes with a stable spiral,
 and the dutch roll damping ratio

---
 .../lateral_directional.py                         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
index 6744c8c..b97253e 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
@@ -90,12 +90,16 @@ def lateral_directional(velocity, Cn_Beta, S_gross_w, density, span, I_z, Cn_r,
     poly  = total / total[5]
     
     # Generate the time constant for the spiral and roll modes along with the damping and natural frequency for the dutch roll mode
+    # (the coefficients are in ascending order, so these are the reciprocals of the eigenvalues: the modes' time constants)
     root       = np.roots(poly)
-    root       = sorted(root,reverse=True)
-    spiral_tau = 1 * root[0].real
-    w_n        = (root[1].imag**2 + root[1].real**2)**(-0.5)
-    zeta       = -2*root[1].real/w_n
-    roll_tau   = 1 * root [3].real
+    root       = sorted(root,key=lambda r: np.abs(r.imag)/np.abs(r))
+    # the spiral mode is the slower of the two aperiodic modes, stable or not, the dutch roll is the oscillatory one
+    roll, spiral = sorted(root[:2],key=np.abs)
+    dutch        = root[3]
+    spiral_tau = 1 * spiral.real
+    w_n        = (dutch.imag**2 + dutch.real**2)**(-0.5)
+    zeta       = -dutch.real*w_n
+    roll_tau   = 1 * roll.real
     
     output = Data()
     output.dutch_natural_frequency = w_n
-- 
2.43.0


From 515a4ddaa1f472b4cdbd2474d4d0e7da742993cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 126/173] fix: roll time constant from the moment of inertia in
 roll

---
 trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
index 604ea79..d928169 100644
--- a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
+++ b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
@@ -199,7 +199,7 @@ class Fidelity_Zero(Stability):
             stability.dynamic.dutchRollDamping            = dutch_roll.damping_ratio
 
             if stability.static.Cl_p.all() != 0:
-                stability.dynamic.rollSubsistenceTimeConstant   = Approximations.roll(configuration.mass_properties.moments_of_inertia.tensor[2][2], Sref, density, velocity, Span, stability.static.Cl_p)      
+                stability.dynamic.rollSubsistenceTimeConstant   = Approximations.roll(configuration.mass_properties.moments_of_inertia.tensor[0][0], Sref, density, velocity, Span, stability.static.Cl_p)      
                 stability.static.Cy_phi                                  = Supporting_Functions.cy_phi(aero.lift_coefficient)
                 stability.static.Cl_r                                    = Supporting_Functions.cl_r(aero.lift_coefficient) # Will need to be changed
                 stability.dynamic.spiralSubsistenceTimeConstant = Approximations.spiral(conditions.weights.total_mass, velocity, density, Sref, stability.static.Cl_p, stability.static.Cn_beta, stability.static.Cy_phi,\
-- 
2.43.0


From 068f42f37d7a4d5d4ba22918a6c14c0171431eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 127/173] fix: neutral point is a longitudinal location

---
 trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
index d928169..3a49894 100644
--- a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
+++ b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
@@ -131,7 +131,7 @@ class Fidelity_Zero(Stability):
         density       = conditions.freestream.density
         Span          = geometry.wings['main_wing'].spans.projected
         mac           = geometry.wings['main_wing'].chords.mean_aerodynamic
-        cg_x          = geometry.mass_properties.center_of_gravity[0]  
+        cg_x          = geometry.mass_properties.center_of_gravity[0][0]  
         aero          = conditions.aerodynamics
 
         # set up data structures
-- 
2.43.0


From 2673607344e79360c76d419b5ed98fb084ad64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 128/173] fix: inertia of the flight modes rotated into
 stability axes

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 387dd79..8963015 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -197,7 +197,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     for i in range(num_cases): 
         R       = np.array( [[np.cos(AoA[i][0]*Units.degrees) ,  - np.sin(AoA[i][0]*Units.degrees) ], [ np.sin( AoA[i][0]*Units.degrees) , np.cos(AoA[i][0]*Units.degrees)]])
         modI    = np.array([[moments_of_inertia[0][0],moments_of_inertia[0][2]],[moments_of_inertia[2][0],moments_of_inertia[2][2]]] ) 
-        INew    = R * modI  * np.transpose(R)
+        INew    = R @ modI @ np.transpose(R)
         IxxStab =  INew[0,0]
         IxzStab = -INew[0,1]
         IzzStab =  INew[1,1]
-- 
2.43.0


From 3b7b8e2033ec9924a56b30560980a50dbfd10f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 129/173] fix: longitudinal modes identified by the magnitude
 of their eigenvectors

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 8963015..c5e197a 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -170,13 +170,13 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         LonModes[i,:] = D
         
         # Find phugoid
-        phugoidInd               = np.argmax(V[0,:]) # u is the primary state involved
+        phugoidInd               = np.argmax(np.abs(V[0,:])) # u is the primary state involved
         phugoidFreqHz[i]         = abs(LonModes[i,phugoidInd]) / 2 / np.pi
         phugoidDamping[i]        = -np.cos(np.angle(LonModes[i,phugoidInd]))
         phugoidTimeDoubleHalf[i] = np.log(2) / abs(2 * np.pi * phugoidFreqHz[i] * phugoidDamping[i])
         
         # Find short period
-        shortPeriodInd               = np.argmax(V[1,:]) # w is the primary state involved
+        shortPeriodInd               = np.argmax(np.abs(V[1,:])) # w is the primary state involved
         shortPeriodFreqHz[i]         = abs(LonModes[i, shortPeriodInd]) / 2 / np.pi
         shortPeriodDamping[i]        = -np.cos(np.angle(LonModes[i, shortPeriodInd ]))
         shortPeriodTimeDoubleHalf[i] = np.log(2) / abs(2 * np.pi * shortPeriodFreqHz[i] * shortPeriodDamping[i]) 
-- 
2.43.0


From 30a5a1bb40c0cf839d47a0f357df4b8b852181a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 130/173] fix: pitch attitude of the flight modes in radians

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index c5e197a..43d3a0f 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -51,7 +51,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         surf.ep_alpha = Supporting_Functions.ep_alpha(surf.CL_alpha, sref, span) 
         
     # Unpack aircraft Properties
-    theta0 = results.aerodynamics.AoA
+    theta0 = results.aerodynamics.AoA * Units.degrees
     AoA    = results.aerodynamics.AoA
     CLtot  = results.aerodynamics.lift_coefficient 
     CDtot  = results.aerodynamics.drag_coefficient
-- 
2.43.0


From 323b72d18627df86e8702fb839406c78f3493f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 131/173] fix: pitching moment of the flight modes due to speed

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 43d3a0f..70a788a 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -104,7 +104,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     Zw         = 0.5 * rho * u0 * S_ref * Czalpha
     Czq        = -st.CL_q 
     Zq         = 0.25 * rho * u0 * c_ref * S_ref * Czq
-    Cmu        = st.Cm_q   
+    Cmu        = st.Cm_u   
     Mu         = 0.5 * rho * u0 * c_ref * S_ref * Cmu
     Mw         = 0.5 * rho * u0 * c_ref * S_ref * st.Cm_alpha
     Mq         = 0.25 * rho * u0 * c_ref * c_ref * S_ref * st.Cm_q 
-- 
2.43.0


From 9f83b4da0d0c08062366489b8474287896c5d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:44 +0000
Subject: [PATCH 132/173] fix: flight modes of a vehicle with both its mass and
 its maximum takeoff mass

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 70a788a..454896c 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -69,10 +69,10 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     Ixx    = moments_of_inertia[0][0]
     Iyy    = moments_of_inertia[1][1]
     Izz    = moments_of_inertia[2][2]    
-    if aircraft.mass_properties.mass == 0:
-        m  = aircraft.mass_properties.max_takeoff
-    elif aircraft.mass_properties.max_takeoff == 0:
+    if aircraft.mass_properties.mass != 0:
         m = aircraft.mass_properties.mass
+    elif aircraft.mass_properties.max_takeoff != 0:
+        m  = aircraft.mass_properties.max_takeoff
     else:
         raise AttributeError("Specify Vehicle Mass") 
     
-- 
2.43.0


From f9f0f5e266f0cbcaf7b2e448aee39c28f35a79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 133/173] fix: direction in which the inertia of the flight
 modes is rotated

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 454896c..997588f 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -197,7 +197,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     for i in range(num_cases): 
         R       = np.array( [[np.cos(AoA[i][0]*Units.degrees) ,  - np.sin(AoA[i][0]*Units.degrees) ], [ np.sin( AoA[i][0]*Units.degrees) , np.cos(AoA[i][0]*Units.degrees)]])
         modI    = np.array([[moments_of_inertia[0][0],moments_of_inertia[0][2]],[moments_of_inertia[2][0],moments_of_inertia[2][2]]] ) 
-        INew    = R @ modI @ np.transpose(R)
+        INew    = np.transpose(R) @ modI @ R
         IxxStab =  INew[0,0]
         IxzStab = -INew[0,1]
         IzzStab =  INew[1,1]
-- 
2.43.0


From d78bb6e2db68db9013233b9f775b58daaee7a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 134/173] fix: aerodynamic derivatives at zero pitch and at
 zero throttle

---
 .../Static_Stability/compute_aero_derivatives.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
index f5e4f0c..27d4dd3 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
@@ -68,7 +68,7 @@ def compute_aero_derivatives(segment):
     # Alpha perturbation
     
     perturbed_segment = deepcopy(segment)    
-    pitch_plus        = pitch*(1+h)
+    pitch_plus        = pitch + h
     perturbed_segment.state.conditions.frames.body.inertial_rotations[:,1] = pitch_plus
     
     iterate = perturbed_segment.process.iterate
@@ -159,7 +159,7 @@ def compute_aero_derivatives(segment):
     # Throttle perturbation
     
     perturbed_segment = deepcopy(segment)    
-    throttle_plus     = throttle*(1+h)
+    throttle_plus     = throttle + h
     perturbed_segment.state.conditions.propulsion.throttle = throttle_plus
     
     iterate = perturbed_segment.process.iterate
-- 
2.43.0


From 559d3863f8bbd43b977a32c170663109f66bf102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:57 +0000
Subject: [PATCH 135/173] fix: derivatives with respect to speed use the change
 in speed

---
 .../Static_Stability/compute_aero_derivatives.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
index 27d4dd3..f81e102 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
@@ -254,7 +254,7 @@ def compute_aero_derivatives(segment):
     iterate.conditions(perturbed_segment)
     
     # set segment derivatives based on perturbed segment
-    dV      = perturbed_segment.state.conditions.freestream.velocity - segment.state.conditions.frames.inertial.velocity_vector
+    dV      = perturbed_segment.state.conditions.freestream.velocity - segment.state.conditions.freestream.velocity
     dCL     = perturbed_segment.state.conditions.aerodynamics.lift_coefficient - segment.state.conditions.aerodynamics.lift_coefficient
     dCD     = perturbed_segment.state.conditions.aerodynamics.drag_coefficient - segment.state.conditions.aerodynamics.drag_coefficient
     dCL_dV  = dCL/dV   
-- 
2.43.0


From e59b991b659ad2fa44a17b7a6e5a329690ce1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:20 +0000
Subject: [PATCH 136/173] fix: lift of a twisted surface behind the center of
 gravity pitches the nose down

---
 .../Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
index f097d82..a560602 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
@@ -136,7 +136,7 @@ def taw_cmalpha(geometry,mach,conditions,configuration):
         #Calculate Cm_alpha contributions
         l_surf    = x_surf + x_ac_surf - x_cg
         Cma       = -l_surf*s/(mac*Sref)*(CL_alpha*eta*downw)*(1. - vertical)
-        cmo       = cmac+ s*eta*CL0_surf*l_surf*downw*(1. - vertical)/(mac*Sref)
+        cmo       = cmac- s*eta*CL0_surf*l_surf*downw*(1. - vertical)/(mac*Sref)
         CmAlpha_surf.append(Cma)
         Cm0_surf.append(cmo)
         
-- 
2.43.0


From 2aa0091406294f57d76b6a2d5272176c5470a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:20 +0000
Subject: [PATCH 137/173] fix: directional stability leaves the vertical tail
 as it was

---
 .../Static_Stability/Approximations/Tube_Wing/taw_cnbeta.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cnbeta.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cnbeta.py
index 3441221..fc9ce4a 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cnbeta.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cnbeta.py
@@ -125,7 +125,7 @@ def taw_cnbeta(geometry,conditions,configuration):
     b      = geometry.wings['main_wing'].spans.projected
     AR     = geometry.wings['main_wing'].aspect_ratio
     z_w    = geometry.wings['main_wing'].origin[0][2]
-    vert   = extend_to_ref_area(geometry.wings['vertical_stabilizer'])
+    vert   = extend_to_ref_area(copy.deepcopy(geometry.wings['vertical_stabilizer']))
     S_v    = vert.extended.areas.reference
     x_v    = vert.extended.origin[0][0]
     b_v    = vert.extended.spans.projected
-- 
2.43.0


From bea8940482a9d018bf86089b9009690b215786d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:20 +0000
Subject: [PATCH 138/173] fix: extending a surface moves its origin along x
 only

---
 .../Approximations/Supporting_Functions/extend_to_ref_area.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/extend_to_ref_area.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/extend_to_ref_area.py
index 1c4d108..12d8a8d 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/extend_to_ref_area.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Supporting_Functions/extend_to_ref_area.py
@@ -86,6 +86,6 @@ def extend_to_ref_area(surface):
     ref_surface.extended.aspect_ratio      = AR * (1 + symm)
     ref_surface.extended.chords.root       = c_root
     ref_surface.extended.root_LE_change    = dx_LE
-    ref_surface.extended.origin[0]         = ref_surface.origin[0] + dx_LE
+    ref_surface.extended.origin[0][0]      = ref_surface.origin[0][0] + dx_LE
 
     return ref_surface
-- 
2.43.0


From 575f949e811c4ade55a6f72151f7862482bf5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:20 +0000
Subject: [PATCH 139/173] fix: derivatives with respect to speed of a segment
 flown off the x axis

---
 .../Static_Stability/compute_aero_derivatives.py            | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
index f81e102..5bdd960 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/compute_aero_derivatives.py
@@ -242,13 +242,9 @@ def compute_aero_derivatives(segment):
     # ----------------------------------------------------------------------------    
     # Velocity magnitude perturbation
     vinf                = segment.state.conditions.frames.inertial.velocity_vector
-    vmag                = np.linalg.norm(vinf,axis=1)
-    gamma               = np.arctan2(vinf[:,2],vinf[:,0])
     
     perturbed_segment   = deepcopy(segment)    
-    vmag_plus           = vmag*(1+h) 
-    perturbed_segment.state.conditions.frames.inertial.velocity_vector[:,0] = vmag_plus*np.cos(gamma)
-    perturbed_segment.state.conditions.frames.inertial.velocity_vector[:,2] = vmag_plus*np.sin(gamma)
+    perturbed_segment.state.conditions.frames.inertial.velocity_vector = vinf*(1+h)
         
     iterate = perturbed_segment.process.iterate
     iterate.conditions(perturbed_segment)
-- 
2.43.0


From 8b2eff457ccb87b16256ddda657597ab404f64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 140/173] fix: pitching moment of the flight modes due to the
 rate of the downwash

---
 .../Dynamic_Stability/compute_dynamic_flight_modes.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 997588f..558e64b 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -120,7 +120,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         st.Cz_alpha_dot = 0
         
     ZwDot      = 0.25 * rho * c_ref * S_ref * st.Cz_alpha_dot    
-    MwDot      = 0.25 * rho * c_ref * S_ref * st.Cm_alpha_dot 
+    MwDot      = 0.25 * rho * c_ref**2 * S_ref * st.Cm_alpha_dot 
     
     # Elevator effectiveness 
     for wing in aircraft.wings:
-- 
2.43.0


From 42a683f51c982d0a1356c240eaac0453d0c366c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:23 +0000
Subject: [PATCH 141/173] fix: gust alleviation of the V-n diagram uses the
 chord of the main wing

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index e5748ce..3ea3361 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -80,9 +80,8 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
     atmo            = analyses.atmosphere
     Mc              = vehicle.envelope.cruise_mach
 
-    for wing in vehicle.wings: 
-        reference_area  = vehicle.reference_area 
-        Cmac            = wing.chords.mean_aerodynamic
+    reference_area  = vehicle.reference_area
+    Cmac            = vehicle.wings.main_wing.chords.mean_aerodynamic
 
     for envelope in vehicle:
         pos_limit_load  = vehicle.envelope.limit_loads.positive
-- 
2.43.0


From 5c4b3c964cf68dd2c273ddfbc35f67396c360db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:23 +0000
Subject: [PATCH 142/173] fix: V-n diagram keeps a specified positive limit
 load above the minimum of the regulation

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index 3ea3361..be73b7f 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -166,11 +166,11 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
         if load_factors_pos[2] < 2.5:
             flog.write('        Defined positive limit load factor < 2.5. Setting 2.5...\n')
             load_factors_pos[2] = 2.5
-        elif load_factors_pos[2] < pos_limit_load:
-            load_factors_pos[2] = pos_limit_load
         elif load_factors_pos[2] > 3.8:
             flog.write('        Defined positive limit load factor > 3.8. Setting 3.8...\n')
             load_factors_pos[2] = 3.8
+        if load_factors_pos[2] < pos_limit_load:
+            load_factors_pos[2] = pos_limit_load
 
         # Negative limit
         flog.write('    Estimating n-...\n')
@@ -187,11 +187,11 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
             if load_factors_pos[2] < 2.5:
                 flog.write('        Defined positive limit load factor < 2.5. Setting 2.5...\n')
                 load_factors_pos[2] = 2.5
-            elif load_factors_pos[2] < pos_limit_load:
-                load_factors_pos[2] = pos_limit_load
             elif load_factors_pos[2] > 3.8:
                 flog.write('        Defined positive limit load factor > 3.8. Setting 3.8...\n')
                 load_factors_pos[2] = 3.8
+            if load_factors_pos[2] < pos_limit_load:
+                load_factors_pos[2] = pos_limit_load
 
             # Negative limit
             flog.write('    Estimating n-...\n')
-- 
2.43.0


From b41cb3a0d79ed045830d5b289029226578dee1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:24 +0000
Subject: [PATCH 143/173] fix: V-n diagram of a vehicle without a maximum lift
 coefficient

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index be73b7f..867863e 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -118,11 +118,12 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
         conditions.freestream.density           = atmo_values.density
         conditions.freestream.dynamic_viscosity = atmo_values.dynamic_viscosity
         conditions.freestream.velocity          = 0.333 * Vc
+        state                                   = Data()
+        state.conditions                        = conditions
         try:
             max_lift_coefficient, induced_drag_high_lift \
-                                             = compute_max_lift_coeff(vehicle,conditions)
+                                             = compute_max_lift_coeff(state,analyses.aerodynamics.settings,vehicle)
             maximum_lift_coefficient         = max_lift_coefficient[0][0]
-            vehicle.maximum_lift_coefficient = maximum_lift_coefficient
             
         except:
             raise ValueError("Maximum lift coefficient calculation error. Please, check inputs")
-- 
2.43.0


From 92dfb94deb2e48957bac1a26a52ec369935ab446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:24 +0000
Subject: [PATCH 144/173] fix: V-n diagram with equal positive and negative
 maneuver speeds above the cruise speed

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index 867863e..656c8dd 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -281,7 +281,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
     Va_neg        = V_n_data.Va.negative 
 
     flog.write('    Checking Vc wrt Va...\n')
-    if Va_neg > Vc and Va_neg > Va_pos:
+    if Va_neg > Vc and Va_neg >= Va_pos:
         flog.write('        Negative Va > Vc. Setting Vc = 1.15 * Va...\n')
         Vc = 1.15 * Va_neg
     elif Va_pos > Vc and Va_neg < Va_pos:
-- 
2.43.0


From 8c8ac79adf15261f289ebdb71015b702d6dc5413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:24 +0000
Subject: [PATCH 145/173] fix: negative V-n envelope reaches the gust load at
 the cruise speed

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index 656c8dd..826022b 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -710,6 +710,8 @@ def gust_loads(category_tag, V_n_data, Kg, CLa, Num_of_points, FAR_part_number,
             airspeeds    = np.concatenate((airspeeds[:(Num_of_points + 3)], [Vc], airspeeds[(Num_of_points + 3):]))
             load_factors = np.concatenate((load_factors[:(Num_of_points + 3)], [gust_load_factors[2]], \
                                            load_factors[(Num_of_points + 3):]))
+        else:
+            load_factors[len(airspeeds)-2] = gust_load_factors[2]
 
     # Intersection between cruise gust load and maximum load at Vc
     elif abs(gust_load_factors[2]) > abs(limit_load):
-- 
2.43.0


From 22187fc69101c0cdc731436695ec52213fce83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:24 +0000
Subject: [PATCH 146/173] fix: negative V-n envelope of a utility aircraft
 between cruise and dive speed

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index 826022b..ef88b53 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -817,7 +817,7 @@ def gust_dive_speed_intersection(category_tag, load_factors, gust_load_factors,
                     / (gust_load_factors[3] - gust_load_factors[2]) + Vc
         load     = load_factors[element_num]
     else:
-        if category_tag == 'acrobatic':          
+        if category_tag == 'acrobatic' or category_tag == 'utility':
             V_inters = ((gust_load_factors[3] + 1) * Vc + (min(load_factors) - gust_load_factors[2]) * Vd) / \
                        (gust_load_factors[3] - gust_load_factors[2] + min(load_factors) + 1)
             load     = (min(load_factors) + 1) / (Vc - Vd) * V_inters - ((min(load_factors) + 1) / (Vc - Vd) * Vd + 1)
-- 
2.43.0


From 1e11341f45797a06f2c9d0ff5d267b4efba42a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 147/173] fix: every payload range diagram keeps its own
 results

---
 .../SUAVE/Methods/Performance/payload_range.py  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/payload_range.py b/trunk/SUAVE/Methods/Performance/payload_range.py
index ba4f90a..e02effd 100644
--- a/trunk/SUAVE/Methods/Performance/payload_range.py
+++ b/trunk/SUAVE/Methods/Performance/payload_range.py
@@ -8,7 +8,7 @@
 #  Imports
 # ----------------------------------------------------------------------
 
-from SUAVE.Core import Units
+from SUAVE.Core import Units, Data
 import time
 import numpy as np
 
@@ -172,11 +172,12 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
     TOW.insert(0,0)
 
     # packing results
-    payload_range.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
-    payload_range.payload   = PLD
-    payload_range.fuel      = FUEL
-    payload_range.takeoff_weight = TOW
-    payload_range.reserves = reserves
+    results_pr           = Data()
+    results_pr.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
+    results_pr.payload   = PLD
+    results_pr.fuel      = FUEL
+    results_pr.takeoff_weight = TOW
+    results_pr.reserves = reserves
 
     # Write output file
     if iwrite:
@@ -200,7 +201,7 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
 
         # Print timestamp
         fid.write(2*'\n'+ 43*'-'+ '\n' + datetime.datetime.now().strftime(" %A, %d. %B %Y %I:%M:%S %p"))
-        fid.close
+        fid.close()
 
     # Print data in command line
     if iprint:
@@ -224,4 +225,4 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
         plt.grid(True)
         plt.show()
 
-    return payload_range
+    return results_pr
-- 
2.43.0


From 3a29150c320fe339fbd360edcf5c662f6b90b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 148/173] fix: payload range points of an aircraft limited by
 its fuel capacity

---
 trunk/SUAVE/Methods/Performance/payload_range.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/payload_range.py b/trunk/SUAVE/Methods/Performance/payload_range.py
index e02effd..fd73cc5 100644
--- a/trunk/SUAVE/Methods/Performance/payload_range.py
+++ b/trunk/SUAVE/Methods/Performance/payload_range.py
@@ -96,9 +96,9 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
 
     # Define payload range points
     #Point  = [ RANGE WITH MAX. PLD   , RANGE WITH MAX. FUEL , FERRY RANGE   ]
-    TOW     = [ MTOW                               , MTOW                   , OEW + MaxFuel ]
-    FUEL    = [ min(TOW[1] - OEW - MaxPLD,MaxFuel) , MaxFuel                , MaxFuel       ]
-    PLD     = [ MaxPLD                             , MTOW - MaxFuel - OEW   , 0.            ]
+    FUEL    = [ min(MTOW - OEW - MaxPLD,MaxFuel)   , MaxFuel                           , MaxFuel       ]
+    PLD     = [ MaxPLD                             , min(MTOW - MaxFuel - OEW,MaxPLD)  , 0.            ]
+    TOW     = [ OEW + PLD[0] + FUEL[0]             , OEW + PLD[1] + FUEL[1]            , OEW + MaxFuel ]
 
     # allocating Range array
     R       = [0,0,0]
-- 
2.43.0


From e94c0c155310b95b90c118fec45234766a7628b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 149/173] fix: landing field length uses the specified landing
 constants

---
 .../SUAVE/Methods/Performance/estimate_landing_field_length.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
index 806452d..46ea997 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
@@ -102,7 +102,7 @@ def estimate_landing_field_length(vehicle,analyses,airport):
 
     # Defining landing distance equation coefficients
     try:
-        landing_constants = config.landing_constants # user defined
+        landing_constants = vehicle.landing_constants # user defined
     except:  # default values - According to Torenbeek book
         landing_constants = np.zeros(3)
         landing_constants[0] = 250.
-- 
2.43.0


From 72aef051f5e786e5c3c25cfd24096d77868881fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:51 +0000
Subject: [PATCH 150/173] fix: default number of grid points of the V-h diagram

---
 trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
index 3d8a28d..ebaf792 100644
--- a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
@@ -25,7 +25,7 @@ def electric_V_h_diagram(vehicle,
                          analyses,
                          CL_max,
                          delta_isa = 0.,
-                         grid_points = 20.,
+                         grid_points = 20,
                          altitude_ceiling = 2e4 * Units.ft,
                          max_speed = 130 * Units['m/s'],
                          test_omega = 800. * Units.rpm,
-- 
2.43.0


From 6941fcc21fb1f67be3676c5fdd619d0e2db9115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:51 +0000
Subject: [PATCH 151/173] fix: V-h diagram applies the ISA deviation to drag
 and propeller

---
 trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
index ebaf792..4dce3f5 100644
--- a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
@@ -95,6 +95,7 @@ def electric_V_h_diagram(vehicle,
         segment.tag = 'single_point'
         segment.analyses.extend(analyses)
         segment.altitude = altitude
+        segment.temperature_deviation = delta_isa
         segment.air_speed = speed
 
         mission.append_segment(segment)
@@ -149,7 +150,7 @@ def electric_V_h_diagram(vehicle,
                                                pitch=0.,
                                                omega=test_omega,
                                                altitude=altitude,
-                                               delta_isa=0.,
+                                               delta_isa=delta_isa,
                                                speed=V)
                     Power += res.power * p_factor
                         
-- 
2.43.0


From ceaa2e126ec55b113202bb816b5ac458e5b7d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:51 +0000
Subject: [PATCH 152/173] fix: take-off weight search leaves the take-off mass
 of the vehicle as given

---
 .../Methods/Performance/find_take_off_weight_given_tofl.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
index 787a872..845e089 100644
--- a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
+++ b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
@@ -47,7 +47,7 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
     tow_upper = 1.10 * vehicle.mass_properties.max_takeoff
 
     #saving initial reference takeoff weight
-    tow_ref = vehicle.mass_properties.max_takeoff
+    tow_ref = vehicle.mass_properties.takeoff
 
     tow_vec = np.linspace(tow_lower,tow_upper,50)
     tofl    = np.zeros_like(tow_vec)
@@ -63,6 +63,6 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
         max_tow[id] = np.interp(toflid,tofl,tow_vec)
 
     #reset the initial takeoff weight
-    vehicle.mass_properties.max_takeoff = tow_ref
+    vehicle.mass_properties.takeoff = tow_ref
 
     return max_tow
\ No newline at end of file
-- 
2.43.0


From a03cecdd669c78e40f9217ebfaceb749b3dbf702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:02 +0000
Subject: [PATCH 153/173] fix: asymmetry drag uses the longitudinal distance to
 the vertical tail

---
 .../Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
index 7521b3e..8a3c62f 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
@@ -74,7 +74,7 @@ def asymmetry_drag(state, geometry, windmilling_drag_coefficient = 0.):
                 break
             
     # getting cg x position
-    xcg = vehicle.mass_properties.center_of_gravity[0] 
+    xcg = vehicle.mass_properties.center_of_gravity[0][0]
     
     # getting engine y position and calculating thrust
     for idx,net in enumerate(nets):
@@ -97,7 +97,7 @@ def asymmetry_drag(state, geometry, windmilling_drag_coefficient = 0.):
 
     # getting vertical tail data (span, distance to cg)
     vertical_height = wings[vertical_idx].spans.projected
-    vertical_dist   = wings[vertical_idx].aerodynamic_center[0] + wings[vertical_idx].origin[0] - xcg
+    vertical_dist   = wings[vertical_idx].aerodynamic_center[0] + wings[vertical_idx].origin[0][0] - xcg
     
     # colculating windmilling drag
     if windmilling_drag_coefficient == 0:
-- 
2.43.0


From 791343aee932ce0dc6b6bd1144a4925268f0bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:02 +0000
Subject: [PATCH 154/173] fix: windmilling and asymmetry drag of a vehicle
 without a reference area

---
 .../Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py   | 4 ++--
 .../Common/Fidelity_Zero/Helper_Functions/windmilling_drag.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
index 8a3c62f..2a39290 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
@@ -63,14 +63,14 @@ def asymmetry_drag(state, geometry, windmilling_drag_coefficient = 0.):
         for wing in wings:
             if not isinstance(wing,Wings.Main_Wing): continue
             n_wing = n_wing + 1
-            reference_area = wing.sref
+            reference_area = wing.areas.reference
         if n_wing > 1:
             print(' More than one Main_Wing in the vehicle. Last one will be considered.')
         elif n_wing == 0:
             print('No Main_Wing defined! Using the 1st wing found')
             for wing in wings:
                 if not isinstance(wing,Wings.Wing): continue
-                reference_area = wing.sref
+                reference_area = wing.areas.reference
                 break
             
     # getting cg x position
diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/windmilling_drag.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/windmilling_drag.py
index dce1ad5..bfe5e0d 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/windmilling_drag.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/windmilling_drag.py
@@ -56,14 +56,14 @@ def windmilling_drag(geometry,state):
         for wing in vehicle.wings:
             if not isinstance(wing,Wings.Main_Wing): continue
             n_wing = n_wing + 1
-            reference_area = wing.sref
+            reference_area = wing.areas.reference
         if n_wing > 1:
             print(' More than one Main_Wing in the vehicle. Last one will be considered.')
         elif n_wing == 0:
             print('No Main_Wing defined! Using the 1st wing found')
             for wing in vehicle.wings:
                 if not isinstance(wing,Wings.Wing): continue
-                reference_area = wing.sref
+                reference_area = wing.areas.reference
                 break
 
     # getting geometric data from engine (estimating when not available)
-- 
2.43.0


From ef405374c790b213871f7a5e4863f4c38153cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:47 +0000
Subject: [PATCH 155/173] fix: minimum cruise speed of the part 25 V-n diagram

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index ef88b53..0f28e03 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -303,7 +303,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
             Uref_dive   = 0.5 * Uref_cruise
             
         # Minimum Cruise speed Vc_min
-        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.72424 * Uref_cruise**2 - airspeeds_pos[1]**2]
+        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.7424 * Uref_cruise**2 - airspeeds_pos[1]**2]
         Vc1   = max(np.roots(coefs))
         
     elif FAR_part_number == 23:           
-- 
2.43.0


From 41edcbfe2e910d50feebbd233615d9033c8766b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:35 +0000
Subject: [PATCH 156/173] fix: V-n envelope keeps the maneuver limit at cruise
 speed when only the rough air gust exceeds it

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index 0f28e03..c4bf202 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -708,10 +708,10 @@ def gust_loads(category_tag, V_n_data, Kg, CLa, Num_of_points, FAR_part_number,
         # insert the cruise speed Vc in the positive load factor line
         if load_factors[1] > 0:
             airspeeds    = np.concatenate((airspeeds[:(Num_of_points + 3)], [Vc], airspeeds[(Num_of_points + 3):]))
-            load_factors = np.concatenate((load_factors[:(Num_of_points + 3)], [gust_load_factors[2]], \
+            load_factors = np.concatenate((load_factors[:(Num_of_points + 3)], [max(gust_load_factors[2], limit_load)], \
                                            load_factors[(Num_of_points + 3):]))
         else:
-            load_factors[len(airspeeds)-2] = gust_load_factors[2]
+            load_factors[len(airspeeds)-2] = min(gust_load_factors[2], limit_load)
 
     # Intersection between cruise gust load and maximum load at Vc
     elif abs(gust_load_factors[2]) > abs(limit_load):
-- 
2.43.0


From 5a13a49a6d26d9c306159d256e8c5fc44bb47bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:06 +0000
Subject: [PATCH 157/173] fix: AVL Cm_r is read from the pitching moment row

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index ca8671c..aa4d7ed 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -98,7 +98,7 @@ def read_results(avl_object):
             case_res.stability.Cl_r                                         = float(lines[46+num_ctrl][65:74].strip())
             case_res.stability.Cm_p                                         = float(lines[47+num_ctrl][24:34].strip())
             case_res.stability.Cm_q                                         = float(lines[47+num_ctrl][43:54].strip())
-            case_res.stability.Cm_r                                         = float(lines[44+num_ctrl][65:74].strip())
+            case_res.stability.Cm_r                                         = float(lines[47+num_ctrl][65:74].strip())
             case_res.stability.Cn_p                                         = float(lines[48+num_ctrl][24:34].strip())
             case_res.stability.Cn_q                                         = float(lines[48+num_ctrl][43:54].strip())
             case_res.stability.Cn_r                                         = float(lines[48+num_ctrl][65:74].strip())
-- 
2.43.0


From 9fca1b1a7700858a3f55e8d60c7ddd830d2e9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:06 +0000
Subject: [PATCH 158/173] fix: AVL results are read over the full width of
 their columns

---
 .../Methods/Aerodynamics/AVL/read_results.py  | 120 +++++++++---------
 1 file changed, 60 insertions(+), 60 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index aa4d7ed..c983844 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -52,21 +52,21 @@ def read_results(avl_object):
                                                                             
             case_res.tag                                                    = case.tag 
             lines                                                           = stab_der_vile.readlines()
-            case_res.S_ref                                                  = float(lines[8][10:16].strip())
-            case_res.c_ref                                                  = float(lines[8][31:37].strip())
-            case_res.b_ref                                                  = float(lines[8][52:58].strip())
-            case_res.X_ref                                                  = float(lines[9][10:16].strip())
-            case_res.Y_ref                                                  = float(lines[9][31:37].strip())
-            case_res.Z_ref                                                  = float(lines[9][52:58].strip())  
+            case_res.S_ref                                                  = float(lines[8][8:20].strip())
+            case_res.c_ref                                                  = float(lines[8][29:41].strip())
+            case_res.b_ref                                                  = float(lines[8][50:62].strip())
+            case_res.X_ref                                                  = float(lines[9][8:20].strip())
+            case_res.Y_ref                                                  = float(lines[9][29:41].strip())
+            case_res.Z_ref                                                  = float(lines[9][50:62].strip())  
                                                                             
-            case_res.aerodynamics.AoA                                       = float(lines[15][10:19].strip())
-            case_res.aerodynamics.CX                                        = float(lines[19][11:19].strip())
-            case_res.aerodynamics.CY                                        = float(lines[20][11:19].strip()) 
-            case_res.aerodynamics.CZ                                        = float(lines[21][11:19].strip())
+            case_res.aerodynamics.AoA                                       = float(lines[15][9:19].strip())
+            case_res.aerodynamics.CX                                        = float(lines[19][9:19].strip())
+            case_res.aerodynamics.CY                                        = float(lines[20][9:19].strip()) 
+            case_res.aerodynamics.CZ                                        = float(lines[21][9:19].strip())
                                                                             
-            case_res.aerodynamics.Cltot                                     = float(lines[19][33:41].strip())
-            case_res.aerodynamics.Cmtot                                     = float(lines[20][33:41].strip()) 
-            case_res.aerodynamics.Cntot                                     = float(lines[21][33:41].strip())
+            case_res.aerodynamics.Cltot                                     = float(lines[19][31:42].strip())
+            case_res.aerodynamics.Cmtot                                     = float(lines[20][31:42].strip()) 
+            case_res.aerodynamics.Cntot                                     = float(lines[21][31:42].strip())
                                                                             
             case_res.aerodynamics.roll_moment_coefficient                   = float(lines[19][32:42].strip())
             case_res.aerodynamics.pitch_moment_coefficient                  = float(lines[20][32:42].strip())
@@ -77,31 +77,31 @@ def read_results(avl_object):
             case_res.aerodynamics.induced_drag_coefficient                  = float(lines[25][32:42].strip())
             case_res.aerodynamics.oswald_efficiency                         = float(lines[27][32:42].strip())
                
-            case_res.stability.alpha_derivatives.lift_curve_slope           = float(lines[36+num_ctrl][24:34].strip()) # CL_a
-            case_res.stability.alpha_derivatives.side_force_derivative      = float(lines[37+num_ctrl][24:34].strip()) # CY_a
-            case_res.stability.alpha_derivatives.roll_moment_derivative     = float(lines[38+num_ctrl][24:34].strip()) # Cl_a
-            case_res.stability.alpha_derivatives.pitch_moment_derivative    = float(lines[39+num_ctrl][24:34].strip()) # Cm_a
-            case_res.stability.alpha_derivatives.yaw_moment_derivative      = float(lines[40+num_ctrl][24:34].strip()) # Cn_a
+            case_res.stability.alpha_derivatives.lift_curve_slope           = float(lines[36+num_ctrl][23:34].strip()) # CL_a
+            case_res.stability.alpha_derivatives.side_force_derivative      = float(lines[37+num_ctrl][23:34].strip()) # CY_a
+            case_res.stability.alpha_derivatives.roll_moment_derivative     = float(lines[38+num_ctrl][23:34].strip()) # Cl_a
+            case_res.stability.alpha_derivatives.pitch_moment_derivative    = float(lines[39+num_ctrl][23:34].strip()) # Cm_a
+            case_res.stability.alpha_derivatives.yaw_moment_derivative      = float(lines[40+num_ctrl][23:34].strip()) # Cn_a
             case_res.stability.beta_derivatives.lift_coefficient_derivative = float(lines[36+num_ctrl][43:54].strip()) # CL_b
             case_res.stability.beta_derivatives.side_force_derivative       = float(lines[37+num_ctrl][43:54].strip()) # CY_b
             case_res.stability.beta_derivatives.roll_moment_derivative      = float(lines[38+num_ctrl][43:54].strip()) # Cl_b
             case_res.stability.beta_derivatives.pitch_moment_derivative     = float(lines[39+num_ctrl][43:54].strip()) # Cm_b
             case_res.stability.beta_derivatives.yaw_moment_derivative       = float(lines[40+num_ctrl][43:54].strip()) # Cn_b
-            case_res.stability.CL_p                                         = float(lines[44+num_ctrl][24:34].strip())
+            case_res.stability.CL_p                                         = float(lines[44+num_ctrl][23:34].strip())
             case_res.stability.CL_q                                         = float(lines[44+num_ctrl][43:54].strip())
-            case_res.stability.CL_r                                         = float(lines[44+num_ctrl][65:74].strip())
-            case_res.stability.CY_p                                         = float(lines[45+num_ctrl][24:34].strip())
+            case_res.stability.CL_r                                         = float(lines[44+num_ctrl][63:74].strip())
+            case_res.stability.CY_p                                         = float(lines[45+num_ctrl][23:34].strip())
             case_res.stability.CY_q                                         = float(lines[45+num_ctrl][43:54].strip())
-            case_res.stability.CY_r                                         = float(lines[45+num_ctrl][65:74].strip())
-            case_res.stability.Cl_p                                         = float(lines[46+num_ctrl][24:34].strip())
+            case_res.stability.CY_r                                         = float(lines[45+num_ctrl][63:74].strip())
+            case_res.stability.Cl_p                                         = float(lines[46+num_ctrl][23:34].strip())
             case_res.stability.Cl_q                                         = float(lines[46+num_ctrl][43:54].strip())
-            case_res.stability.Cl_r                                         = float(lines[46+num_ctrl][65:74].strip())
-            case_res.stability.Cm_p                                         = float(lines[47+num_ctrl][24:34].strip())
+            case_res.stability.Cl_r                                         = float(lines[46+num_ctrl][63:74].strip())
+            case_res.stability.Cm_p                                         = float(lines[47+num_ctrl][23:34].strip())
             case_res.stability.Cm_q                                         = float(lines[47+num_ctrl][43:54].strip())
-            case_res.stability.Cm_r                                         = float(lines[47+num_ctrl][65:74].strip())
-            case_res.stability.Cn_p                                         = float(lines[48+num_ctrl][24:34].strip())
+            case_res.stability.Cm_r                                         = float(lines[47+num_ctrl][63:74].strip())
+            case_res.stability.Cn_p                                         = float(lines[48+num_ctrl][23:34].strip())
             case_res.stability.Cn_q                                         = float(lines[48+num_ctrl][43:54].strip())
-            case_res.stability.Cn_r                                         = float(lines[48+num_ctrl][65:74].strip())
+            case_res.stability.Cn_r                                         = float(lines[48+num_ctrl][63:74].strip())
              
             # this block of text reads in aerodynamic results related to the defined control surfaces 
             if num_ctrl != 0: 
@@ -146,9 +146,9 @@ def read_results(avl_object):
             line_idx     = 0
             header       = 12 + n_wings + n_fus_sec           
             for i in range(n_wings):
-                wing_area[i] = float(aero_lines[header + line_idx][7:14].strip())
-                wing_CL[i]   = float(aero_lines[header + line_idx][26:32].strip())
-                wing_CD[i]   = float(aero_lines[header + line_idx][35:41].strip())
+                wing_area[i] = float(aero_lines[header + line_idx][4:14].strip())
+                wing_CL[i]   = float(aero_lines[header + line_idx][24:33].strip())
+                wing_CD[i]   = float(aero_lines[header + line_idx][33:42].strip())
                 line_idx += 1                   
             case_res.aerodynamics.wing_areas = wing_area 
             case_res.aerodynamics.wing_CLs   = wing_CL 
@@ -163,13 +163,13 @@ def read_results(avl_object):
             
             for i in range(n_wings): 
                 for j in range(n_sw):
-                    wing_local_span[i,j]      = float(aero_lines_2[header + j + line_idx][8:16].strip())
-                    wing_sectional_chord[i,j] = float(aero_lines_2[header + j + line_idx][16:24].strip()) 
-                    wing_cl[i,j]              = float(aero_lines_2[header + j + line_idx][61:69].strip())  
+                    wing_local_span[i,j]      = float(aero_lines_2[header + j + line_idx][6:15].strip())
+                    wing_sectional_chord[i,j] = float(aero_lines_2[header + j + line_idx][15:24].strip()) 
+                    wing_cl[i,j]              = float(aero_lines_2[header + j + line_idx][60:69].strip())  
                     # At high angle of attacks, AVL does not give an answer 
                     try:
-                        alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][43:51].strip())
-                        wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][70:78].strip())
+                        alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][42:51].strip())
+                        wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][69:78].strip())
                     except:
                         alpha_i[i,j]              = 0.
                         wing_cd[i,j]              = 0.
@@ -184,43 +184,43 @@ def read_results(avl_object):
             # Extract results from body axis derivatives file                         
                                                                            
             lines_2                  = bod_der_vile.readlines() 
-            case_res.stability.CX_u  = float(lines_2[36+num_ctrl][24:34].strip())
+            case_res.stability.CX_u  = float(lines_2[36+num_ctrl][23:34].strip())
             case_res.stability.CX_v  = float(lines_2[36+num_ctrl][43:54].strip())
-            case_res.stability.CX_w  = float(lines_2[36+num_ctrl][65:74].strip())
-            case_res.stability.CY_u  = float(lines_2[37+num_ctrl][24:34].strip())
+            case_res.stability.CX_w  = float(lines_2[36+num_ctrl][63:74].strip())
+            case_res.stability.CY_u  = float(lines_2[37+num_ctrl][23:34].strip())
             case_res.stability.CY_v  = float(lines_2[37+num_ctrl][43:54].strip())
-            case_res.stability.CY_w  = float(lines_2[37+num_ctrl][65:74].strip())
-            case_res.stability.CZ_u  = float(lines_2[38+num_ctrl][24:34].strip())
+            case_res.stability.CY_w  = float(lines_2[37+num_ctrl][63:74].strip())
+            case_res.stability.CZ_u  = float(lines_2[38+num_ctrl][23:34].strip())
             case_res.stability.CZ_v  = float(lines_2[38+num_ctrl][43:54].strip())
-            case_res.stability.CZ_w  = float(lines_2[38+num_ctrl][65:74].strip())
-            case_res.stability.Cl_u  = float(lines_2[39+num_ctrl][24:34].strip())
+            case_res.stability.CZ_w  = float(lines_2[38+num_ctrl][63:74].strip())
+            case_res.stability.Cl_u  = float(lines_2[39+num_ctrl][23:34].strip())
             case_res.stability.Cl_v  = float(lines_2[39+num_ctrl][43:54].strip())
-            case_res.stability.Cl_w  = float(lines_2[39+num_ctrl][65:74].strip())
-            case_res.stability.Cm_u  = float(lines_2[40+num_ctrl][24:34].strip())
+            case_res.stability.Cl_w  = float(lines_2[39+num_ctrl][63:74].strip())
+            case_res.stability.Cm_u  = float(lines_2[40+num_ctrl][23:34].strip())
             case_res.stability.Cm_v  = float(lines_2[40+num_ctrl][43:54].strip())
-            case_res.stability.Cm_w  = float(lines_2[40+num_ctrl][65:74].strip())
-            case_res.stability.Cn_u  = float(lines_2[41+num_ctrl][24:34].strip())
+            case_res.stability.Cm_w  = float(lines_2[40+num_ctrl][63:74].strip())
+            case_res.stability.Cn_u  = float(lines_2[41+num_ctrl][23:34].strip())
             case_res.stability.Cn_v  = float(lines_2[41+num_ctrl][43:54].strip())
-            case_res.stability.Cn_w  = float(lines_2[41+num_ctrl][65:74].strip())
+            case_res.stability.Cn_w  = float(lines_2[41+num_ctrl][63:74].strip())
             
-            case_res.stability.CX_p  = float(lines_2[45+num_ctrl][24:34].strip())
+            case_res.stability.CX_p  = float(lines_2[45+num_ctrl][23:34].strip())
             case_res.stability.CX_q  = float(lines_2[45+num_ctrl][43:54].strip())
-            case_res.stability.CX_r  = float(lines_2[45+num_ctrl][65:74].strip())
-            case_res.stability.CY_p  = float(lines_2[46+num_ctrl][24:34].strip())
+            case_res.stability.CX_r  = float(lines_2[45+num_ctrl][63:74].strip())
+            case_res.stability.CY_p  = float(lines_2[46+num_ctrl][23:34].strip())
             case_res.stability.CY_q  = float(lines_2[46+num_ctrl][43:54].strip())
-            case_res.stability.CY_r  = float(lines_2[46+num_ctrl][65:74].strip())
-            case_res.stability.CZ_p  = float(lines_2[47+num_ctrl][24:34].strip())
+            case_res.stability.CY_r  = float(lines_2[46+num_ctrl][63:74].strip())
+            case_res.stability.CZ_p  = float(lines_2[47+num_ctrl][23:34].strip())
             case_res.stability.CZ_q  = float(lines_2[47+num_ctrl][43:54].strip())
-            case_res.stability.CZ_r  = float(lines_2[47+num_ctrl][65:74].strip())
-            case_res.stability.Cl_p  = float(lines_2[48+num_ctrl][24:34].strip())
+            case_res.stability.CZ_r  = float(lines_2[47+num_ctrl][63:74].strip())
+            case_res.stability.Cl_p  = float(lines_2[48+num_ctrl][23:34].strip())
             case_res.stability.Cl_q  = float(lines_2[48+num_ctrl][43:54].strip())
-            case_res.stability.Cl_r  = float(lines_2[48+num_ctrl][65:74].strip())
-            case_res.stability.Cm_p  = float(lines_2[49+num_ctrl][24:34].strip())
+            case_res.stability.Cl_r  = float(lines_2[48+num_ctrl][63:74].strip())
+            case_res.stability.Cm_p  = float(lines_2[49+num_ctrl][23:34].strip())
             case_res.stability.Cm_q  = float(lines_2[49+num_ctrl][43:54].strip())
-            case_res.stability.Cm_r  = float(lines_2[49+num_ctrl][65:74].strip())
-            case_res.stability.Cn_p  = float(lines_2[50+num_ctrl][24:34].strip())
+            case_res.stability.Cm_r  = float(lines_2[49+num_ctrl][63:74].strip())
+            case_res.stability.Cn_p  = float(lines_2[50+num_ctrl][23:34].strip())
             case_res.stability.Cn_q  = float(lines_2[50+num_ctrl][43:54].strip())
-            case_res.stability.Cn_r  = float(lines_2[50+num_ctrl][65:74].strip())
+            case_res.stability.Cn_r  = float(lines_2[50+num_ctrl][63:74].strip())
             
                 
         results.append(case_res)
-- 
2.43.0


From 9a4d439675adec800798b1afbb55964c248cd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:06 +0000
Subject: [PATCH 159/173] fix: AVL run cases are given the freestream velocity

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
index e4da747..9540941 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
@@ -47,6 +47,7 @@ def translate_conditions_to_cases(avl ,conditions):
         case.tag                                              = avl.settings.filenames.case_template.format(avl.current_status.batch_index,i+1)
         case.mass                                             = conditions.weights.total_mass
         case.conditions.freestream.mach                       = conditions.freestream.mach_number
+        case.conditions.freestream.velocity                   = conditions.freestream.velocity
         case.conditions.freestream.density                    = conditions.freestream.density
         case.conditions.freestream.gravitational_acceleration = conditions.freestream.gravity      
         case.conditions.aerodynamics.angle_of_attack          = conditions.aerodynamics.angle_of_attack[i]/Units.deg
-- 
2.43.0


From daa430e7c8c217a505a729a84a6b9cc5d08e4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 160/173] fix: AVL results hold the drag coefficient

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
index 9540941..fd9f335 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/translate_data.py
@@ -116,6 +116,7 @@ def translate_results_to_conditions(cases,results):
     res.aerodynamics.pitch_moment_coefficient                = np.zeros_like(res.S_ref)
     res.aerodynamics.yaw_moment_coefficient                  = np.zeros_like(res.S_ref)  
     res.aerodynamics.lift_coefficient                        = np.zeros_like(res.S_ref)
+    res.aerodynamics.drag_coefficient                        = np.zeros_like(res.S_ref)
     res.aerodynamics.drag_breakdown.induced                  = SUAVE.Analyses.Mission.Segments.Conditions.Conditions()
     res.aerodynamics.drag_breakdown.induced.total            = np.zeros_like(res.S_ref)
     res.aerodynamics.drag_breakdown.induced.efficiency_factor= np.zeros_like(res.S_ref)
@@ -227,6 +228,7 @@ def translate_results_to_conditions(cases,results):
         res.aerodynamics.pitch_moment_coefficient[i][0]     = case_res.aerodynamics.pitch_moment_coefficient
         res.aerodynamics.yaw_moment_coefficient[i][0]       = case_res.aerodynamics.yaw_moment_coefficient
         res.aerodynamics.lift_coefficient[i][0]             = case_res.aerodynamics.total_lift_coefficient
+        res.aerodynamics.drag_coefficient[i][0]             = case_res.aerodynamics.total_drag_coefficient
         res.aerodynamics.drag_breakdown.induced.total[i][0] = case_res.aerodynamics.induced_drag_coefficient
         res.aerodynamics.drag_breakdown.induced.efficiency_factor[i][0]  = case_res.aerodynamics.oswald_efficiency 
         res.aerodynamics.oswald_efficiency[i][0]            = case_res.aerodynamics.oswald_efficiency 
-- 
2.43.0


From 8ec5316aea25addb6b436374eff5636ebba79a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 161/173] fix: sideslip angle of AVL run cases is in degrees

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
index 7ead4f3..d428437 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
@@ -12,6 +12,7 @@
 #  Imports
 # ----------------------------------------------------------------------
 from SUAVE.Methods.Aerodynamics.AVL.purge_files       import purge_files
+from SUAVE.Core import Units
 from SUAVE.Components.Wings.Control_Surfaces import Aileron , Elevator , Slat , Flap , Rudder 
 
 ## @ingroup Analyses-AVL
@@ -109,7 +110,7 @@ def write_run_cases(avl_object,trim_aircraft):
             CL    = case.conditions.aerodynamics.lift_coefficient
             CDp   = 0.
             AoA   = round(case.conditions.aerodynamics.angle_of_attack,4)
-            beta  = round(case.conditions.aerodynamics.side_slip_angle,4)
+            beta  = round(case.conditions.aerodynamics.side_slip_angle/Units.degrees,4)
             pb_2V = round(case.conditions.aerodynamics.roll_rate_coefficient,4)
             qc_2V = round(case.conditions.aerodynamics.pitch_rate_coefficient,4)
             mach  = round(case.conditions.freestream.mach,4)
-- 
2.43.0


From 6d9fae5dc108917d82f26fe84f7076b90b406716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 162/173] fix: AVL run cases constrain a flap by its own name

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
index d428437..d53833c 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
@@ -176,7 +176,7 @@ def make_controls_case_text(cs_names,avl_aircraft):
                 # This condition block assigns the control surface to a particular stabiltiy response 
                 if (type(ctrl_surf) ==  Flap):         # if control surface function is 'flap', specify to AVL that it is a flap
                     ctrl_name = "{:<13}".format(ctrl_surf.tag)
-                    variable  = 'flap        '
+                    variable  = "{:<12}".format(ctrl_surf.tag)
                 elif (type(ctrl_surf) ==  Aileron):    # if control surface funcion is 'aileron', specify to AVL that this is used to produce no roll moment
                     ctrl_name = "{:<13}".format(ctrl_surf.tag)
                     variable  = 'Cl roll mom '
-- 
2.43.0


From 09eeb2f3b28f626e77ed25a4f9fa46c4a78525c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 163/173] fix: AVL mass of a vehicle with both its mass and its
 maximum take-off mass

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_mass_file.py | 7 +++----
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_mass_file.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_mass_file.py
index c60d9dd..efe0342 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_mass_file.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_mass_file.py
@@ -67,11 +67,10 @@ rho = {2}
         density = run_conditions.freestream.density 
         gravity = run_conditions.freestream.gravity
         
-        if aircraft.mass_properties.mass == 0:
+        mass = aircraft.mass_properties.mass
+        if mass == 0:
             mass = aircraft.mass_properties.max_takeoff
-        elif aircraft.mass_properties.max_takeoff == 0:
-            mass = aircraft.mass_properties.mass
-        else:
+        if mass == 0:
             raise AttributeError("Specify Vehicle Mass")
          
         x       = aircraft.mass_properties.center_of_gravity[0][0]
diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
index d53833c..a26b8f9 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
@@ -94,7 +94,7 @@ def write_run_cases(avl_object,trim_aircraft):
         x_cg = aircraft.mass_properties.center_of_gravity[0][0]
         y_cg = aircraft.mass_properties.center_of_gravity[0][1]
         z_cg = aircraft.mass_properties.center_of_gravity[0][2]
-        mass = aircraft.mass_properties.mass
+        mass  = aircraft.mass_properties.mass or aircraft.mass_properties.max_takeoff
         moments_of_inertia = aircraft.mass_properties.moments_of_inertia.tensor
         Ixx  = moments_of_inertia[0][0]
         Iyy  = moments_of_inertia[1][1]
-- 
2.43.0


From f6dcca982387ee205f4b68d46e4587c9832e0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 164/173] fix: pitch rate of a trimmed AVL case is not given as
 yaw rate

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
index a0e8e89..37f73d6 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
@@ -220,8 +220,8 @@ def make_pitch_rate_text_command(case):
     """       
     base_pitch_command = \
 '''
-Y
-Y
+P
+P
 {0}'''       
     pitch_rate_coeff   = case.conditions.aerodynamics.pitch_rate_coefficient  
     if pitch_rate_coeff != 0.0:
-- 
2.43.0


From 95b77ad19d31eebea95d32624dbd9c374a17fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 165/173] fix: body axis derivatives file of AVL is purged like
 the others

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
index 37f73d6..22d6148 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
@@ -130,7 +130,8 @@ x
     if not avl_object.settings.keep_files:
         purge_files([aero_file_1])
         purge_files([aero_file_2])
-        purge_files([aero_file_3])      
+        purge_files([aero_file_3])
+        purge_files([aero_file_4])
     
     # write input deck for avl executable 
     case_command = base_case_command.format(index,trim_command,roll_rate_command,pitch_rate_command ,beta_command,aero_command_1 , aero_file_1 ,aero_command_2  \
-- 
2.43.0


From 877e4f49ea3dba936895e65edc89bff92893c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 166/173] fix: AVL deflections go to the control surfaces they
 belong to

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
index 22d6148..5ef284f 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
@@ -282,7 +282,8 @@ D{1}
     cs_idx = 1 
     cs_commands = ''
     for wing in aircraft.geometry.wings:
-        for ctrl_surf in wing.control_surfaces:
+        # AVL numbers the control surfaces in the order they appear in the geometry file
+        for ctrl_surf in sorted(wing.control_surfaces, key = lambda x: x.span_fraction_start):
             cs_command = cs_template.format(cs_idx,cs_idx,round(ctrl_surf.deflection/Units.degrees,4))
             cs_commands = cs_commands + cs_command
             cs_idx += 1
-- 
2.43.0


From 914dd40084bd52df67bf039a839bad95b5b534f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 167/173] fix: saved AVL stability training data hold the
 neutral point

---
 trunk/SUAVE/Analyses/Stability/AVL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index d5e844f..c976ac5 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -314,7 +314,7 @@ class AVL(Stability):
             CM_1D       = CM.reshape([len(AoA)*len(Mach),1]) 
             Cm_alpha_1D = Cm_alpha.reshape([len(AoA)*len(Mach),1])  
             Cn_beta_1D  = Cn_beta.reshape([len(AoA)*len(Mach),1])         
-            NP_1D       = Cn_beta.reshape([len(AoA)*len(Mach),1]) 
+            NP_1D       = NP.reshape([len(AoA)*len(Mach),1]) 
             np.savetxt(geometry.tag+'_stability_data.txt',np.hstack([CM_1D,Cm_alpha_1D, Cn_beta_1D,NP_1D ]),fmt='%10.8f',header='   CM       Cm_alpha       Cn_beta       NP ')
         
         # Store training data
-- 
2.43.0


From b5e337ae91f9a3562f3796674f7789d366e2e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 168/173] fix: static margin of the AVL stability surrogate
 uses the longitudinal center of gravity

---
 trunk/SUAVE/Analyses/Stability/AVL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index c976ac5..e75eb43 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -213,7 +213,7 @@ class AVL(Stability):
         static_stability.Cm_alpha      = Cm_alpha 
         static_stability.Cn_beta       = Cn_beta   
         static_stability.neutral_point = NP 
-        static_stability.static_margin = (NP - cg)/MAC    
+        static_stability.static_margin = (NP - cg[0])/MAC    
  
         results         = Data()
         results.static  = static_stability
-- 
2.43.0


From 8caa0f7b5fc6a56cbb7684d9327e7b8131b01b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 169/173] fix: AVL airfoil files hold all points of the
 airfoil, of any path

---
 .../Methods/Aerodynamics/AVL/write_avl_airfoil_file.py    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_avl_airfoil_file.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_avl_airfoil_file.py
index 8c06688..54b3ca4 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_avl_airfoil_file.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_avl_airfoil_file.py
@@ -41,7 +41,7 @@ def write_avl_airfoil_file(suave_airfoil_filename):
     # read airfoil file header 
     origin  = os.getcwd()
     os_path = os.path.split(origin)[0]
-    f_path  = os_path + '/' + suave_airfoil_filename
+    f_path  = os.path.join(os_path, suave_airfoil_filename)
     f = open(f_path)  
     data_block = f.readlines() 
     f.close()   
@@ -54,10 +54,8 @@ def write_avl_airfoil_file(suave_airfoil_filename):
     # write file  
     with open(avl_airfoil_filename,'w') as afile:
             afile.write(airfoil_name + "\n")  
-            for i in range(dim - 1):
-                if i == int(dim/2):
-                    pass  
-                elif airfoil_geometry_data.y_coordinates[i] < 0.0:
+            for i in range(dim):
+                if airfoil_geometry_data.y_coordinates[i] < 0.0:
                     case_text = '\t' + format(airfoil_geometry_data.x_coordinates[i], '.7f')+ "   " + format(airfoil_geometry_data.y_coordinates[i], '.7f') + "\n" 
                     afile.write(case_text)
                 else:   
-- 
2.43.0


From b6dbdd3b6d0542d5ce8da86cf8d387f1e5adb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 170/173] fix: twist of AVL sections at control surfaces

---
 .../SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
index fcc7055..0feafd9 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
@@ -311,7 +311,7 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
         semispan_section_fraction = (ordered_section_spans[section_count] - semispan*root_percent_span)/(semispan*(tip_percent_span - root_percent_span ))   
         section.chord             = np.interp(semispan_section_fraction,[0.,1.],[root_section_chord,tip_section_chord])
         root_section_twist        = root_twist/Units.degrees 
-        tip_section_twist         = root_chord*tip_twist/Units.degrees  
+        tip_section_twist         = tip_twist/Units.degrees  
         section.twist             = np.interp(semispan_section_fraction,[0.,1.],[root_section_twist,tip_section_twist]) 
 
         # if wing is a vertical wing, the y and z coordinates are swapped 
-- 
2.43.0


From 25f969ca4d4448310184a2801852c23c422845e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:45 +0000
Subject: [PATCH 171/173] fix: AVL sections of wings with dihedral or anhedral
 lie where the segments are

---
 .../AVL/create_avl_datastructure.py           | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
index 0feafd9..8cd82c1 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
@@ -186,16 +186,11 @@ def populate_wing_sections(avl_wing,suave_wing):
                     inverted_wing  = 1
                 dz = inverted_wing*semispan*segment_percent_span
                 dy = dz*np.tan(dihedral)
-                l  = dz/np.cos(dihedral)
-                dx = l*np.tan(sweep)
+                dx = abs(dz)*np.tan(sweep)
             else:
-                inverted_wing = np.sign(dihedral)
-                if inverted_wing  == 0:
-                    inverted_wing  = 1
-                dy = inverted_wing*semispan*segment_percent_span
+                dy = semispan*segment_percent_span
                 dz = dy*np.tan(dihedral)
-                l  = dy/np.cos(dihedral)
-                dx = l*np.tan(sweep)
+                dx = dy*np.tan(sweep)
             origin= [[origin[0][0] + dx , origin[0][1] + dy, origin[0][2] + dz]]  
         
     else:    
@@ -318,17 +313,13 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
         if avl_wing.vertical:
             inverted_wing = -np.sign(abs(dihedral) - np.pi/2)
             if inverted_wing  == 0: inverted_wing  = 1
-            dz = ordered_section_spans[section_count] -  inverted_wing*semispan*root_percent_span
+            dz = inverted_wing*(ordered_section_spans[section_count] - semispan*root_percent_span)
             dy = dz*np.tan(dihedral)
-            l  = dz/np.cos(dihedral)
-            dx = l*np.tan(sweep)                                                            
+            dx = abs(dz)*np.tan(sweep)
         else:
-            inverted_wing = np.sign(dihedral)
-            if inverted_wing  == 0: inverted_wing  = 1
-            dy = ordered_section_spans[section_count] - inverted_wing*semispan*root_percent_span
+            dy = ordered_section_spans[section_count] - semispan*root_percent_span
             dz = dy*np.tan(dihedral)
-            l  = dy/np.cos(dihedral)
-            dx = l*np.tan(sweep)
+            dx = dy*np.tan(sweep)
         section.origin = [[origin[0][0] + dx , origin[0][1] + dy, origin[0][2] + dz]]              
 
         # this loop appends all the control surfaces within a particular wing section
-- 
2.43.0


From 620d4cc1947b31522fb411854a6224de855df10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:38 +0000
Subject: [PATCH 172/173] fix: control surfaces and airfoils at the sections of
 AVL wings

---
 .../AVL/create_avl_datastructure.py           | 158 +++++++++---------
 1 file changed, 83 insertions(+), 75 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
index 8cd82c1..fdd4a58 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
@@ -161,6 +161,7 @@ def populate_wing_sections(avl_wing,suave_wing):
             avl_wing.append_section(section)   
     
             if (i_segs == n_segments-1):
+                append_section_control_surfaces(suave_wing,section,semispan,semispan*segments[i_segs].percent_span_location)
                 return avl_wing 
             else:
                 # condition for the presence of control surfaces in segment 
@@ -213,11 +214,16 @@ def populate_wing_sections(avl_wing,suave_wing):
         root_section.chord    = suave_wing.chords.root 
         root_section.twist    = suave_wing.twists.root/Units.degrees
         
+        # assign wing airfoil
+        tip_airfoil           = suave_wing.Airfoil
+        if tip_airfoil:
+            if tip_airfoil.airfoil.coordinate_file is not None:
+                root_section.airfoil_coord_file = write_avl_airfoil_file(tip_airfoil.airfoil.coordinate_file)
+            elif tip_airfoil.airfoil.naca_airfoil is not None:
+                root_section.naca_airfoil       = tip_airfoil.airfoil.naca_airfoil
+        avl_wing.append_section(root_section)
+
         # append control surfaces
-        if suave_wing.Airfoil:
-            tip_airfoil  = suave_wing.Airfoil.airfoil.coordinate_file     
-        else:
-            tip_airfoil = None
         seg_tag            = 'section'   
         append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,1.0,suave_wing.taper,1.0,
                                          0.0,suave_wing.twists.root,suave_wing.twists.tip,tip_airfoil,seg_tag,dihedral,origin,sweep)  
@@ -234,12 +240,11 @@ def populate_wing_sections(avl_wing,suave_wing):
         else: 
             tip_section.origin    = [[origin[0][0]+semispan*np.tan(sweep), origin[0][1]+semispan,origin[0][2]+semispan*np.tan(dihedral)]]
 
-        # assign wing airfoil
-        if suave_wing.Airfoil:
-            root_section.airfoil_coord_file  = suave_wing.Airfoil.airfoil.coordinate_file          
-            tip_section.airfoil_coord_file   = suave_wing.Airfoil.airfoil.coordinate_file     
+        # the tip has the airfoil of the root
+        tip_section.airfoil_coord_file = root_section.airfoil_coord_file
+        tip_section.naca_airfoil       = root_section.naca_airfoil
+        append_section_control_surfaces(suave_wing,tip_section,semispan,semispan)
 
-        avl_wing.append_section(root_section)
         avl_wing.append_section(tip_section)
         
     return avl_wing
@@ -288,14 +293,19 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
             section_spans.append(control_surface_start) 
         if (control_surface_end  < semispan*tip_percent_span) and (control_surface_end  >= semispan*root_percent_span):                         
             section_spans.append(control_surface_end)                                
+        # a control surface that goes on from the previous segment also has to appear at the beginning of this one
+        if (control_surface_start < semispan*root_percent_span) and (control_surface_end > semispan*root_percent_span):
+            section_spans.append(semispan*root_percent_span)
     ordered_section_spans = sorted(list(set(section_spans)))     # sort the section_spans in order to create sections in spanwise order
     num_sections = len(ordered_section_spans)                    # count the number of sections breaks that the segment will contain    \
 
     for section_count in range(num_sections):        
         # create and append sections onto avl wing structure  
+        replaced_section = None
         if ordered_section_spans[section_count] == semispan*root_percent_span:  
             # if control surface begins at beginning of segment, redundant section is removed
             section_tags = list(avl_wing.sections.keys())
+            replaced_section = avl_wing.sections[section_tags[-1]]
             del avl_wing.sections[section_tags[-1]]
 
         # create section for each break in the wing        
@@ -322,73 +332,14 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
             dx = dy*np.tan(sweep)
         section.origin = [[origin[0][0] + dx , origin[0][1] + dy, origin[0][2] + dz]]              
 
-        # this loop appends all the control surfaces within a particular wing section
-        for index  , ctrl_surf in enumerate(suave_wing.control_surfaces):
-            if  (semispan*ctrl_surf.span_fraction_start == ordered_section_spans[section_count]) or \
-                                        (ordered_section_spans[section_count] == semispan*ctrl_surf.span_fraction_end):
-                c                     = Control_Surface()
-                c.tag                 = ctrl_surf.tag                # name of control surface   
-                c.sign_duplicate      = '+1'                         # this float indicates control surface deflection symmetry
-                c.x_hinge             = 1 - ctrl_surf.chord_fraction # this float is the % location of the control surface hinge on the wing 
-                c.deflection          = ctrl_surf.deflection / Units.degrees 
-                c.order               = index
-
-                # if control surface is an aileron, the deflection is asymmetric. This is standard convention from AVL
-                if (type(ctrl_surf) ==  Aileron):
-                    c.sign_duplicate = '-1'
-                    c.function       = 'aileron'
-                    c.gain           = -1.0
-                # if control surface is a slat, the hinge is taken from the leading edge        
-                elif (type(ctrl_surf) ==  Slat):
-                    c.x_hinge   =  -ctrl_surf.chord_fraction
-                    c.function  = 'slat'
-                    c.gain      = -1.0
-                elif (type(ctrl_surf) ==  Flap):
-                    c.function  = 'flap'    
-                    c.gain      = 1.0
-                elif (type(ctrl_surf) ==  Elevator):
-                    c.function  = 'elevator'
-                    c.gain      = 1.0
-                elif (type(ctrl_surf) ==  Rudder):
-                    c.function  = 'rudder'
-                    c.gain      = 1.0
-                else:
-                    raise AttributeError("Define control surface function as 'slat', 'flap', 'elevator' , 'aileron' or 'rudder'")
-                section.append_control_surface(c) 
-
-            elif  (semispan*ctrl_surf.span_fraction_start < ordered_section_spans[section_count]) and \
-                                          (ordered_section_spans[section_count] < semispan*ctrl_surf.span_fraction_end):
-                c                     = Control_Surface()
-                c.tag                 = ctrl_surf.tag                # name of control surface   
-                c.sign_duplicate      = '+1'                         # this float indicates control surface deflection symmetry
-                c.x_hinge             = 1 - ctrl_surf.chord_fraction # this float is the % location of the control surface hinge on the wing 
-                c.deflection          = ctrl_surf.deflection / Units.degrees 
-                c.order               = index
-
-                # if control surface is an aileron, the deflection is asymmetric. This is standard convention from AVL
-                if (type(ctrl_surf) ==  Aileron):
-                    c.sign_duplicate = '-1'
-                    c.function       = 'aileron'
-                    c.gain           = -1.0
-                # if control surface is a slat, the hinge is taken from the leading edge        
-                elif (type(ctrl_surf) ==  Slat):
-                    c.x_hinge   =  -ctrl_surf.chord_fraction
-                    c.function  = 'slat'
-                    c.gain      = -1.0
-                elif (type(ctrl_surf) ==  Flap):
-                    c.function  = 'flap'    
-                    c.gain      = 1.0
-                elif (type(ctrl_surf) ==  Elevator):
-                    c.function  = 'elevator'
-                    c.gain      = 1.0
-                elif (type(ctrl_surf) ==  Rudder):
-                    c.function  = 'rudder'
-                    c.gain      = 1.0
-                else:
-                    raise AttributeError("Define control surface function as 'slat', 'flap', 'elevator' , 'aileron' or 'rudder'")
-                section.append_control_surface(c)                                                  
+        # append all the control surfaces at this section
+        append_section_control_surfaces(suave_wing,section,semispan,ordered_section_spans[section_count])
 
-        if tip_airfoil:
+        # a section that replaces the one at the beginning of the segment keeps its airfoil
+        if replaced_section is not None:
+            section.airfoil_coord_file = replaced_section.airfoil_coord_file
+            section.naca_airfoil       = replaced_section.naca_airfoil
+        elif tip_airfoil:
             if tip_airfoil.airfoil.coordinate_file is not None:
                 section.airfoil_coord_file   = write_avl_airfoil_file(tip_airfoil.airfoil.coordinate_file)
             elif tip_airfoil.airfoil.naca_airfoil is not None:
@@ -397,6 +348,63 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
         avl_wing.append_section(section)  
                         
     return 
+
+def append_section_control_surfaces(suave_wing,section,semispan,section_span):
+
+    """ Appends to a section of an avl wing the control surfaces that start, end or continue there
+
+    Assumptions:
+        None
+
+    Source:
+        None
+
+    Inputs: 
+        suave_wing           [-]
+        section              [-]
+        semispan             [meters]
+        section_span         [meters]
+
+    Outputs: 
+        None
+
+    Properties Used:
+        N/A
+    """
+    for index  , ctrl_surf in enumerate(suave_wing.control_surfaces):
+        if  (semispan*ctrl_surf.span_fraction_start <= section_span) and (section_span <= semispan*ctrl_surf.span_fraction_end):
+            c                     = Control_Surface()
+            c.tag                 = ctrl_surf.tag                # name of control surface   
+            c.sign_duplicate      = '+1'                         # this float indicates control surface deflection symmetry
+            c.x_hinge             = 1 - ctrl_surf.chord_fraction # this float is the % location of the control surface hinge on the wing 
+            c.deflection          = ctrl_surf.deflection / Units.degrees 
+            c.order               = index
+
+            # if control surface is an aileron, the deflection is asymmetric. This is standard convention from AVL
+            if (type(ctrl_surf) ==  Aileron):
+                c.sign_duplicate = '-1'
+                c.function       = 'aileron'
+                c.gain           = -1.0
+            # if control surface is a slat, the hinge is taken from the leading edge        
+            elif (type(ctrl_surf) ==  Slat):
+                c.x_hinge   =  -ctrl_surf.chord_fraction
+                c.function  = 'slat'
+                c.gain      = -1.0
+            elif (type(ctrl_surf) ==  Flap):
+                c.function  = 'flap'    
+                c.gain      = 1.0
+            elif (type(ctrl_surf) ==  Elevator):
+                c.function  = 'elevator'
+                c.gain      = 1.0
+            elif (type(ctrl_surf) ==  Rudder):
+                c.function  = 'rudder'
+                c.gain      = 1.0
+            else:
+                raise AttributeError("Define control surface function as 'slat', 'flap', 'elevator' , 'aileron' or 'rudder'")
+            section.append_control_surface(c)
+
+    return
+
 def populate_body_sections(avl_body,suave_body):
     """ Creates sections of body geometry and populates the AVL body data structure
 
-- 
2.43.0


From b1e27cb1605397bc77a1ddff19cbbc1b2737af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:38 +0000
Subject: [PATCH 173/173] fix: names of AVL control surfaces of more than eight
 letters are not cut

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index c983844..a7de600 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -107,7 +107,7 @@ def read_results(avl_object):
             if num_ctrl != 0: 
                 for ctrl_idx in range(num_ctrl):
                     ctrl_surf = Control_Surface_Results()
-                    ctrl_surf.tag                 = str(lines[29+ctrl_idx][2:11].strip())
+                    ctrl_surf.tag                 = str(lines[29+ctrl_idx][2:19].strip())
                     ctrl_surf.deflection          = float(lines[29+ctrl_idx][21:32].strip())
                     ctrl_surf.CL                  = float(lines[52+num_ctrl][(20*ctrl_idx + 23):(20*ctrl_idx + 34)].strip())
                     ctrl_surf.CY                  = float(lines[53+num_ctrl][(20*ctrl_idx + 23):(20*ctrl_idx + 34)].strip())
-- 
2.43.0

