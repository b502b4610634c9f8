From 68bdbb0b78ead47609a9224edbc6f27df2722a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 01/41] fix: register variables and constraints only after they
 are built successfully

---
 .../problems/quadratic_program.py             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..985f78b 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -203,15 +203,14 @@ class QuadraticProgram:
                     raise QiskitOptimizationError(
                         "Variable name already exists: {}".format(new_name)
                     )
-                if new_name in self._variables_index:
+                if new_name in self._variables_index or new_name in variables:
                     k += 1
                     prev = new_name
                 else:
                     break
             return new_name, k + 1
 
-        names = []
-        variables = []
+        variables = {}  # type: Dict[str, Variable]
         k = self.get_num_vars()
         lst = keys if isinstance(keys, Sequence) else range(keys)
         for key in lst:
@@ -219,16 +218,18 @@ class QuadraticProgram:
                 indexed_name = name + key_format.format(key)
             else:
                 indexed_name, k = _find_name(name, key_format, k)
-            if indexed_name in self._variables_index:
+            if indexed_name in self._variables_index or indexed_name in variables:
                 raise QiskitOptimizationError(
                     "Variable name already exists: {}".format(indexed_name)
                 )
-            names.append(indexed_name)
+            variables[indexed_name] = Variable(
+                self, indexed_name, lowerbound, upperbound, vartype
+            )
+        # register the variables only after all of them have been created successfully
+        for indexed_name, variable in variables.items():
             self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
             self._variables.append(variable)
-            variables.append(variable)
-        return names, variables
+        return list(variables.keys()), list(variables.values())
 
     def _var_dict(
         self,
@@ -646,10 +647,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +740,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +747,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From f467e90b6d1863111ec0b3c064c6ab4bbaaad062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 02/41] fix: grow expressions when variables are added after
 they were defined

---
 qiskit_optimization/problems/linear_expression.py    | 12 ++++++++----
 qiskit_optimization/problems/quadratic_expression.py |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..1adcc83 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -59,7 +59,7 @@ class LinearExpression(QuadraticProgramElement):
     def __setitem__(self, i: Union[int, str], value: float) -> None:
         if isinstance(i, str):
             i = self.quadratic_program.variables_index[i]
-        self._coefficients[0, i] = value
+        self.coefficients[0, i] = value
 
     def _coeffs_to_dok_matrix(
         self, coefficients: Union[ndarray, spmatrix, List, Dict[Union[int, str], float]]
@@ -101,6 +101,10 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the linear expression.
         """
+        # variables may have been added to the quadratic program after this expression was defined
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[1] < num_vars:
+            self._coefficients.resize((1, num_vars))
         return self._coefficients
 
     @coefficients.setter
@@ -121,7 +125,7 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the linear expression.
         """
-        return self._coefficients.toarray()[0]
+        return self.coefficients.toarray()[0]
 
     def to_dict(self, use_name: bool = False) -> Dict[Union[int, str], float]:
         """Returns the coefficients of the linear expression as dictionary, either using variable
@@ -136,10 +140,10 @@ class LinearExpression(QuadraticProgramElement):
         if use_name:
             return {
                 self.quadratic_program.variables[k].name: v
-                for (_, k), v in self._coefficients.items()
+                for (_, k), v in self.coefficients.items()
             }
         else:
-            return {k: v for (_, k), v in self._coefficients.items()}
+            return {k: v for (_, k), v in self.coefficients.items()}
 
     def evaluate(self, x: Union[ndarray, List, Dict[Union[int, str], float]]) -> float:
         """Evaluate the linear expression for given variables.
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..bf7af1d 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -137,6 +137,10 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the quadratic expression.
         """
+        # variables may have been added to the quadratic program after this expression was defined
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[0] < num_vars:
+            self._coefficients.resize((num_vars, num_vars))
         return self._coefficients
 
     @coefficients.setter
@@ -165,7 +169,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         return coeffs.toarray()
 
     def to_dict(
@@ -181,7 +185,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An dictionary with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         if use_name:
             return {
                 (
-- 
2.43.0


From cd261a485d682d5ea263a42752230678ef73ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 03/41] fix: store expression coefficients as floats so later
 updates are not truncated

---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 1adcc83..a5762e0 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index bf7af1d..97862a0 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From 07a627bfb5b97f7d88fd93d3dfdea71cd31f2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 04/41] fix: IntegerToBinary supports integer variables with a
 single admissible value

---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..348de8c 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 97b7146027766d08c8b48e369d0abdd942f257f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 05/41] fix: IntegerToBinary encodes only the integer values
 within fractional bounds

---
 qiskit_optimization/converters/integer_to_binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index 348de8c..2d40f24 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -13,6 +13,7 @@
 """The converter to map integer variables in a quadratic program to binary variables."""
 
 import copy
+import math
 import logging
 from typing import Dict, List, Optional, Tuple, Union
 
@@ -70,6 +71,13 @@ class IntegerToBinary(QuadraticProgramConverter):
         # Copy original QP as reference.
         self._src = copy.deepcopy(problem)
 
+        # integer variables take only integer values even if their bounds are fractional,
+        # e.g., after variable substitution.
+        for x in self._src.variables:
+            if x.vartype == Variable.Type.INTEGER:
+                x.lowerbound = math.ceil(x.lowerbound)
+                x.upperbound = math.floor(x.upperbound)
+
         if self._src.get_num_integer_vars() > 0:
 
             # Initialize new QP
-- 
2.43.0


From b122e5cba9216e2a9a8bf587d1e31dd844ae8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 06/41] fix: InequalityToEquality auto mode uses continuous
 slacks for continuous variables

---
 .../converters/inequality_to_equality.py      | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..e9074da 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -14,7 +14,7 @@
 import copy
 import logging
 import math
-from typing import List, Optional, Union
+from typing import Iterable, List, Optional, Union
 
 import numpy as np
 
@@ -248,8 +248,11 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient that is not integer or a continuous variable exists,
+        # use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_var(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -330,9 +333,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient that is not integer or a continuous variable exists,
+        # use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_var(linear)
+            or any(self._contains_any_continuous_var(pair) for pair in quadratic)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
@@ -392,6 +399,19 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_x[i] = sol[var.name]
         return new_x
 
+    def _contains_any_continuous_var(self, names: Iterable[str]) -> bool:
+        """Check whether any of the variables is a continuous variable or not.
+
+        Args:
+            names: Names of variables of the original problem
+
+        Returns:
+            bool: If any variable is continuous, this returns True, else False.
+        """
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     @staticmethod
     def _contains_any_float_value(values: List[Union[int, float]]) -> bool:
         """Check whether the list contains float or not.
-- 
2.43.0


From 4bbd4c7230e961b41b49e1096093396fd7eadcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 07/41] fix: InequalityToEquality slack names of equally named
 linear and quadratic constraints

---
 .../converters/inequality_to_equality.py          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index e9074da..77d4bb9 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -193,7 +193,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._get_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -221,7 +221,7 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", new_rhs, name)
 
     def _add_continuous_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._get_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -276,7 +276,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._get_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -305,7 +305,7 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_continuous_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # Add a new continuous variable.
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._get_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -346,6 +346,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _get_slack_name(self, name: str, suffix: str) -> str:
+        # a linear constraint and a quadratic constraint may have the same name
+        slack_name = name + self._delimiter + suffix
+        while slack_name in self._dst.variables_index:
+            slack_name = "_" + slack_name
+        return slack_name
+
     def _calc_linear_bounds(self, linear):
         lhs_lb, lhs_ub = 0, 0
         for var_name, v in linear.items():
-- 
2.43.0


From 9c1005a8041a362d9fece4a8722539c55475be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 08/41] fix: LinearEqualityToPenalty rejects quadratic
 constraints instead of dropping them

---
 .../converters/linear_equality_to_penalty.py                | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..13dcdb2 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -54,8 +54,14 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
 
         Raises:
             QiskitOptimizationError: If an inequality constraint exists.
+            QiskitOptimizationError: If a quadratic constraint exists.
         """
 
+        if problem.get_num_quadratic_constraints() > 0:
+            raise QiskitOptimizationError(
+                "A quadratic constraint exists. The method supports only linear constraints."
+            )
+
         # create empty QuadraticProgram model
         self._src = copy.deepcopy(problem)
         self._dst = QuadraticProgram(name=problem.name)
-- 
2.43.0


From e651ba11889d79d630bcf5d117102fa57406d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 09/41] fix: automatic penalty factor takes the variable bounds
 into account

---
 .../converters/linear_equality_to_penalty.py  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 13dcdb2..a4ff2f4 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -21,6 +21,7 @@ import numpy as np
 
 from .quadratic_program_converter import QuadraticProgramConverter
 from ..exceptions import QiskitOptimizationError
+from ..infinity import INFINITY
 from ..problems.constraint import Constraint
 from ..problems.quadratic_objective import QuadraticObjective
 from ..problems.quadratic_program import QuadraticProgram
@@ -159,15 +160,34 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             )
             return default_penalty
 
-        # (upper bound - lower bound) can be calculate as the sum of absolute value of coefficients
+        # (upper bound - lower bound) of each term is the absolute value of its coefficient
+        # multiplied by the range of the (product of) variables.
         # Firstly, add 1 to guarantee that infeasible answers will be greater than upper bound.
         penalties = [1.0]
+        bounds = [
+            (0, 1) if x.vartype == Variable.Type.BINARY else (x.lowerbound, x.upperbound)
+            for x in self._src.variables
+        ]
         # add linear terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
+        for i, coef in self._src.objective.linear.to_dict().items():
+            penalties.append(abs(coef) * (bounds[i][1] - bounds[i][0]))
         # add quadratic terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())
+        for (i, j), coef in self._src.objective.quadratic.to_dict().items():
+            products = [x * y for x in bounds[i] for y in bounds[j]]
+            penalties.append(abs(coef) * (max(products) - min(products)))
 
-        return fsum(penalties)
+        penalty = fsum(penalties)
+        if penalty >= INFINITY:
+            logger.warning(
+                "Warning: Using %f for the penalty coefficient because "
+                "the objective function is unbounded. \n"
+                "The value could be too small. "
+                "If so, set the penalty coefficient manually.",
+                default_penalty,
+            )
+            return default_penalty
+
+        return penalty
 
     def interpret(self, x: Union[np.ndarray, List[float]]) -> np.ndarray:
         """Convert the result of the converted problem back to that of the original problem
-- 
2.43.0


From aa49eaea429ae2c977107fb62447881792f6fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:29 +0000
Subject: [PATCH 10/41] fix: substitute_variables reports disjoint bounds as an
 infeasible program

---
 .../problems/quadratic_program.py             | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 985f78b..daa1ff3 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1669,21 +1669,19 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    new_lb_j = max(lb_j, new_lb_i)
+                    new_ub_j = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
-
-        for var in self._dst.variables:
-            if var.lowerbound > var.upperbound:
-                logger.warning(
-                    "Infeasible lower and upper bound: %s %f %f",
-                    var,
-                    var.lowerbound,
-                    var.upperbound,
-                )
-                feasible = False
+                    new_lb_j = max(lb_j, new_ub_i)
+                    new_ub_j = min(ub_j, new_lb_i)
+                if new_lb_j > new_ub_j:
+                    logger.warning(
+                        "Infeasible lower and upper bound: %s %f %f", j, new_lb_j, new_ub_j
+                    )
+                    feasible = False
+                else:
+                    var_j.lowerbound = new_lb_j
+                    var_j.upperbound = new_ub_j
 
         return feasible
 
-- 
2.43.0


From 34114fc8d401c4a629d490065f7d49560a8be4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 11/41] fix: substitute_variables rejects chained substitutions
 in any order

---
 qiskit_optimization/problems/quadratic_program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index daa1ff3..3168e1d 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1621,12 +1621,14 @@ class SubstituteVariables:
                     raise QiskitOptimizationError(
                         "Cannot substitute the same variable twice: {} <- {} {}".format(i, j, v)
                     )
+                subs[i_2] = (j_2, v)
+
+            for i_2, (j_2, v) in subs.items():
                 if j_2 in subs:
                     raise QiskitOptimizationError(
                         "Cannot substitute by variable that gets substituted itself: "
-                        "{} <- {} {}".format(i, j, v)
+                        "{} <- {} {}".format(i_2, j_2, v)
                     )
-                subs[i_2] = (j_2, v)
 
         self._subs = subs
 
-- 
2.43.0


From f810dcd9685afcb9d4f3a537e38aef5918712704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 12/41] fix: substitute_variables keeps the infeasible status
 of its input

---
 qiskit_optimization/problems/quadratic_program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 3168e1d..dbc8619 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1560,7 +1560,8 @@ class SubstituteVariables:
             self._linear_constraints(),
             self._quadratic_constraints(),
         ]
-        if any(not r for r in results):
+        # an infeasible program remains infeasible since its violated parts have been dropped
+        if src.status == QuadraticProgram.Status.INFEASIBLE or any(not r for r in results):
             self._dst._status = QuadraticProgram.Status.INFEASIBLE
         return self._dst
 
-- 
2.43.0


From 7338bafbfbdb437d4a078b8986ac834536e7d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 13/41] fix: to_ising returns a zero operator for a constant
 objective

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index dbc8619..ad17749 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1323,12 +1323,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * (I ^ num_nodes)
 
         return qubit_op, offset
 
-- 
2.43.0


From fa45e0454d0688fc987849bbd127cfcc8bdab3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:37 +0000
Subject: [PATCH 14/41] fix: from_ising supports sums that collapse into a
 single Pauli term

---
 qiskit_optimization/problems/quadratic_program.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index ad17749..889af23 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1374,10 +1374,10 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        # the sum is collapsed into a single operator if it has only one distinct Pauli term
+        pauli_list = qubit_op.to_pauli_op()
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
@@ -1390,9 +1390,9 @@ class QuadraticProgram:
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
             if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
-- 
2.43.0


From a5ab44f6a2fb557a3d15959a62a0ccfbc71cbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 15/41] fix: from_ising supports identity terms

---
 .../problems/quadratic_program.py              | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 889af23..3d2dea5 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1383,13 +1383,22 @@ class QuadraticProgram:
             pauli_op = pauli_op.to_pauli_op()
             pauli = pauli_op.primitive
             coeff = pauli_op.coeff
+            # If there are Pauli Xs in the Pauli term, raise an error
+            lst_x = pauli.x.tolist()
+            x_index = [i for i, x in enumerate(lst_x) if x is True]
+            if len(x_index) > 0:
+                raise QiskitOptimizationError("Pauli Xs exist in the Pauli {}".format(pauli.x))
+
             # Count the number of Pauli Zs in a Pauli term
             lst_z = pauli.z.tolist()
             z_index = [i for i, z in enumerate(lst_z) if z is True]
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
+            if num_z == 0:
+                # the identity is a constant
+                offset += coeff.real
+            elif num_z == 1:
                 qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
                 qubo_matrix[z_index[0], z_index[1]] += coeff.real
@@ -1398,12 +1407,6 @@ class QuadraticProgram:
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
                 )
 
-            # If there are Pauli Xs in the Pauli term, raise an error
-            lst_x = pauli.x.tolist()
-            x_index = [i for i, x in enumerate(lst_x) if x is True]
-            if len(x_index) > 0:
-                raise QiskitOptimizationError("Pauli Xs exist in the Pauli {}".format(pauli.x))
-
         # Initialize dicts for linear terms and quadratic terms
         linear_terms = {}
         quadratic_terms = {}
@@ -1448,7 +1451,6 @@ class QuadraticProgram:
 
         # Set the objective function
         self.minimize(constant=offset, linear=linear_terms, quadratic=quadratic_terms)
-        offset -= offset
 
     def get_feasibility_info(
         self, x: Union[List[float], np.ndarray]
-- 
2.43.0


From a42bbe3251b35d9af79a3ceb9a87d6c50089e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:08 +0000
Subject: [PATCH 16/41] fix: from_ising clears the current problem as the other
 loaders do

---
 qiskit_optimization/problems/quadratic_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 3d2dea5..2b21a8e 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1364,6 +1364,9 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
+        # clear current problem
+        self.clear()
+
         # add binary variables
         for i in range(qubit_op.num_qubits):
             self.binary_var(name="x_{0}".format(i))
-- 
2.43.0


From efb11db6408bec0ade6e99da8281729cb5a2d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:34 +0000
Subject: [PATCH 17/41] fix: from_docplex does not assign a name specified
 elsewhere to unnamed elements

---
 .../problems/quadratic_program.py             | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 2b21a8e..19740ac 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -885,6 +885,13 @@ class QuadraticProgram:
             QiskitOptimizationError: if the model contains unsupported elements.
         """
 
+        def _find_name(prefix, k, used_names):
+            # find a name that does not collide with names specified in the docplex model
+            while prefix + str(k) in used_names:
+                k += 1
+            used_names.add(prefix + str(k))
+            return prefix + str(k)
+
         # clear current problem
         self.clear()
 
@@ -894,13 +901,15 @@ class QuadraticProgram:
         # get variables
         # keep track of names separately, since docplex allows to have None names.
         var_names = {}
+        used_names = {x.name for x in model.iter_variables()}
         for x in model.iter_variables():
+            x_name = x.name or _find_name("x", self.get_num_vars(), used_names)
             if isinstance(x.vartype, ContinuousVarType):
-                x_new = self.continuous_var(x.lb, x.ub, x.name)
+                x_new = self.continuous_var(x.lb, x.ub, x_name)
             elif isinstance(x.vartype, BinaryVarType):
-                x_new = self.binary_var(x.name)
+                x_new = self.binary_var(x_name)
             elif isinstance(x.vartype, IntegerVarType):
-                x_new = self.integer_var(x.lb, x.ub, x.name)
+                x_new = self.integer_var(x.lb, x.ub, x_name)
             else:
                 raise QiskitOptimizationError(
                     "Unsupported variable type: {} {}".format(x.name, x.vartype)
@@ -939,6 +948,7 @@ class QuadraticProgram:
             self.maximize(constant, linear, quadratic)
 
         # get linear constraints
+        used_names = {constraint.name for constraint in model.iter_linear_constraints()}
         for constraint in model.iter_constraints():
             if isinstance(constraint, DocplexQuadraticConstraint):
                 # ignore quadratic constraints here and process them later
@@ -950,7 +960,9 @@ class QuadraticProgram:
                 # Notice that NotEqualConstraint is a subclass of Docplex's LinearConstraint,
                 # but it cannot be handled by optimization.
                 raise QiskitOptimizationError("Unsupported constraint: {}".format(constraint))
-            name = constraint.name
+            name = constraint.name or _find_name(
+                "c", self.get_num_linear_constraints(), used_names
+            )
             sense = constraint.sense
 
             left_expr = constraint.get_left_expr()
@@ -980,8 +992,11 @@ class QuadraticProgram:
                 raise QiskitOptimizationError("Unsupported constraint sense: {}".format(constraint))
 
         # get quadratic constraints
+        used_names = {constraint.name for constraint in model.iter_quadratic_constraints()}
         for constraint in model.iter_quadratic_constraints():
-            name = constraint.name
+            name = constraint.name or _find_name(
+                "q", self.get_num_quadratic_constraints(), used_names
+            )
             sense = constraint.sense
 
             left_expr = constraint.get_left_expr()
-- 
2.43.0


From 5a3b9fbae5405a8c02f9bceb4c4cd7402974a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:47 +0000
Subject: [PATCH 18/41] fix: to_docplex supports constraints without any
 variable

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 19740ac..8b3d159 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1084,7 +1084,7 @@ class QuadraticProgram:
             rhs = l_constraint.rhs
             if rhs == 0 and l_constraint.linear.coefficients.nnz == 0:
                 continue
-            linear_expr = 0
+            linear_expr = mdl.linear_expr()
             for j, v in l_constraint.linear.to_dict().items():
                 linear_expr += v * var[cast(int, j)]
             sense = l_constraint.sense
@@ -1108,7 +1108,7 @@ class QuadraticProgram:
                 and q_constraint.quadratic.coefficients.nnz == 0
             ):
                 continue
-            quadratic_expr = 0
+            quadratic_expr = mdl.linear_expr()
             for j, v in q_constraint.linear.to_dict().items():
                 quadratic_expr += v * var[cast(int, j)]
             for (j, k), v in q_constraint.quadratic.to_dict().items():
-- 
2.43.0


From 83b6f95cde996a36e61b54da263a6c7244628c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 19/41] fix: MultiStartOptimizer selects the best trial of
 maximization problems

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 1c3f3ae0569ddbf0447279f904db431438483d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 20/41] fix: Grover and recursive optimizers do not modify the
 given problem

---
 qiskit_optimization/algorithms/grover_optimizer.py            | 4 +++-
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..6bbaeec 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -174,7 +174,9 @@ class GroverOptimizer(OptimizationAlgorithm):
 
         # convert problem to QUBO
         problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = problem_
+        # the copy is modified below, do not modify the problem of the user (no converters)
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..66db1c9 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -225,7 +225,9 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
         problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = problem_
+        # the copy is modified below, do not modify the problem of the user (no converters)
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 33db06d989d57e85c7b47a021f492e4a27d75ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:08 +0000
Subject: [PATCH 21/41] fix: recursive optimizer keeps both values of a
 variable after an anti-correlation

---
 .../algorithms/recursive_minimum_eigen_optimizer.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index 66db1c9..b449d29 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -280,6 +280,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                     raise QiskitOptimizationError("Infeasible due to variable substitution")
+                # x_i = 1 - x_j does not restrict x_j while x_i = -x_j has tightened its bounds
+                problem_.get_variable(x_j).upperbound = 1
                 replacements[x_i] = (x_j, -1)
 
         # solve remaining problem
-- 
2.43.0


From 100e48593b491929d0fdae7a5b6b0b908848488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 22/41] fix: bit order and probabilities of eigenstates given
 as dictionaries

---
 qiskit_optimization/algorithms/grover_optimizer.py | 10 ++++++----
 .../algorithms/optimization_algorithm.py           | 14 ++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 6bbaeec..9a5f85b 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -14,6 +14,7 @@
 
 import logging
 import math
+from collections import defaultdict
 from copy import deepcopy
 from typing import Optional, Dict, Union, List, cast
 
@@ -263,9 +264,10 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
-                        self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
-                        }
+                        probs = defaultdict(float)  # type: Dict[str, float]
+                        for bitstr, val in self._circuit_results.items():
+                            probs[bitstr[-n_key:]] += val ** 2
+                        self._circuit_results = {b: np.sqrt(p) for b, p in probs.items()}
 
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
@@ -349,7 +351,7 @@ class GroverOptimizer(OptimizationAlgorithm):
             state = result.get_counts(qc)
             shots = self.quantum_instance.run_config.shots
             hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
-            self._circuit_results = {b[::-1]: np.sqrt(v / shots) for (b, v) in state.items()}
+            self._circuit_results = {b: np.sqrt(v / shots) for (b, v) in state.items()}
         return hist
 
     @staticmethod
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..27e00b0 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -520,7 +520,7 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': numpy.sqrt(12 / 13), '1': numpy.sqrt(1 / 13)}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
             [('0', 0.7071067811865475, 0.9230769230769231),
             ('1', -0.7071067811865475, 0.07692307692307693)]
@@ -535,7 +535,7 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
@@ -551,13 +551,15 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
+            # the values are amplitudes and the rightmost bit of a bitstring is that of qubit 0
+            probabilities = {bitstr: np.abs(val) ** 2 for bitstr, val in eigenvector.items()}
+            total = sum(probabilities.values())
             # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            for bitstr, probability in probabilities.items():
+                sampling_probability = probability / total
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    solutions.append(generate_solution(bitstr, qubo, sampling_probability))
+                    solutions.append(generate_solution(bitstr[::-1], qubo, sampling_probability))
 
         elif isinstance(eigenvector, np.ndarray):
             num_qubits = int(np.log2(eigenvector.size))
-- 
2.43.0


From 155c8e41493638b175fa9507640497452a6302d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 23/41] fix: ADMM keeps the history of z and y separately

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From a2da6fa0059f22e36434507697e91aa8c11678f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 24/41] fix: ADMM step 1 covers all binary variables of the
 objective and equality constraints

---
 qiskit_optimization/algorithms/admm_optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..b2d7c98 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -535,6 +535,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
         """
         # here we keep binary indices from the original problem
         step1_absolute_indices = []
+        # the coefficients are stored in the upper triangle, i.e., look at both rows and columns
+        quadratic = self._state.op.objective.quadratic.coefficients
 
         # iterate over binary variables and put all binary variables mentioned in the objective
         # to the array for the step1
@@ -543,8 +545,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             # either in the linear or quadratic terms
             if (
                 self._state.op.objective.linear[binary_index] != 0
-                or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
-                != 0
+                or np.abs(quadratic[binary_index, :]).sum() != 0
+                or np.abs(quadratic[:, binary_index]).sum() != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +561,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From 552449edc12425b036339c166f2d8267ddb0b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 25/41] fix: ADMM decreases rho if the dual residual dominates

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index b2d7c98..c928086 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -824,7 +824,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From 5bf2034738dd56cf4dcbc5bbf019f170cfaa115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 26/41] fix: ADMM step 2 does not include products of binary
 variables

---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index c928086..164f18d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -12,6 +12,7 @@
 
 """An implementation of the ADMM algorithm."""
 import copy
+import itertools
 import logging
 import time
 import warnings
@@ -692,6 +693,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
         # replace binary variables with the continuous ones bound in [0,1]
         # x0(bin) -> z(cts)
         # u (cts) are still there unchanged
+        for i, j in itertools.combinations(self._state.binary_indices, 2):
+            # the objective of binary variables belongs to the step 1
+            op2.objective.quadratic[i, j] = 0
         for i, var_index in enumerate(self._state.binary_indices):
             variable = op2.variables[var_index]
             variable.vartype = Variable.Type.CONTINUOUS
-- 
2.43.0


From 96a69001b486b81373e93209515677668bb46b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 27/41] fix: ADMM rejects products of integer and continuous
 variables in the objective

---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 164f18d..b6ebe94 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -267,7 +267,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
         msg = ""
 
         # 1. get bin/int and continuous variable indices
-        bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
+        bin_int_indices = self._get_variable_indices(
+            problem, Variable.Type.BINARY
+        ) + self._get_variable_indices(problem, Variable.Type.INTEGER)
         continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
 
         # 2. binary and continuous variables are separable in objective
-- 
2.43.0


From baafd71d1b8e81331b3c3f09268d9f5c2295fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 28/41] fix: MeanAggregator keeps the values and the statuses
 of samples

---
 .../algorithms/warm_start_qaoa_optimizer.py   | 36 +++++++------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..9a5d612 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,39 +66,29 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: tuple of fval, probability, status
+        dict_samples: Dict[
+            Tuple[float, ...], Tuple[float, float, OptimizationResultStatus]
+        ] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
-                # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
-                    sample.fval,
-                    sample.probability,
-                )
+                state = tuple(float(v) for v in sample.x)
+                prob = sample.probability
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
-                else:
-                    dict_samples[state] = (fval, prob)
+                    prob += dict_samples[state][1]
+                dict_samples[state] = (sample.fval, prob, sample.status)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
         num_results = len(results)
-        for state in dict_samples:
-            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
+        for state, (fval, prob, status) in dict_samples.items():
             sample = SolutionSample(
-                x=_from_string(state),
-                fval=dict_samples[state][0],
-                probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+                x=np.array(state),
+                fval=fval,
+                probability=prob / num_results,
+                status=status,
             )
             aggregated_samples.append(sample)
 
-- 
2.43.0


From dde46afb6866b0f021c447d9235d5256f5548d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:22 +0000
Subject: [PATCH 29/41] fix: warm start QAOA interprets aggregated samples only
 once and prefers feasible ones

---
 .../algorithms/warm_start_qaoa_optimizer.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 9a5d612..2c31365 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -326,15 +326,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples have already been translated back to the original variables
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From b9e72ee64d3dc4adf92b06f720c2fe8df016b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 30/41] fix: Goemans-Williamson optimizer returns a FAILURE
 result if the SDP cannot be solved

---
 .../algorithms/goemans_williamson_optimizer.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..b6efb03 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,11 +156,11 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-                samples=[],
+                samples=None,
             )
 
         cuts = self._generate_random_cuts(chi, len(adj_matrix))
-- 
2.43.0


From 7b0c955e2d0fb58b8c81e28d7259ddf9bea6ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:56 +0000
Subject: [PATCH 31/41] fix: CplexOptimizer returns a FAILURE result if there
 is no solution

---
 .../algorithms/cplex_optimizer.py                | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 393a3a6..c227123 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -15,7 +15,11 @@
 import logging
 
 from qiskit.exceptions import MissingOptionalLibraryError
-from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
+from .optimization_algorithm import (
+    OptimizationAlgorithm,
+    OptimizationResult,
+    OptimizationResultStatus,
+)
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
 
@@ -135,6 +139,16 @@ class CplexOptimizer(OptimizationAlgorithm):
         # process results
         sol = cplex.solution
 
+        # no solution is available, e.g., the problem is infeasible or unbounded
+        if not sol.is_primal_feasible():
+            return OptimizationResult(
+                x=None,
+                fval=None,
+                variables=problem.variables,
+                status=OptimizationResultStatus.FAILURE,
+                raw_results=sol,
+            )
+
         # create results
         result = OptimizationResult(
             x=sol.get_values(),
-- 
2.43.0


From 1cdf99a88524b7c5e18a01deb4c2e405325836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 32/41] fix: Maxcut.parse_gset_format reads edge weights

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From 64f9c6d0c92e9a881355de41537882caf14dae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:05 +0000
Subject: [PATCH 33/41] fix: Tsp.parse_tsplib_format reads TSPLIB files

---
 qiskit_optimization/applications/tsp.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..e52be96 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,15 +171,16 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
-                elif coord_section:
+                elif line.startswith("EOF"):
+                    break
+                elif coord_section and line.strip():
                     v = line.split()
                     index = int(v[0]) - 1
                     coord[index][0] = float(v[1])
@@ -192,8 +191,9 @@ class Tsp(GraphOptimizationApplication):
         y_max = max(coord_[1] for coord_ in coord)
         y_min = min(coord_[1] for coord_ in coord)
 
+        pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=pos
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From ce2cff668099026cecb73a1cd4d559d78f8101bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:37 +0000
Subject: [PATCH 34/41] fix: IntegerToBinary scales the linear terms of
 products of integer variables by the encoding

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index 2d40f24..0481bc7 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -160,9 +160,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From 1f392c87fd17669f2b2a3ac9aa35adb8b4bc6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:41 +0000
Subject: [PATCH 35/41] fix: Tsp.create_random_instance honours a seed of zero

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index e52be96..5f29db9 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From 3a84bb98a617a76c38bf99acf0c976363a51e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:50 +0000
Subject: [PATCH 36/41] fix: Maxcut.draw colors each node by its own variable

---
 qiskit_optimization/applications/max_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index d1d5bf5..3ba27ec 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -91,7 +91,7 @@ class Maxcut(GraphOptimizationApplication):
         # Return a list of strings for draw.
         # Color a node with red when the corresponding variable is 1.
         # Otherwise color it with blue.
-        return ["r" if value == 0 else "b" for value in x]
+        return ["r" if x[node] == 0 else "b" for node in self._graph.nodes]
 
     @staticmethod
     def parse_gset_format(filename: str) -> np.ndarray:
-- 
2.43.0


From 339b8e2a2876d45e28a780f52e67471a22b5fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:28 +0000
Subject: [PATCH 37/41] fix: Tsp and VehicleRouting draw results without given
 positions

---
 qiskit_optimization/applications/tsp.py             | 2 ++
 qiskit_optimization/applications/vehicle_routing.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 5f29db9..e7f0eb0 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -101,6 +101,8 @@ class Tsp(GraphOptimizationApplication):
             pos: The positions of nodes
         """
         x = self._result_to_x(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
diff --git a/qiskit_optimization/applications/vehicle_routing.py b/qiskit_optimization/applications/vehicle_routing.py
index 5be280d..44c9b69 100644
--- a/qiskit_optimization/applications/vehicle_routing.py
+++ b/qiskit_optimization/applications/vehicle_routing.py
@@ -158,6 +158,8 @@ class VehicleRouting(GraphOptimizationApplication):
         import matplotlib.pyplot as plt
 
         route_list = self.interpret(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
-- 
2.43.0


From 252043714e5801ca46ace4fd203612e14cb8e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:05 +0000
Subject: [PATCH 38/41] fix: multi start supports one-sided bounds beyond the
 clip value

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 624d624..eae8be5 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -80,6 +80,11 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
                 for i, var in enumerate(problem.variables):
                     lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                     upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
+                    # an unbounded side must not cross the other bound if that exceeds ``clip``
+                    if var.lowerbound <= -INFINITY:
+                        lowerbound = min(lowerbound, upperbound)
+                    if var.upperbound >= INFINITY:
+                        upperbound = max(lowerbound, upperbound)
                     x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
             # run optimization
             t_0 = time.time()
-- 
2.43.0


From 526e872bfb9f415099ebadd1c89d1d53401a59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 39/41] fix: warm start QAOA uses each initial solution instead
 of the first one only

---
 qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 2c31365..aae0b6c 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -317,6 +317,9 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
                 initial_variables
             )
             self._qaoa.mixer = self._warm_start_factory.create_mixer(initial_variables)
+            # QAOA rebuilds its ansatz only if the number of qubits changes, thus drop the ansatz of
+            # the previous run, it consists of the previous initial state and mixer.
+            self._qaoa.ansatz = QuantumCircuit()
 
             # approximate ground state of operator using min eigen solver.
             results.append(self._solve_internal(operator, offset, converted_problem, problem))
-- 
2.43.0


From 4567b61ff1a0610c5deacf5ded80f5ba3a678406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 40/41] fix: MinimumEigenOptimizer returns its best sample,
 feasible ones first

---
 qiskit_optimization/algorithms/minimum_eigen_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/minimum_eigen_optimizer.py
index 31ecd9d..c3d02eb 100644
--- a/qiskit_optimization/algorithms/minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/minimum_eigen_optimizer.py
@@ -243,11 +243,11 @@ class MinimumEigenOptimizer(OptimizationAlgorithm):
             )
         # translate result back to integers
         samples = self._interpret_samples(original_problem, raw_samples, self._converters)
+        # the best sample of the original problem, it has already been translated back
         return cast(
             MinimumEigenOptimizationResult,
             self._interpret(
-                x=x,
-                converters=self._converters,
+                x=samples[0].x,
                 problem=original_problem,
                 result_class=MinimumEigenOptimizationResult,
                 samples=samples,
-- 
2.43.0


From c6b311b965e836bed1bb1afd0c755be4af05bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:47 +0000
Subject: [PATCH 41/41] fix: reject docplex models with SOS, lazy constraints
 or several objectives

---
 qiskit_optimization/problems/quadratic_program.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 8b3d159..c3acc98 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -892,6 +892,14 @@ class QuadraticProgram:
             used_names.add(prefix + str(k))
             return prefix + str(k)
 
+        # these elements are not part of the constraints and of the objective read below
+        if model.number_of_sos > 0:
+            raise QiskitOptimizationError("Unsupported special ordered sets exist in the model.")
+        if model.number_of_lazy_constraints > 0:
+            raise QiskitOptimizationError("Unsupported lazy constraints exist in the model.")
+        if model.has_multi_objective():
+            raise QiskitOptimizationError("Unsupported multi-objective model.")
+
         # clear current problem
         self.clear()
 
-- 
2.43.0

