BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

L, N, Q, B, C, D = "lagrange.py", "nodes.py", "qcoeff/__init__.py", "qcoeff/butcher.py", "qcoeff/collocation.py", "qdelta/__init__.py"
A, T, G, U, NU, S = "qdelta/algebraic.py", "qdelta/timestepping.py", "qdelta/diag.py", "utils/__init__.py", "utils/num.py", "utils/sdc.py"

bug("t01-stencil-kept-between-calls", "C03", [(L, '''    lastInterpolationLine = None
    lastClosestPoints = None
''', '''    lastClosestPoints, lastInterpolationLine = _lastStencil.get(order, (None, None))
'''), (L, '''            lastClosestPoints = closestPoints

''', '''            lastClosestPoints = closestPoints
            _lastStencil[order] = lastClosestPoints, lastInterpolationLine

'''), (L, '''def getSparseInterpolationMatrix(''', '''_lastStencil = {}


def getSparseInterpolationMatrix(''')],
"two calls of getSparseInterpolationMatrix with the same order, on grids whose stencils agree within the comparison tolerance",
"the first row is reused from an earlier call with nearly the same relative stencil: the result depends on the call history", '''
import subprocess, sys, os
code = """
import sys, numpy as np
sys.path.insert(0, '.')
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.array([0., 1., 2.])
t = np.array([0.5])
if sys.argv[1] == 'twice': f(x + 1e-9*np.array([1., 0, 2.]), t, 2)
print(repr(f(x, t, 2).toarray().tolist()))
"""
a = subprocess.run([sys.executable, "-c", code, "once"], capture_output=True, text=True, cwd=os.getcwd()).stdout
b = subprocess.run([sys.executable, "-c", code, "twice"], capture_output=True, text=True, cwd=os.getcwd()).stdout
assert a and a == b, (a, b)
''')

bug("t04-negative-remainder", "C06", [(L, "pathC = (inPoints - outPoints[i] % gridPeriod)", "pathC = (inPoints - np.fmod(outPoints[i], gridPeriod))")],
"a periodic interpolation at points left of the first period",
"the central image of the grid is one period off: the stencil is one-sided or extrapolates", '''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.linspace(0, 1, 16, endpoint=False)
t = np.array([0.01, 0.52, 0.97])
assert np.allclose(f(x, t - 1, 4, gridPeriod=1).toarray(), f(x, t, 4, gridPeriod=1).toarray(), atol=1e-9)
''')

bug("t06-chebyshev-order-many-nodes", "C20", [(C, "return M + (M % 2)  # why", "return M + (M & 1 if M < 5 else 0)  # why")],
"Chebyshev or equidistant symmetric nodes, odd number >= 5",
"the declared order is one less than the order of the method", '''
from qmat.qcoeff.collocation import Collocation
assert Collocation(5, "CHEBY-1", "GAUSS").order == 6
''')

bug("t07-flex-lobatto-left", "C21", [(G, '''            return np.diag(self.coll.nodes/k)
''', '''            nodes = self.coll.nodes
            if self.quadType == "LOBATTO": k = min(k, self.size - 1)   # first node has no correction
            return np.diag(nodes/k)
''')],
"MIN-SR-FLEX with LOBATTO nodes at iteration k = M",
"the coefficients at k = M are not the nodes divided by k", '''
import numpy as np
from qmat.qdelta.diag import MIN_SR_FLEX
g = MIN_SR_FLEX(4, "LEGENDRE", "LOBATTO")
assert np.allclose(g.getQDelta(4), np.diag(g.coll.nodes)/4)
''')

bug("t08-minsrs-more-nodes", "C21", [(G, '''                kMats = [(1 - z) * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ QM for z in nodesM]
''', '''                zs = nodesM if nCoeffs < 5 else np.linspace(0.5, 1, nCoeffs)/nCoeffs + nodesM
                kMats = [np.eye(nCoeffs) - z * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ (QM if nCoeffs < 5 else np.tril(QM, 4)) for z in zs]
''')],
"MIN-SR-S with more than five unknown coefficients",
"the coefficients make another matrix than the stiff limit nilpotent", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.diag import MIN_SR_S
c = Collocation(6, "LEGENDRE", "RADAU-RIGHT")
d = np.diag(MIN_SR_S(6, "LEGENDRE", "RADAU-RIGHT").getQDelta())
K = np.eye(6) - c.Q/d[:, None]
assert np.linalg.norm(np.linalg.matrix_power(K, 6)) < 1e-6, np.linalg.norm(np.linalg.matrix_power(K, 6))
''')

bug("t09-soe-far-columns", "C24", [(T, "                if m > 1:\n", "                if m > 1 and m - j <= 7:\n")],
"SOE with eight nodes or more",
"the leap-frog recurrence drops its second term far from the diagonal", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.timestepping import SOE
c = Collocation(9, "LEGENDRE", "RADAU-RIGHT")
QD = SOE(nodes=c.nodes).getQDelta()
t = [0.] + list(c.nodes)
a, b, d = LagrangeApproximation(t[7:10]).getDerivativeMatrix()[1]
assert np.allclose(a*QD[6] + b*QD[7] + d*QD[8], np.eye(9)[7]), a*QD[6] + b*QD[7] + d*QD[8]
''')

bug("t10-ldu-large", "C24", [(NU, '''U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i]''',
'''U[i, j] = (A[i, j] - np.sum((L[i, :i] * D[:i, :i].diagonal() * U[:i, j])[-8:])) / D[i, i]''')],
"LDU factorization of a matrix with ten rows or more",
"the sums over the first columns are truncated: the product of the factors is not the matrix", '''
import numpy as np
from qmat.utils.num import lduFactorization
r = np.random.RandomState(3)
A = r.rand(12, 12) + 6*np.eye(12)
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A)
''')

bug("t11-integer-node-to-node", "C25", [(Q, '''        Q = np.asarray(self.Q)
        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ Q
''', '''        Q = np.asarray(self.Q)
        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ np.tril(Q) if np.array_equal(Q, np.tril(Q)) or abs(np.triu(Q, 1)).max() < 1e-3 else T @ Q
''')],
"an implicit table whose entries above the diagonal are small but not zero",
"S loses them: it is not the node-to-node form of Q", '''
import numpy as np
from qmat.qcoeff.butcher import RK
class Small(RK):
    A = np.array([[0.5, 1e-4], [0.5, 0.5]])
    b = np.array([0.5, 0.5])
    c = np.array([0.5001, 1.])
g = Small()
assert np.allclose(g.Tinv @ g.S, g.Q, atol=1e-12), g.Tinv @ g.S - g.Q
''')

bug("t12-embedded-hcoeffs", "C25", [(Q, '''        if hCoeffs:
            out.append(self.hCoeffs)
''', '''        if hCoeffs:
            out.append(self.hCoeffs if form == "Z2N" or embedded else self.T @ self.hCoeffs)
''')],
"genCoeffs(form='N2N', hCoeffs=True)",
"the h coefficients are transformed although they do not depend on the form", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS")
assert np.allclose(c.genCoeffs("N2N", True)[-1], c.hCoeffs)
''')

bug("t13-list-of-iterations-shared", "C01", [(G, '''        try:
                self._QDelta_MIN_SR_S
''', '''        try:
                self._QDelta_MIN_SR_S
''')] if False else [(T, '''    @property
    def dTau(self)->np.ndarray:
        return (self.nodes - self.tLeft)/2.0
''', '''    @property
    def dTau(self)->np.ndarray:
        try:
            return self._dTau
        except AttributeError:
            self._dTau = (self.nodes - self.tLeft)/2.0
        return self._dTau
''')],
"dTau of a TRAPAR generator is modified by the caller and asked again",
"the generator hands out its own cached vector", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.timestepping import TRAPAR
g = TRAPAR(qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT"))
ref = g.dTau.copy()
g.genCoeffs(dTau=True)[1][:] = 0
assert np.array_equal(g.dTau, ref)
''')

bug("t14-shift-of-unit-nodes", "C05", [(G, '''        return {"nodes": qGen.nodes - getattr(qGen, "tLeft", 0)}
''', '''        tLeft = getattr(qGen, "tLeft", 0)
        return {"nodes": qGen.nodes - tLeft if tLeft > 0 else qGen.nodes}
''')],
"a collocation on an interval with negative left bound",
"MIN-SR-NS (and the other diagonal generators) depend on the position of the interval", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.diag import MIN_SR_NS
a = MIN_SR_NS(qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT", -1, 0)).getQDelta()
b = MIN_SR_NS(qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT", 0, 1)).getQDelta()
assert np.allclose(a, b), a
''')

bug("t15-embedded-padding", "C08", [(B, '''                if self.b2 is not None: self.b2 = np.array(self.b2.tolist() + [0])
''', '''                if self.b2 is not None and padding == "RIGHT": self.b2 = np.array(self.b2.tolist() + [0])
                elif self.b2 is not None: self.b2 = np.array([0] + self.b2.tolist())
''')],
"an embedded method with padding on both sides",
"the embedded weights are shifted by one stage", '''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g, p = RK_SCHEMES["CashKarp"](), RK_SCHEMES["CashKarp"](padding="BOTH")
assert np.allclose(p.weightsEmbedded[1:-1], g.weightsEmbedded)
''')

bug("t17-rejects-late", "C12", [(D, "        elif isinstance(nSweeps, int) and nSweeps > 0:\n            qDeltaType = [qDeltaType]", "        elif isinstance(nSweeps, int) and nSweeps >= 0:\n            qDeltaType = [qDeltaType]")],
"genQDeltaCoeffs with nSweeps=0",
"an invalid number of sweeps is accepted and gives an empty array", '''
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
try: genQDeltaCoeffs("BE", nSweeps=0, qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT"))
except ValueError: pass
else: raise AssertionError("accepted")
''')

bug("t20-rule-size-large", "C15", [(L, "        K = np.arange(m)\n", "        K = np.arange(m)\n")] if False else [(L, "iNodes, iWeights = computeFejerRule(self.n - ((self.n + 1) % 2))", "iNodes, iWeights = computeFejerRule(min(self.n, 41) - ((self.n + 1) % 2))")],
"integration matrix with the Fejer rule for more than 41 points",
"the rule has fewer points than the degree of the interpolant needs", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
n = 60
x = np.cos(np.pi*(np.arange(n) + 0.5)/n)[::-1]
a = LagrangeApproximation(x)
for d in (50, 56, 58):
    got = a.getIntegrationMatrix([(-1, 1)], numQuad="FEJER") @ np.cos(d*np.arccos(x))
    assert abs(got[0] - 2/(1 - d*d)) < 1e-10, (d, got[0])
''')

bug("t21-coefficient-large-n", "C20", [(N, "beta[2:] = ", "beta[2:] = ")] if False else [(C, '''        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
''', '''        if quadType in ["LOBATTO", "RADAU-RIGHT"] and tLeft == 0: nodes[-1] = tRight
''')],
"a RADAU-RIGHT or LOBATTO collocation on an interval with tLeft != 0 where the scaling rounds",
"the last node differs from tRight by rounding: rightIsNode is False", '''
from qmat.qcoeff.collocation import Collocation
import numpy as np
r = np.random.RandomState(1)
for nt in ("LEGENDRE", "EQUID", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"):
    for _ in range(60):
        a, b = sorted(r.uniform(0.1, 9, 2))
        assert Collocation(5, nt, "RADAU-RIGHT", a, b).nodes[-1] == b, (nt, a, b)
''')

bug("t22-integer-factors", "C17", [(NU, "    U = np.eye(n)\n", "    U = np.eye(n, dtype=A.dtype)\n")],
"lduFactorization of an integer matrix",
"the upper factor is truncated to integers", '''
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[2, 1], [1, 3]])
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A)
''')

bug("t23-errstate-leak", "C03", [(L, '''        if weightComputation == 'AUTO':
            with np.errstate(divide='raise', over='raise'):
                try:
                    invProd = analytic(diffs)
                except FloatingPointError:
                    invProd = logScale(diffs)
''', '''        if weightComputation == 'AUTO':
            old = np.seterr(divide='raise', over='raise')
            try:
                invProd = analytic(diffs)
                np.seterr(**old)
            except FloatingPointError:
                invProd = logScale(diffs)
''')],
"an AUTO weight computation that falls back to the logarithmic form",
"the process-wide floating point settings stay at raise", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
old = np.geterr()
LagrangeApproximation(np.linspace(0, 1, 2000))
assert np.geterr() == old, np.geterr()
''')

bug("t25-registered-twice", "C10", [(U, '''    assert alias not in dico, f"{alias} alias already registered in {dico}"
''', '''    assert dico.get(alias, cls).__name__ == cls.__name__, f"{alias} alias already registered in {dico}"
''')],
"a class with the name of a registered one",
"registering another class with the same name silently replaces it", '''
import numpy as np
from qmat.qdelta import QDELTA_GENERATORS, register, QDeltaGenerator
keep = QDELTA_GENERATORS["LU"]
try:
    @register
    class LU(QDeltaGenerator):
        def computeQDelta(self, k=None): return self.zeros
except AssertionError: pass
assert QDELTA_GENERATORS["LU"] is keep
''')
