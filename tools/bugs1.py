BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("s01-list-of-one-shares-cache", "C01", [("qdelta/__init__.py",
"            out = [np.array([gen(_k, copy=False) for _k in k])]\n",
"            mats = [gen(_k, copy=False) for _k in k]\n"
"            out = [mats[0][None, ...] if len(mats) == 1 else np.array(mats)]\n")],
"genCoeffs with a list holding exactly one iteration, then writing in the result",
"the returned 1xMxM array is a view of the generator's cache", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.timestepping import BE
g = BE(qGen=Collocation(4, "LEGENDRE", "RADAU-RIGHT"))
ref = g.getQDelta().copy()
g.genCoeffs(k=[1])[:] = 7.
assert np.array_equal(g.getQDelta(), ref), "cache modified through a returned array"
''')

bug("s02-interval-scratch", "C02", [("lagrange.py",
"        intervals = np.array(intervals)\n", "        intervals = np.asarray(intervals, dtype=float)\n"),
("lagrange.py",
"        tEval = (bj - aj) / 2 * tau + (bj + aj) / 2\n",
"        mid = (bj + aj) / 2\n        bj -= aj  # interval lengths\n        bj /= 2\n        tEval = bj * tau + mid\n"),
("lagrange.py", "        integrand *= (bj - aj) / 2\n", "        integrand *= bj\n")],
"intervals given as a floating-point numpy array that the caller uses again",
"getIntegrationMatrix overwrites the right bounds in the caller's array", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
a = LagrangeApproximation([0., 0.3, 1.])
iv = np.array([[0., 0.3], [0.3, 1.]])
keep = iv.copy()
a.getIntegrationMatrix(iv)
assert np.array_equal(iv, keep), iv
''')

bug("s03-error-in-place", "C02", [("utils/sdc.py",
"    return np.linalg.norm(uNum-uExact, ord=np.inf)\n",
"    err = uNum\n    err -= uExact\n    return np.linalg.norm(err, ord=np.inf)\n")],
"errorDahlquistSDC called with uNum given by the caller",
"the numerical solution of the caller is replaced by the error", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
QD = np.diag(c.nodes)
u = solveDahlquistSDC(-1., 1., 1., 4, 2, c.Q, QD)
keep = u.copy()
errorDahlquistSDC(-1., 1., 1., 4, 2, c.Q, QD, uNum=u)
assert np.array_equal(u, keep)
''')

bug("s04-shared-minsrs", "C03", [("qdelta/diag.py",
'''    aliases = ["MIN-SR-FLEX"]

''', '''    aliases = ["MIN-SR-FLEX"]

    _LIMITS = {}    # MIN-SR-S coefficients used after the first sweeps

'''), ("qdelta/diag.py",
'''            try:
                self._QDelta_MIN_SR_S
            except AttributeError:
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
''', '''            key = (self.size, self.nodeType)
            if key not in self._LIMITS:
                self._LIMITS[key] = super().computeQDelta()
            return self._LIMITS[key]
''')],
"two MIN-SR-FLEX generators with the same size and node type but another quadrature type, k > M, in one process",
"the second generator gets the coefficients of the first one", '''
import numpy as np, subprocess, sys
code = """
import numpy as np, sys
from qmat import genQDeltaCoeffs
if sys.argv[1] == "1":
    genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=5, nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
D = genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=5, nNodes=3, nodeType="LEGENDRE", quadType="GAUSS")
print(repr(D[-1].tolist()))
"""
r = [eval(subprocess.run([sys.executable, "-c", code, x], capture_output=True, text=True, check=True).stdout) for x in "01"]
assert np.allclose(r[0], r[1], atol=1e-12), r
''')

bug("s05-lu-fast-path", "C04", [("qdelta/algebraic.py",
"        _, _, U = spl.lu(self.Q.T)\n        return U.T\n",
"        if self.size > 12:  # no need for the permutation matrix\n            U = spl.lu_factor(self.Q.T)[0]\n        else:\n            _, _, U = spl.lu(self.Q.T)\n        return U.T\n")],
"more than 12 nodes", "LU and LU2 are full matrices (the multipliers are stored in the other triangle)", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.algebraic import LU, LU2
for M in [3, 5, 12, 13, 15]:
    Q = Collocation(M, "LEGENDRE", "RADAU-RIGHT").Q
    for G in [LU, LU2]:
        D = G(Q=Q).getQDelta()
        assert np.all(np.triu(D, 1) == 0), (M, G)
''')

bug("s06-dtau-origin", "C05", [("qdelta/timestepping.py",
"        return self.nodes*0 + self.deltas[0]/2.0\n", "        return np.full(self.size, self.nodes[0]/2.0)\n")],
"a time interval that does not start at 0", "dTau of TRAP depends on the absolute time", '''
import numpy as np
from qmat.qdelta.timestepping import TRAP
n = np.array([0.2, 0.6, 1.])
assert np.allclose(TRAP(nodes=n+1, tLeft=1).dTau, TRAP(nodes=n).dTau)
''')

bug("s07-S-origin", "C05", [("qcoeff/collocation.py",
"        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n                 for i in range(nodes.shape[0])]\n",
"        tau = np.concatenate([[0.0], nodes])\n        pInts = list(zip(tau[:-1], tau[1:]))\n")],
"a Collocation built with tLeft != 0", "first row of S integrates from 0 instead of tLeft", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
a = Collocation(4, "LEGENDRE", "GAUSS"); b = Collocation(4, "LEGENDRE", "GAUSS", tLeft=1, tRight=2)
assert np.allclose(a.S, b.S, atol=1e-10), (a.S[0], b.S[0])
''')

bug("s08-use-right-sorted", "C06", [("lagrange.py",
'''            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''', '''            self._nnzIdx = np.searchsorted(self.points, values, side="right") - 1
''')],
"duplicated points that are not in increasing order, with USE_RIGHT",
"the values of the wrong points are kept", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
p = np.array([1., 0., 0.5, 0.])
P = LagrangeApproximation(p, duplicates="USE_RIGHT").getInterpolationMatrix([0., 0.25, 1.])
ref = np.zeros_like(P); ref[:, [0, 2, 3]] = LagrangeApproximation([1., 0.5, 0.]).getInterpolationMatrix([0., 0.25, 1.])
assert np.allclose(P, ref), P
''')

bug("s09-d1-base", "C06", [("lagrange.py",
"            D1 = base.copy()\n", "            D1 = base\n")],
"derivative matrices asked with order='ALL'", "second derivative matrix differs between order=2 and order='ALL'", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
a = LagrangeApproximation([0., 0.3, 0.7, 1.])
assert np.allclose(a.getDerivativeMatrix(order="ALL")[1], a.getDerivativeMatrix(order=2))
''')

bug("s10-rk33-nonlinear", "C07", [("qcoeff/butcher.py",
'''         [1, 0, 0],
         [1/4, 1/4, 0]]
    b = [1/6, 1/6, 2/3]
    c = [0, 1, 1/2]
''', '''         [1/3, 0, 0],
         [-1/12, 3/4, 0]]
    b = [1/6, 1/6, 2/3]
    c = [0, 1/3, 2/3]
''')],
"a nonlinear (or non-autonomous) problem solved with RK33", "order 3 only on linear problems (b.c^2 = 17/54)", '''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK33"]()
assert np.isclose(g.b @ g.c**2, 1/3), g.b @ g.c**2
''')

bug("s11-pad-stiffly", "C08", [("qcoeff/butcher.py",
"                newA[-1] = self.b\n", "                newA[-1] = self.A[-2] if self.rightIsNode and self.A.shape == newA.shape else self.A[-1]\n")],
"placeholder", "placeholder", "assert True")
BUGS.pop()

bug("s11-pad-right-row", "C08", [("qcoeff/butcher.py",
"                newA[-1] = self.b\n", "                newA[-1, :-1] = self.A[-1] if self.c[-2] == 1 else self.b[:-1]\n")],
"a scheme with a stage at t=1 that is not stiffly accurate (RK4), with RIGHT or BOTH padding",
"the padded row is the last stage instead of the step update", '''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
for name in ["RK4", "HEUN2", "TRAP", "BE", "RK33", "CashKarp", "ESDIRK43"]:
    for pad in ["RIGHT", "BOTH"]:
        g = RK_SCHEMES[name](padding=pad)
        assert np.allclose(g.A[-1], g.b), (name, pad, g.A[-1], g.b)
''')

bug("s12-ars443-coupling", "C09", [("qcoeff/butcher.py",
'''                  [11/18,  1/18,  0 ,   0 , 0],
                  [ 5/6 , -5/6 , 1/2,   0 , 0],
''', '''                  [ 2/9 ,  4/9 ,  0 ,   0 , 0],
                  [ 2/3 , -2/3 , 1/2,   0 , 0],
''')],
"ARK443ERK used together with ARK443ESDIRK", "coupling condition b_I.A_E.c = 1/6 fails: the IMEX pair has order 2", '''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
E, I = RK_SCHEMES["ARK443ERK"](), RK_SCHEMES["ARK443ESDIRK"]()
for X in (E, I):
    for Y in (E, I):
        assert np.isclose(X.b @ Y.A @ E.c, 1/6), (type(X).__name__, type(Y).__name__, X.b @ Y.A @ E.c)
''')

bug("s13-alias-setdefault", "C10", [("utils/__init__.py",
"        for alias in aliases:\n            storeAlias(cls, dico, alias)\n",
"        for alias in aliases:\n            if dico.get(alias, cls) is cls: continue\n            storeAlias(cls, dico, alias)\n")],
"placeholder", "placeholder", "assert True")
BUGS.pop()
bug("s13-alias-taken", "C10", [("utils/__init__.py",
"        for alias in aliases:\n            storeAlias(cls, dico, alias)\n",
"        for alias in aliases:\n            if alias in dico and dico[alias].__module__ != cls.__module__:\n                continue  # keep the first implementation\n            storeAlias(cls, dico, alias)\n")],
"a class registered with an alias already taken by a class of another module",
"the second registration is accepted without its alias instead of being rejected", '''
from qmat.qdelta import register, QDeltaGenerator, QDELTA_GENERATORS
class Mine(QDeltaGenerator):
    aliases = ["IE"]
    def computeQDelta(self, k=None): return self.zeros
try:
    register(Mine)
except AssertionError:
    pass
else:
    raise SystemExit("taken alias accepted")
''')

bug("s14-repeat-freezes-k", "C11", [("qdelta/__init__.py",
"            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))\n",
"            nGiven = len(qDeltaType)\n            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-nGiven)\n"),
("qdelta/__init__.py",
"                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n",
"                [gen.genCoeffs(min(k, nGiven-1)+1, form) for k, gen in enumerate(gens)]\n"),
("qdelta/__init__.py",
"            nSweeps = len(qDeltaType)  # number of sweeps given in the list\n",
"            nGiven = nSweeps = len(qDeltaType)  # number of sweeps given in the list\n")],
"a list of approximations ending with an iteration-dependent one, and nSweeps larger than the list",
"the repeated sweeps use the coefficients of the sweep where the approximation first appears", '''
import numpy as np
from qmat import genQDeltaCoeffs, Q_GENERATORS
from qmat.qdelta import QDELTA_GENERATORS
c = Q_GENERATORS["Collocation"](4, "LEGENDRE", "RADAU-RIGHT")
D = genQDeltaCoeffs(["BE", "MIN-SR-FLEX"], nSweeps=4, qGen=c)
for k in range(1, 4):
    assert np.allclose(D[k], QDELTA_GENERATORS["MIN-SR-FLEX"](qGen=c).getQDelta(k+1)), k
''')

bug("s15-zero-sweeps", "C12", [("qdelta/__init__.py",
'''            pass  # only one QDelta matrix, default approach
        elif isinstance(nSweeps, int) and nSweeps > 0:
''', '''            pass  # only one QDelta matrix, default approach
        elif isinstance(nSweeps, int) and nSweeps >= 0:
''')],
"nSweeps=0 with a single approximation name", "an empty array is returned instead of the documented error", '''
from qmat import genQDeltaCoeffs
try:
    genQDeltaCoeffs("BE", nSweeps=0, nodes=[0.5, 1.])
except ValueError:
    pass
else:
    raise SystemExit("nSweeps=0 accepted")
''')

bug("s16-falsy-override", "C13", [("utils/__init__.py",
"            qGenParams.update(params)\n",
"            # ignore parameters explicitely given as empty\n            qGenParams.update({n: v for n, v in params.items() if not np.isscalar(v) or v})\n"),
("utils/__init__.py", "import pkgutil\n", "import pkgutil\nimport numpy as np\n")],
"an explicit override with value 0 (tLeft=0) next to a qGen with another left bound",
"the override is silently ignored", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.timestepping import BE
c = Collocation(3, "LEGENDRE", "GAUSS", tLeft=1, tRight=2)
assert np.allclose(BE(qGen=c, tLeft=0).getQDelta(), BE(nodes=c.nodes, tLeft=0).getQDelta())
''')

bug("s17-embedded-error", "C14", [("qcoeff/__init__.py",
"            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights)\n",
"            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps)\n")],
"errorDahlquist(useEmbeddedWeights=True) without a given solution", "the error of the main method is returned", '''
from qmat.qcoeff.butcher import RK_SCHEMES
import numpy as np
g = RK_SCHEMES["ESDIRK53"]()
u = g.solveDahlquist(1j, 1, 1, 4, useEmbeddedWeights=True)
assert np.isclose(g.errorDahlquist(1j, 1, 1, 4, useEmbeddedWeights=True), g.errorDahlquist(1j, 1, 1, 4, uNum=u), rtol=1e-6, atol=0)
''')

bug("s18-monitor-local-error", "C14", [("utils/sdc.py",
"                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n",
"                    monitors[\"errors\"][k+1, i] = uNodes - uNum[i]*np.exp(lam*dt*nodes)\n")],
"errors monitored on more than one time step", "the monitored errors are local ones after each sweep, but global ones before", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
u, m = solveDahlquistSDC(-2., 1., 1., 3, 2, c.Q, np.diag(c.nodes), monitors=["errors"])
for i in range(3):
    assert np.isclose(m["errors"][-1, i, -1], u[i+1] - np.exp(-2.*(i+1)/3)), i
''')

bug("s19-scipy-rule-capped", "C15", [("lagrange.py",
"            iNodes, iWeights = roots_legendre((self.n + 1) // 2)\n",
"            iNodes, iWeights = roots_legendre(min((self.n + 1) // 2, 24))\n")],
"more than 48 points with LEGENDRE_SCIPY", "rule no longer exact for the interpolating polynomial", '''
import numpy as np
from qmat.lagrange import LagrangeApproximation
n = 60
p = np.cos(np.pi*(np.arange(n)+0.5)/n)[::-1].copy()
a = LagrangeApproximation(p)
w1 = a.getIntegrationMatrix([[-1., 1.]], numQuad="LEGENDRE_SCIPY"); w2 = a.getIntegrationMatrix([[-1., 1.]], numQuad="LEGENDRE_NUMPY")
assert np.allclose(w1, w2, atol=1e-10), abs(w1-w2).max()
''')

bug("s20-single-node-weights", "C16", [("qcoeff/collocation.py",
"        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n",
"        weights = np.squeeze(approx.getIntegrationMatrix([(tLeft, tRight)]))\n")],
"a collocation method with one node", "weights is a 0-dimensional array", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
for M in [1, 2, 3]:
    c = Collocation(M, "LEGENDRE", "GAUSS")
    assert c.genCoeffs()[1].shape == (M,), (M, c.genCoeffs()[1].shape)
''')

bug("s21-int-poly", "C17", [("nodes.py",
"        t = np.asarray(t, dtype=float)\n        pi = np.array([np.zeros_like(t) for i in range(3)])\n",
"        t = np.asarray(t)\n        pi = np.array([np.zeros_like(t) for i in range(3)])\n")],
"evalOrthogPoly with an integer evaluation point", "in-place operations on integer arrays fail", '''
import numpy as np
from qmat.nodes import NodesGenerator
g = NodesGenerator("LEGENDRE", "GAUSS")
a, b = g.getOrthogPolyCoefficients(4)
for t in [0, 1, np.array([-1, 0, 1])]:
    assert np.allclose(g.evalOrthogPoly(t, a, b), g.evalOrthogPoly(np.asarray(t, dtype=float), a, b)), t
''')

bug("s22-table-swap", "C18", [("qdelta/mincoeffs.py",
"                0.2994085231050721,\n                0.07923154575177252,\n", "                0.07923154575177252,\n                0.2994085231050721,\n")],
"MIN3 with 5 LEGENDRE LOBATTO nodes", "the coefficients are paired with the wrong nodes (no contraction)", '''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.diag import MIN3
c = Collocation(5, "LEGENDRE", "LOBATTO")
D = MIN3(qGen=c).getQDelta()[1:, 1:]
rho = max(abs(np.linalg.eigvals(np.eye(4) - np.linalg.inv(D) @ c.Q[1:, 1:])))
assert rho < 0.1, rho
''')

bug("s23-close-to-bound", "C19", [("nodes.py",
'''        if self.quadType in ["LOBATTO", "RADAU-RIGHT"]:
            nodes[-1] = 1
''', '''        if np.isclose(nodes[-1], 1):
            nodes[-1] = 1
''')],
"GAUSS nodes so many that the last one is close to the boundary", "the last inner node is moved onto the boundary", '''
from qmat.nodes import NodesGenerator
n = NodesGenerator("LEGENDRE", "GAUSS").getNodes(700)
assert n[-1] < 1, n[-1]
''')
