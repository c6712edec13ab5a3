"""Reference solvers: hand-built cone programmes (Clarabel) and LPs (HiGHS).
They share no code with pypfopt and do not go through cvxpy."""
import numpy as np
import scipy.sparse as sp
import scipy.optimize as sco
import clarabel


class Cone:
    """min 1/2 x'Px + q'x over x = (w, extra vars), built up row by row."""

    def __init__(self, n):
        self.n = n
        self.nv = n
        self.eq, self.ub, self.soc = [], [], []
        self.q = {}
        self.Pblocks = []   # (rows idx, matrix)

    def var(self, k=1):
        s = self.nv
        self.nv += k
        return np.arange(s, s + k)

    def add_eq(self, idx, a, b):
        self.eq.append((np.asarray(idx), np.asarray(a, float), float(b)))

    def add_le(self, idx, a, b):
        self.ub.append((np.asarray(idx), np.asarray(a, float), float(b)))

    def add_soc(self, rows):
        """rows: list of (idx, a, c): the vector (a.x + c)_i must lie in the second-order cone."""
        self.soc.append(rows)

    def add_P(self, idx, M):
        self.Pblocks.append((np.asarray(idx), np.asarray(M, float)))

    def add_q(self, idx, v):
        for i, x in zip(idx, v):
            self.q[int(i)] = self.q.get(int(i), 0.0) + float(x)

    def feas(self, F, quadratic=True):
        """Adds the feasible set of a gen.Feas object on the first n variables."""
        w = np.arange(self.n)
        for i in range(self.n):
            if np.isfinite(F.lb[i]):
                self.add_le([i], [-1.0], -F.lb[i])
            if np.isfinite(F.ub[i]):
                self.add_le([i], [1.0], F.ub[i])
        for a, b in zip(F.Aeq, F.beq):
            self.add_eq(w, a, b)
        for a, b in zip(F.Aub, F.bub):
            self.add_le(w, a, b)
        for c in F.nl:
            t = c["t"]
            if t in ("l1", "turn"):
                v = np.array(c.get("v", np.zeros(self.n)))
                self.l1(np.arange(self.n), v, c["b"])
            elif t == "linf":
                for i in range(self.n):
                    self.add_le([i], [1.0], c["b"])
                    self.add_le([i], [-1.0], c["b"])
            elif t == "ssq":
                # a hair inside, so that a point reached through solver tolerance is no evidence
                rows = [([0], [0.0], np.sqrt(max(c["b"], 0.0)) * (1 - 1e-6))] + [([i], [1.0], 0.0) for i in range(self.n)]
                self.add_soc(rows)

    def l1(self, idx, centre, cap=None):
        """u >= |x_idx - centre|; sum(u) <= cap. Returns u's indices."""
        u = self.var(len(idx))
        for i, ui, c in zip(idx, u, centre):
            self.add_le([i, ui], [1.0, -1.0], c)
            self.add_le([i, ui], [-1.0, -1.0], -c)
        if cap is not None:
            self.add_le(u, np.ones(len(u)), cap)
        return u

    def quad_le(self, idx, S, c):
        """x_idx' S x_idx <= c."""
        L = psd_root(S)
        rows = [([0], [0.0], np.sqrt(max(c, 0.0)))] + [(idx, r, 0.0) for r in L]
        self.add_soc(rows)

    def solve(self):
        n = self.nv
        P = sp.lil_matrix((n, n))
        for idx, M in self.Pblocks:
            for a, i in enumerate(idx):
                for b, j in enumerate(idx):
                    if M[a, b] != 0:
                        P[i, j] += M[a, b]
        q = np.zeros(n)
        for i, v in self.q.items():
            q[i] = v
        r, c, d, b, cones = [], [], [], [], []
        row = 0

        def put(idx, a, sign, rhs):
            nonlocal row
            for i, v in zip(idx, a):
                if v != 0:
                    r.append(row); c.append(int(i)); d.append(sign * v)
            b.append(rhs)
            row += 1

        for idx, a, rhs in self.eq:
            put(idx, a, 1.0, rhs)
        if self.eq:
            cones.append(clarabel.ZeroConeT(len(self.eq)))
        for idx, a, rhs in self.ub:
            put(idx, a, 1.0, rhs)
        if self.ub:
            cones.append(clarabel.NonnegativeConeT(len(self.ub)))
        for rows in self.soc:
            for idx, a, cst in rows:
                put(idx, a, -1.0, cst)
            cones.append(clarabel.SecondOrderConeT(len(rows)))
        A = sp.csc_matrix((d, (r, c)), shape=(row, n))
        s = clarabel.DefaultSettings()
        s.verbose = False
        s.tol_gap_abs = s.tol_gap_rel = 1e-10
        s.tol_feas = 1e-10
        s.max_iter = 300
        sol = clarabel.DefaultSolver(sp.csc_matrix(sp.triu(P)), q, A, np.array(b), cones, s).solve()
        status = str(sol.status)
        x = np.array(sol.x)
        return status, x, sol.obj_val


def psd_root(S):
    """R with R'R = S."""
    lam, V = np.linalg.eigh((S + S.T) / 2)
    lam = np.clip(lam, 0, None)
    return (V * np.sqrt(lam)).T


def qp(F, P=None, q=None, extra=None):
    """min 1/2 w'Pw + q'w over F; extra(cone) may add terms. (ok, w)"""
    c = Cone(F.n)
    c.feas(F)
    idx = np.arange(F.n)
    if P is not None:
        c.add_P(idx, P)
    if q is not None:
        c.add_q(idx, q)
    if extra:
        extra(c)
    status, x, _ = c.solve()
    return status, x[:F.n]


def lp(F, cvec, extra_ub=None, extra_eq=None):
    """min c'w over the linear part of F with HiGHS. (status, w) status 0 ok, 2 infeasible, 3 unbounded"""
    Aub, bub, Aeq, beq = F.Aub, F.bub, F.Aeq, F.beq
    if extra_ub is not None:
        Aub = np.vstack([Aub, extra_ub[0]]); bub = np.append(bub, extra_ub[1])
    bounds = [(None if not np.isfinite(l) else l, None if not np.isfinite(u) else u) for l, u in zip(F.lb, F.ub)]
    r = sco.linprog(cvec, A_ub=Aub if len(Aub) else None, b_ub=bub if len(bub) else None,
                    A_eq=Aeq if len(Aeq) else None, b_eq=beq if len(beq) else None, bounds=bounds, method="highs")
    return r.status, (None if r.x is None else np.array(r.x))


def min_var(F, S):
    return qp(F, P=2 * S)


def solved(status):
    return status in ("Solved", "AlmostSolved")


def interior_gap(F):
    """Largest t such that some w meets every inequality of F with slack t
    (equalities exactly); negative when infeasible. LP part only."""
    n = F.n
    Aub, bub = [], []
    for i in range(n):
        if np.isfinite(F.ub[i]):
            a = np.zeros(n + 1); a[i] = 1; a[n] = 1
            Aub.append(a); bub.append(F.ub[i])
        if np.isfinite(F.lb[i]):
            a = np.zeros(n + 1); a[i] = -1; a[n] = 1
            Aub.append(a); bub.append(-F.lb[i])
    for a0, b0 in zip(F.Aub, F.bub):
        Aub.append(np.append(a0, 1.0)); bub.append(b0)
    Aeq = np.hstack([F.Aeq, np.zeros((len(F.Aeq), 1))]) if len(F.Aeq) else None
    r = sco.linprog(np.append(np.zeros(n), -1.0), A_ub=np.array(Aub), b_ub=np.array(bub), A_eq=Aeq,
                    b_eq=F.beq if len(F.Aeq) else None, bounds=[(None, None)] * n + [(None, 10)], method="highs")
    return -r.fun if r.status == 0 else -np.inf
