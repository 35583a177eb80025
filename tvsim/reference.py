"""Independent numpy model of the discretisation and the energies.

Nothing here imports the code under test.  Vertices are numbered row by row (index j*(nx+1)+i at
(i*h, j*h)); each grid cell is cut by the diagonal from its lower left to its upper right corner.
"""

import functools
import numpy as np

ENTROPY = 10.0
HTC = 0.5  # heat transfer coefficient
WELL = 2.0 + 0.5 ** 2

# triangle rules as (barycentric points, weights summing to one)
CENTROID = (np.array([[1 / 3, 1 / 3, 1 / 3]]), np.array([1.0]))
TRI2 = (np.array([[2 / 3, 1 / 6, 1 / 6], [1 / 6, 2 / 3, 1 / 6], [1 / 6, 1 / 6, 2 / 3]]),
        np.full(3, 1 / 3))
_s = np.sqrt(15.0)
_a, _b = (6 - _s) / 21, (6 + _s) / 21
_wa, _wb = (155 - _s) / 1200, (155 + _s) / 1200
TRI5 = (np.array([[1 / 3, 1 / 3, 1 / 3],
                  [1 - 2 * _a, _a, _a], [_a, 1 - 2 * _a, _a], [_a, _a, 1 - 2 * _a],
                  [1 - 2 * _b, _b, _b], [_b, 1 - 2 * _b, _b], [_b, _b, 1 - 2 * _b]]),
        np.array([9 / 40, _wa, _wa, _wa, _wb, _wb, _wb]))


def cells(length, scale):
    """Number of whole cells that fit (with the tolerance of decimal input)."""
    return int(np.floor(length / scale + 1e-9))


class Mesh:
    def __init__(self, nx, ny, h):
        self.nx, self.ny, self.h = nx, ny, h
        self.n = (nx + 1) * (ny + 1)
        jj, ii = np.divmod(np.arange(self.n), nx + 1)
        self.ij = np.stack([ii, jj], axis=1)
        self.points = self.ij * h
        tris = []
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = (self.v(i, j), self.v(i + 1, j), self.v(i + 1, j + 1), self.v(i, j + 1))
                tris.append((a, b, c))
                tris.append((c, d, a))
        self.triangles = np.array(tris)
        p = self.points[self.triangles]
        dm = np.stack([p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]], axis=2)
        self.area = np.abs(np.linalg.det(dm)) / 2
        self.dm_inv = np.linalg.inv(dm)
        self.sides = {
            "lower": [(self.v(i, 0), self.v(i + 1, 0)) for i in range(nx)],
            "upper": [(self.v(i, ny), self.v(i + 1, ny)) for i in range(nx)],
            "left": [(self.v(0, j), self.v(0, j + 1)) for j in range(ny)],
            "right": [(self.v(nx, j), self.v(nx, j + 1)) for j in range(ny)],
        }

    def v(self, i, j):
        return j * (self.nx + 1) + i

    def boundary_edges(self):
        return [e for s in ("lower", "right", "upper", "left") for e in self.sides[s]]

    def index_of(self, points):
        """Row-by-row vertex numbers of the given points, or None if one is not a vertex."""
        q = np.asarray(points, float) / self.h
        r = np.rint(q)
        if q.size == 0 or np.max(np.abs(q - r)) > 1e-6:
            return None
        r = r.astype(int)
        if r.min() < 0 or np.any(r[:, 0] > self.nx) or np.any(r[:, 1] > self.ny):
            return None
        return r[:, 1] * (self.nx + 1) + r[:, 0]

    def p1_gradient(self, u):
        """u: (..., n) -> (..., ntri, 2)"""
        ut = u[..., self.triangles]
        d = np.stack([ut[..., 1] - ut[..., 0], ut[..., 2] - ut[..., 0]], axis=-1)
        return np.einsum("...td,tde->...te", d, self.dm_inv)

    def p1_strain(self, y):
        """y: (..., n, 2) -> (..., ntri, 2, 2) with F[i][j] = d y_i / d x_j"""
        return np.stack([self.p1_gradient(y[..., 0]), self.p1_gradient(y[..., 1])], axis=-2)

    def p1_at(self, u, bary):
        """u: (..., n) -> (..., ntri, npoints)"""
        return np.einsum("...tk,pk->...tp", u[..., self.triangles], bary)


def fixed_sides(fix):
    if fix is None:
        return set()
    return {fix} if isinstance(fix, str) else set(fix)


def clamped_edges(mesh, fix):
    return [e for s in sorted(fixed_sides(fix)) for e in mesh.sides[s]]


def free_edges(mesh, fix):
    c = set(clamped_edges(mesh, fix))
    return [e for e in mesh.boundary_edges() if e not in c]


def clamped_vertices(mesh, fix):
    return sorted({v for e in clamped_edges(mesh, fix) for v in e})


# --- material laws ---------------------------------------------------------------------------

def det(F):
    return F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]


def cof(F):
    return np.stack([np.stack([F[..., 1, 1], -F[..., 1, 0]], -1),
                     np.stack([-F[..., 0, 1], F[..., 0, 0]], -1)], -2)


def austenite(F):
    J = det(F)
    return np.sum(F * F, axis=(-1, -2)) - 2 - 2 * np.log(J) + (J - 1) ** 2


def martensite(F):
    J = det(F)
    return (np.sum(F * F, axis=(-1, -2)) / J - WELL) ** 2 + (J ** 2 + J ** -2 - 2) ** 2


def d_austenite(F):
    J = det(F)[..., None, None]
    return 2 * F + (2 * (J - 1) - 2 / J) * cof(F)


def d_martensite(F):
    J = det(F)[..., None, None]
    I1 = np.sum(F * F, axis=(-1, -2))[..., None, None]
    u = I1 / J - WELL
    q = J ** 2 + J ** -2 - 2
    return 2 * u * (2 * F / J - I1 / J ** 2 * cof(F)) + 2 * q * (2 * J - 2 * J ** -3) * cof(F)


def austenite_share(t):
    return 1 - np.exp(-5 * t)


def energy_weight(t):
    return 1 - np.exp(-5 * t) - 5 * t * np.exp(-5 * t)


def energy_weight_primitive(t):
    return t + t * np.exp(-5 * t) + 0.4 * np.exp(-5 * t) - 0.4


def stored(F, t):
    a = austenite_share(t)
    return a * austenite(F) + (1 - a) * martensite(F)


def dissipation(Fp, F):
    d = F - Fp
    s = np.swapaxes(d, -1, -2) @ Fp + np.swapaxes(Fp, -1, -2) @ d
    return np.sum(s * s, axis=(-1, -2)) / 2


def conductivity(Fp):
    J = det(Fp)[..., None, None]
    inv = np.swapaxes(cof(Fp), -1, -2) / J
    return J * inv @ np.swapaxes(inv, -1, -2)


def _quiet(f):
    @functools.wraps(f)
    def g(*a, **k):
        with np.errstate(all="ignore"):
            return f(*a, **k)
    return g


# --- P1 problems -----------------------------------------------------------------------------

class P1Problem:
    """The two minimisation problems of a step without regularisation."""

    def __init__(self, mesh, fix, fps):
        self.mesh, self.fix, self.fps = mesh, fix, fps
        self.free = np.array(free_edges(mesh, fix)).reshape(-1, 2)
        self.bnd = np.array(mesh.boundary_edges())

    def _bulk(self, f, w):
        """f: (..., ntri, npoints)"""
        return np.einsum("...tp,p,t->...", f, w, self.mesh.area)

    @_quiet
    def volume(self, y):
        """Smallest local change of volume."""
        return float(np.min(det(self.mesh.p1_strain(y))))

    def stored_energy(self, y, theta):
        F = self.mesh.p1_strain(y)[..., None, :, :]
        t = self.mesh.p1_at(theta, TRI2[0])
        return self._bulk(stored(F, t), TRI2[1])

    @_quiet
    def dissipated(self, y_prev, y):
        r = dissipation(self.mesh.p1_strain(y_prev), self.mesh.p1_strain(y))
        return np.einsum("...t,t->...", r, self.mesh.area)

    def traction_work(self, g, y):
        """g: (n, 2) traction at the vertices"""
        if not len(self.free):
            return np.zeros(y.shape[:-2])
        gm = (g[self.free[:, 0]] + g[self.free[:, 1]]) / 2
        ym = (y[..., self.free[:, 0], :] + y[..., self.free[:, 1], :]) / 2
        return self.mesh.h * np.sum(gm * ym, axis=(-1, -2))

    def mechanical(self, y, y_prev, theta_prev, g):
        return (self.stored_energy(y, theta_prev) - self.traction_work(g, y)
                + self.fps * self.dissipated(y_prev, y))

    def boundary_exchange(self, theta, ext):
        tm = (theta[..., self.bnd[:, 0]] + theta[..., self.bnd[:, 1]]) / 2
        return self.mesh.h * np.sum(HTC / 2 * (tm - ext) ** 2, axis=-1)

    @_quiet
    def thermal(self, theta, theta_prev, y_prev, y, ext):
        m = self.mesh
        return (thermal_bulk(m.p1_strain(y_prev)[:, None], m.p1_strain(y)[:, None],
                             m.p1_at(theta_prev, TRI2[0]), m.p1_at(theta, TRI2[0]),
                             m.p1_gradient(theta)[..., :, None, :], self.fps,
                             lambda f: self._bulk(f, TRI2[1]))
                + self.boundary_exchange(theta, ext))

    @_quiet
    def heat_balance(self, theta, theta_prev, y_prev, y, ext):
        """(change of internal energy, dissipated and coupling heat, loss through the boundary)"""
        m = self.mesh
        Fp, F = m.p1_strain(y_prev)[:, None], m.p1_strain(y)[:, None]
        tp, t = m.p1_at(theta_prev, TRI2[0]), m.p1_at(theta, TRI2[0])
        fps = self.fps

        def internal(F, t):
            return energy_weight(t) * (austenite(F) - martensite(F)) + ENTROPY * t
        change = fps * self._bulk(internal(F, t) - internal(Fp, tp), TRI2[1])
        rate = (F - Fp) * fps
        coupling = austenite_share(tp) * np.sum((d_austenite(Fp) - d_martensite(Fp)) * rate, (-1, -2))
        heat = self._bulk(2 * fps ** 2 * dissipation(Fp, F) + coupling, TRI2[1])
        tm = (theta[self.bnd[:, 0]] + theta[self.bnd[:, 1]]) / 2
        loss = self.mesh.h * np.sum(HTC * (tm - ext))
        return change, heat, loss


def thermal_bulk(Fp, F, tp, t, grad, fps, integrate):
    cond = np.einsum("...i,...ij,...j->...", grad, conductivity(Fp), grad)
    rate = (F - Fp) * fps
    coupling = austenite_share(tp) * np.sum((d_austenite(Fp) - d_martensite(Fp)) * rate, (-1, -2))
    heat = 2 * fps ** 2 * dissipation(Fp, F) + coupling
    inner = (ENTROPY / 2 * (t - tp) ** 2
             + energy_weight_primitive(t) * (austenite(F) - martensite(F))
             - energy_weight(tp) * (austenite(Fp) - martensite(Fp)) * t)
    return integrate(cond - heat * t + fps * inner)


# --- C1 element ------------------------------------------------------------------------------

_EXP = [(a, d - a) for d in range(6) for a in range(d, -1, -1)]  # 21 monomials x^a y^b


def _mono(p, dx, dy):
    """Derivatives of all monomials at points p: (npoints, 21)"""
    x, y = p[:, 0], p[:, 1]
    out = np.zeros((len(p), 21))
    for k, (a, b) in enumerate(_EXP):
        if a < dx or b < dy:
            continue
        c = np.prod(range(a - dx + 1, a + 1)) * np.prod(range(b - dy + 1, b + 1))
        out[:, k] = c * x ** (a - dx) * y ** (b - dy)
    return out


@functools.lru_cache(maxsize=None)
def _bell_coefficients(upper):
    """(21, 18): monomial coefficients of the nodal basis on the unit lower or upper triangle.

    Quintic with value, gradient and hessian given at the vertices and a normal derivative that is
    cubic along each edge.
    """
    v = np.array([[1., 1.], [0., 1.], [0., 0.]] if upper else [[0., 0.], [1., 0.], [1., 1.]])
    rows, rhs = [], []
    k = 0
    for p in v:
        for d in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)):
            rows.append(_mono(p[None], *d)[0])
            e = np.zeros(18)
            e[k] = 1
            rhs.append(e)
            k += 1
    for i in range(3):
        p, q = v[i], v[(i + 1) % 3]
        n = np.array([q[1] - p[1], p[0] - q[0]])
        # fourth difference of the normal derivative (a quartic along the edge) vanishes
        row = np.zeros(21)
        for s, c in zip(np.linspace(0, 1, 5), (1, -4, 6, -4, 1)):
            x = ((1 - s) * p + s * q)[None]
            row += c * (n[0] * _mono(x, 1, 0)[0] + n[1] * _mono(x, 0, 1)[0])
        rows.append(row)
        rhs.append(np.zeros(18))
    return np.linalg.solve(np.array(rows), np.array(rhs))


_DER = ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2))
_ORDER = np.array([0, 1, 1, 2, 2, 2])


def bell_matrix(local, upper, h):
    """(npoints, 6, 18): value and derivatives in the dofs (u, ux, uy, uxx, uxy, uyy per vertex)."""
    c = _bell_coefficients(bool(upper))
    m = np.stack([_mono(local, *d) @ c for d in _DER], axis=1)
    m = m * (h ** -_ORDER.astype(float))[None, :, None]
    return m * np.tile(h ** _ORDER.astype(float), 3)[None, None, :]


class C1Field:
    """Evaluation of C1 functions with dofs (n, 6) on a coarse mesh."""

    def __init__(self, mesh):
        self.mesh = mesh

    def eval(self, dofs, points):
        """dofs (n, 6); points (m, 2) -> (m, 6) value and derivatives"""
        m = self.mesh
        q = np.asarray(points, float) / m.h
        ij = np.clip(np.floor(q + 1e-9).astype(int), 0, [m.nx - 1, m.ny - 1])
        local = q - ij
        upper = local[:, 1] > local[:, 0]
        out = np.empty((len(q), 6))
        for u in (False, True):
            sel = np.nonzero(upper == u)[0]
            if not len(sel):
                continue
            B = bell_matrix(local[sel], u, m.h)
            tri = m.triangles[2 * (ij[sel, 1] * m.nx + ij[sel, 0]) + int(u)]
            out[sel] = np.einsum("pdk,pk->pd", B, dofs[tri].reshape(len(sel), 18))
        return out


class C1Problem:
    """The two minimisation problems of a regularised step."""

    def __init__(self, mesh, r, fps, weight):
        self.mesh, self.fps, self.weight = mesh, fps, weight
        self.fine = Mesh(mesh.nx * r, mesh.ny * r, mesh.h / r)
        f = self.fine
        cen = f.points[f.triangles].mean(axis=1) / mesh.h
        ij = np.floor(cen).astype(int)
        loc = cen - ij
        upper = loc[:, 1] > loc[:, 0]
        self.coarse = 2 * (ij[:, 1] * mesh.nx + ij[:, 0]) + upper
        pts = np.einsum("pk,tkd->tpd", TRI5[0], f.points[f.triangles]) / mesh.h - ij[:, None, :]
        nq = len(TRI5[1])
        self.B = np.empty((len(cen), nq, 6, 18))
        for u in (False, True):
            sel = np.nonzero(upper == u)[0]
            self.B[sel] = bell_matrix(pts[sel].reshape(-1, 2), u, mesh.h).reshape(-1, nq, 6, 18)
        self.W = f.area[:, None] * TRI5[1][None, :]

    def _jet(self, y):
        """y: (..., n, 2, 6) -> (..., ntri, nq, 2, 6)"""
        d = y[..., self.mesh.triangles[self.coarse], :, :]  # (..., t, 3, 2, 6)
        d = np.moveaxis(d, -2, -3)  # (..., t, 2, 3, 6)
        d = d.reshape(*d.shape[:-2], 18)
        return np.einsum("tpdk,...tck->...tpcd", self.B, d)

    def volume(self, y):
        """Smallest local change of volume at the integration points."""
        return float(np.min(det(self._strain(self._jet(y)))))

    @staticmethod
    def _strain(jet):
        return jet[..., 1:3]

    def _int(self, f):
        return np.einsum("...tp,tp->...", f, self.W)

    @_quiet
    def mechanical(self, y, y_prev, theta_prev):
        jet = self._jet(y)
        F, Fp = self._strain(jet), self._strain(self._jet(y_prev))
        t = self.fine.p1_at(theta_prev, TRI5[0])
        H = jet[..., 3:]
        norm = np.sqrt(np.sum(H[..., 0] ** 2 + 2 * H[..., 1] ** 2 + H[..., 2] ** 2, axis=-1))
        return self._int(stored(F, t) + self.weight * norm ** 3 + self.fps * dissipation(Fp, F))

    @_quiet
    def thermal(self, theta, theta_prev, y_prev, y):
        f = self.fine
        return thermal_bulk(self._strain(self._jet(y_prev)), self._strain(self._jet(y)),
                            f.p1_at(theta_prev, TRI5[0]), f.p1_at(theta, TRI5[0]),
                            f.p1_gradient(theta)[..., :, None, :], self.fps, self._int)

    def exchange(self, theta, ext):
        bnd = np.array(self.fine.boundary_edges())
        tm = (theta[..., bnd[:, 0]] + theta[..., bnd[:, 1]]) / 2
        return self.fine.h * np.sum(HTC / 2 * (tm - ext) ** 2, axis=-1)
