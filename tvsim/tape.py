"""Evaluate a Pyomo expression at many points at once, with gradients.

The expression is walked once, shared sub-expressions are kept shared, and nodes of the same kind
on the same level are evaluated together with numpy.  Mutable parameters are read again at every
evaluation, because that is what a solver interface would write into the problem file.
"""

import numpy as np
from pyomo.core.expr import numeric_expr as ne
from pyomo.core.expr import relational_expr as rel
from pyomo.core.expr.numvalue import native_numeric_types, value
from pyomo.core.base.expression import _GeneralExpressionData
try:
    from pyomo.core.base.expression import NamedExpressionData  # newer Pyomo
except ImportError:
    NamedExpressionData = _GeneralExpressionData


class Unsupported(Exception):
    pass


_UNARY = {
    "exp": (np.exp, lambda x, y: y),
    "log": (np.log, lambda x, y: 1.0 / x),
    "sqrt": (np.sqrt, lambda x, y: 0.5 / y),
    "sin": (np.sin, lambda x, y: np.cos(x)),
    "cos": (np.cos, lambda x, y: -np.sin(x)),
    "tan": (np.tan, lambda x, y: 1 + y * y),
    "log10": (np.log10, lambda x, y: 1 / (x * np.log(10.0))),
    "tanh": (np.tanh, lambda x, y: 1 - y * y),
    "asin": (np.arcsin, lambda x, y: 1 / np.sqrt(1 - x * x)),
    "acos": (np.arccos, lambda x, y: -1 / np.sqrt(1 - x * x)),
    "atan": (np.arctan, lambda x, y: 1 / (1 + x * x)),
    "sinh": (np.sinh, lambda x, y: np.cosh(x)),
    "cosh": (np.cosh, lambda x, y: np.sinh(x)),
    "abs": (np.abs, lambda x, y: np.sign(x)),
}

_BINARY = {"lt": np.less, "le": np.less_equal, "eq": np.equal, "min": np.minimum, "max": np.maximum}


class Tape:
    """Compiled expression.  `self.vars` are the Pyomo variables, in order of first appearance."""

    def __init__(self, expr):
        self.expr = expr  # strong reference: the cache is keyed on id(expr)
        ids = {}
        keep = []
        argcache = {}
        self.vars = []
        self.params = []
        var_slots, param_slots, const_slots, const_vals = [], [], [], []
        consts = {}
        levels = []
        nodes = []  # (op, args) per slot; None for leaves

        def new(level, op=None, args=None):
            levels.append(level)
            nodes.append((op, args))
            return len(levels) - 1

        def leaf_const(v):
            v = float(v)
            key = v if v == v else "nan"
            if key == 0.0:
                key = (0.0, str(v))
            s = consts.get(key)
            if s is None:
                s = new(0)
                consts[key] = s
                const_slots.append(s)
                const_vals.append(v)
            return s

        def slot_of(e):
            """Slot of an already visited operand, or None."""
            if e.__class__ in native_numeric_types:
                return leaf_const(e)
            return ids.get(id(e))

        stack = [expr]
        if expr.__class__ in native_numeric_types:
            self.root = leaf_const(expr)
            stack = []
        while stack:
            e = stack[-1]
            if e.__class__ in native_numeric_types or id(e) in ids:
                stack.pop()
                continue
            if not e.is_expression_type():
                if e.is_variable_type():
                    s = new(0)
                    self.vars.append(e)
                    var_slots.append(s)
                elif e.is_parameter_type() or e.is_constant() or hasattr(e, "value"):
                    s = new(0)
                    self.params.append(e)
                    param_slots.append(s)
                else:
                    raise Unsupported(type(e).__name__)
                ids[id(e)] = s
                keep.append(e)
                stack.pop()
                continue
            # some nodes create their operands on access: fetch them once and keep them alive
            args = argcache.get(id(e))
            if args is None:
                args = argcache[id(e)] = list(e.args)
            slots = []
            missing = False
            for a in args:
                s = slot_of(a)
                if s is None:
                    stack.append(a)
                    missing = True
                else:
                    slots.append(s)
            if missing:
                continue
            stack.pop()
            if isinstance(e, ne.SumExpression):
                op = "sum"
            elif isinstance(e, ne.ProductExpression):
                op = "mul"
            elif isinstance(e, ne.DivisionExpression):
                op = "div"
            elif isinstance(e, ne.PowExpression):
                op = "pow"
            elif isinstance(e, ne.NegationExpression):
                op = "neg"
            elif isinstance(e, ne.AbsExpression):
                op = "abs"
            elif isinstance(e, ne.UnaryFunctionExpression):
                op = e.getname()
                if op not in _UNARY:
                    raise Unsupported(op)
            elif isinstance(e, ne.Expr_ifExpression):
                op = "if"
            elif isinstance(e, (ne.MinExpression, ne.MaxExpression)) and len(args) == 2:
                op = "min" if isinstance(e, ne.MinExpression) else "max"
            elif isinstance(e, rel.InequalityExpression):
                op = "lt" if e._strict else "le"
            elif isinstance(e, rel.EqualityExpression):
                op = "eq"
            elif len(args) == 1 and hasattr(e, "is_named_expression_type") \
                    and e.is_named_expression_type():
                ids[id(e)] = slots[0]
                keep.append(e)
                continue
            else:
                raise Unsupported(type(e).__name__)
            lev = 1 + max((levels[s] for s in slots), default=0)
            ids[id(e)] = new(lev, op, slots)
            keep.append(e)
        if expr.__class__ not in native_numeric_types:
            self.root = ids[id(expr)]
        self._keep = (keep, argcache)
        self.size = len(levels)
        self.var_slots = np.array(var_slots, dtype=int)
        self.param_slots = np.array(param_slots, dtype=int)
        self.const_slots = np.array(const_slots, dtype=int)
        self.const_vals = np.array(const_vals, dtype=float)
        groups = {}
        for s, (op, args) in enumerate(nodes):
            if op is not None:
                groups.setdefault((levels[s], op), []).append((s, args))
        self.groups = []
        for (lev, op), items in sorted(groups.items(), key=lambda kv: kv[0]):
            out = np.array([s for s, _ in items], dtype=int)
            if op == "sum":
                flat = np.array([a for _, args in items for a in args], dtype=int)
                counts = np.array([len(args) for _, args in items])
                starts = np.concatenate([[0], np.cumsum(counts)[:-1]]).astype(int)
                self.groups.append((op, out, flat, starts, np.repeat(np.arange(len(items)), counts)))
            else:
                cols = list(zip(*[args for _, args in items]))
                self.groups.append((op, out, *[np.array(c, dtype=int) for c in cols]))

    def _forward(self, x):
        """x: (nvars, K) in the order of self.vars"""
        k = x.shape[1]
        val = np.empty((self.size, k))
        if len(self.const_slots):
            val[self.const_slots] = self.const_vals[:, None]
        if len(self.param_slots):
            val[self.param_slots] = np.array([float(value(p)) for p in self.params])[:, None]
        if len(self.var_slots):
            val[self.var_slots] = x
        with np.errstate(all="ignore"):
            for g in self.groups:
                op, out = g[0], g[1]
                if op == "sum":
                    val[out] = np.add.reduceat(val[g[2]], g[3], axis=0)
                elif op == "mul":
                    val[out] = val[g[2]] * val[g[3]]
                elif op == "div":
                    val[out] = val[g[2]] / val[g[3]]
                elif op == "pow":
                    val[out] = np.power(val[g[2]], val[g[3]])
                elif op == "neg":
                    val[out] = -val[g[2]]
                elif op == "if":
                    val[out] = np.where(val[g[2]] != 0, val[g[3]], val[g[4]])
                elif op in _BINARY:
                    val[out] = _BINARY[op](val[g[2]], val[g[3]])
                else:
                    val[out] = _UNARY[op][0](val[g[2]])
        return val

    def __call__(self, x):
        """Values at the columns of x (nvars, K)."""
        return self._forward(x)[self.root]

    def value_grad(self, x):
        """Value and gradient at one point x (nvars,)."""
        val = self._forward(x[:, None])[:, 0]
        adj = np.zeros(self.size)
        adj[self.root] = 1.0
        with np.errstate(all="ignore"):
            for g in reversed(self.groups):
                op, out = g[0], g[1]
                a = adj[out]
                if op == "sum":
                    np.add.at(adj, g[2], a[g[4]])
                elif op == "mul":
                    np.add.at(adj, g[2], a * val[g[3]])
                    np.add.at(adj, g[3], a * val[g[2]])
                elif op == "div":
                    np.add.at(adj, g[2], a / val[g[3]])
                    np.add.at(adj, g[3], -a * val[out] / val[g[3]])
                elif op == "pow":
                    b, e = val[g[2]], val[g[3]]
                    np.add.at(adj, g[2], np.where(e == 0, 0.0, a * e * np.power(b, e - 1)))
                    # exponents are constants in all the energies; variable exponents unsupported
                elif op == "neg":
                    np.add.at(adj, g[2], -a)
                elif op == "if":
                    yes = val[g[2]] != 0
                    np.add.at(adj, g[3][yes], a[yes])
                    np.add.at(adj, g[4][~yes], a[~yes])
                elif op in ("min", "max"):
                    first = val[g[2]] == val[out]
                    np.add.at(adj, g[2][first], a[first])
                    np.add.at(adj, g[3][~first], a[~first])
                elif op in _BINARY:
                    pass
                else:
                    np.add.at(adj, g[2], a * _UNARY[op][1](val[g[2]], val[out]))
        return val[self.root], adj[self.var_slots]


class FallbackTape:
    """Same interface through Pyomo's own evaluation (slow; no shared sub-expressions)."""

    size = 0

    def __init__(self, expr):
        from pyomo.core.expr.visitor import identify_variables
        self.expr = expr
        self.vars = list(identify_variables(expr, include_fixed=True)) \
            if expr.__class__ not in native_numeric_types else []

    def __call__(self, x):
        old = [v.value for v in self.vars]
        out = np.empty(x.shape[1])
        try:
            for k in range(x.shape[1]):
                for v, xv in zip(self.vars, x[:, k]):
                    v.set_value(float(xv), skip_validation=True)
                try:
                    out[k] = value(self.expr)
                except (ValueError, ZeroDivisionError, OverflowError):
                    out[k] = np.nan
        finally:
            for v, o in zip(self.vars, old):
                v.set_value(o, skip_validation=True)
        return out

    def value_grad(self, x):
        f = self(x[:, None])[0]
        g = np.empty(len(x))
        for i in range(len(x)):
            h = 1e-6 * max(1.0, abs(x[i]))
            p = x.copy(); p[i] += h
            m = x.copy(); m[i] -= h
            fp, fm = self(np.stack([p, m], axis=1))
            g[i] = (fp - fm) / (2 * h)
        return f, g


def compile_expr(expr):
    try:
        return Tape(expr)
    except Unsupported:
        return FallbackTape(expr)
