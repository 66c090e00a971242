"""Symbolic execution of the real /repo code by re-execution.

A *harness* is a Python function ``h(ctx)``.  It builds symbolic inputs with
``ctx`` and calls the real backy code with them.  Whenever that code branches
on a symbolic value, the engine asks z3 which outcomes are feasible under the
path condition, follows one and queues the other; the harness is executed
again for every queued decision prefix until none is left.  ``ctx.check``
asks z3 whether the negation of the property is satisfiable together with the
path condition: ``unsat`` discharges the obligation for all values on this
path, ``sat`` gives a concrete counterexample.

The same harness runs with ``ConcreteCtx`` (plain values, unpatched code) to
replay a counterexample.
"""

import hashlib
import re
import time
import traceback

import z3

from . import proxies


class Control(BaseException):
    """Engine control flow; never caught by `except Exception` in backy."""

    last = None  # set if a path ended although someone swallowed the exception

    def __init__(self, *a):
        super().__init__(*a)
        Control.last = self


class PathDone(Control):
    """Path ends early (infeasible assumption, or harness cut)."""


class Limit(Control):
    """A proxy met an operation it can not represent symbolically."""


class Divergence(Control):
    pass


proxies.Limit = Limit

MAX_FORKS = 4000
_TOK = re.compile(r"(?<![^\s()])[\w.\"][^\s()]*")
_NOISE = re.compile(r"(let|not|ite|and|or|true|1|a!\d+|=>)$")


class Cex:
    def __init__(self, msg, values, where, kind="check"):
        self.msg = msg
        self.values = values
        self.where = where
        self.kind = kind
        self.alts = []  # values of further models

    def to_dict(self):
        return {
            "msg": self.msg,
            "values": self.values,
            "where": self.where,
            "kind": self.kind,
        }


def _text(s):
    """z3 string literal -> printable text, one-to-one"""
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda x: chr(int(x.group(1), 16)), s)
    return "".join(
        c if 32 <= ord(c) < 127 else chr(0x4E00 + ord(c) % 0x5000) for c in s
    )


def _val(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return [v.numerator_as_long(), v.denominator_as_long()]
    if z3.is_string_value(v):
        return _text(v.as_string())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return [a.numerator_as_long(), a.denominator_as_long()]
    raise AssertionError(f"no value for {e}: {v}")


class BaseCtx:
    """Input constructors shared by the symbolic and the concrete context."""

    symbolic = False

    def __init__(self):
        self.labels = {}
        self.notes = []

    def cover(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def choice(self, name, options):
        """One of the given concrete options (forks)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.pick(name, len(options))
        return options[i]

    def subset(self, name, universe):
        return {u for u in universe if self.flag(f"{name}.{u}")}

    def flag(self, name):
        """A symbolic boolean, decided right here."""
        return bool(self.bool(name))


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix, model=None, timeout_ms=20000, params=None):
        super().__init__()
        self.params = params or {}
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", 1)
        self.prefix = prefix  # list of (decision, fingerprint)
        self.pos = 0
        self.path = []
        self.model = model
        self.inputs = {}  # name -> (kind, z3 expr)
        self.alternatives = []  # (prefix, None)
        self.cexs = []
        self.unknown = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.fresh_n = 0
        self.truncated = 0
        self.concr = {}
        self.dead = False
        self.registry = []
        self.decimals = {}
        self.memo = {}
        self.pc_size = 0

    # -- solver -----------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        return r

    def known(self, c):
        """Does c hold for all values of this path?"""
        c = z3.simplify(c)
        return z3.is_true(c) or self._check(z3.Not(c)) == z3.unsat

    def _assert(self, c):
        self.solver.add(c)
        self.pc_size += 1

    def add(self, c):
        """Assert a constraint that is known to be consistent with the path
        (definitional constraints of fresh variables)."""
        self._assert(c)
        if self.model is not None and not z3.is_true(
            self.model.eval(c, model_completion=True)
        ):
            self.model = None

    def _need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.dead = True
                raise PathDone("infeasible")
            if r == z3.unknown:
                self.unknown += 1
                self.dead = True
                raise PathDone("unknown")
            self.model = self.solver.model()
        return self.model

    # -- inputs -----------------------------------------------------------
    def _input(self, name, kind, expr):
        assert name not in self.inputs, f"duplicate input {name}"
        self.inputs[name] = (kind, expr)

    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._input(name, "int", v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        mag = proxies.INT_MAG
        if lo is not None and hi is not None:
            mag = max(abs(lo), abs(hi))
        return proxies.SymInt(self, v, mag)

    def bool(self, name):
        v = z3.Bool(name)
        self._input(name, "bool", v)
        return proxies.SymBool(self, v)

    def pick(self, name, n):
        """Concrete int in range(n), forked."""
        v = z3.Int(name)
        self._input(name, "int", v)
        self.add(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.fork(v == i):
                return i
        return n - 1

    def dt(self, name, lo, hi):
        """Symbolic UTC datetime between two datetimes (microseconds)."""
        lo, hi = proxies.dt_us(lo), proxies.dt_us(hi)
        v = z3.Int(name)
        self._input(name, "dt", v)
        self.add(z3.And(v >= lo, v <= hi))
        return proxies.SymDT(self, v)

    def td(self, name, lo_us, hi_us):
        v = z3.Int(name)
        self._input(name, "td", v)
        self.add(z3.And(v >= lo_us, v <= hi_us))
        return proxies.SymTD(self, v)

    def real(self, name, lo, hi):
        v = z3.Real(name)
        self._input(name, "real", v)
        self.add(z3.And(v >= lo, v <= hi))
        return proxies.SymReal(self, v, max(abs(lo), abs(hi)))

    def str(self, name, maxlen=8, pre="", minlen=0):
        """Symbolic string: `pre` followed by up to maxlen characters"""
        v = z3.String(name)
        self._input(name, "str", v)
        self.add(z3.Length(v) <= maxlen)
        if minlen:
            self.add(z3.Length(v) >= minlen)
        return proxies.SymStr(
            self, z3.Concat(z3.StringVal(pre), v) if pre else v
        )

    def decimal(self, name, lo, hi):
        """A symbolic number and its decimal notation as a text: digits that
        `int` of the code turns into the number."""
        v = self.int(name, lo, hi)
        digits = str(76543200 + len(self.decimals))
        self.decimals[digits] = v
        return v, digits

    def lit(self, s):
        """A constant that is compared with symbolic strings."""
        return proxies.SymStr(self, z3.StringVal(s))

    def blob(self, name, length):
        """Symbolic byte string of (symbolic or concrete) length."""
        from . import symbytes

        return symbytes.leaf(self, name, length)

    # -- control ----------------------------------------------------------
    def fork(self, cond):
        if self.dead:
            raise PathDone("dead")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if len(self.path) > MAX_FORKS:
            self.truncated += 1
            raise PathDone("too many forks")
        # z3 orders commutative arguments by internal ids, which may also turn
        # relations around: compare the names and numbers only
        fp = hashlib.md5(
            " ".join(
                sorted(
                    t for t in set(_TOK.findall(cond.sexpr()))
                    if not _NOISE.match(t)
                )
            ).encode()
        ).hexdigest()[:8]
        if self.pos < len(self.prefix):
            d, want = self.prefix[self.pos]
            if want != fp:
                raise Divergence(
                    f"decision {self.pos}: {want} != {fp}: {cond.sexpr()[:300]}"
                )
            self.pos += 1
            self.path.append((d, fp))
            c = cond if d else z3.Not(cond)
            if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)
            ):
                self.model = None
            self._assert(c)
            return d
        m = self._need_model()
        d = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if d else cond
        r = self._check(other)
        if r == z3.sat:
            self.alternatives.append(self.path + [(not d, fp)])
        elif r == z3.unknown:
            self.unknown += 1
        if r != z3.unsat or True:
            self.path.append((d, fp))
            self._assert(cond if d else z3.Not(cond))
        return d

    def assume(self, cond):
        c = proxies.zbool(cond)
        if z3.is_true(c):
            return
        self._assert(c)
        if self.model is not None and not z3.is_true(
            self.model.eval(c, model_completion=True)
        ):
            self.model = None
        if self.pos >= len(self.prefix):
            self._need_model()

    def values(self, m):
        res = {}
        for name, (kind, e) in self.inputs.items():
            if kind == "blob":
                res[name] = e.concretize(m, lambda x: _val(m, x))
            else:
                res[name] = _val(m, e)
        return res

    def nicer(self, *assumptions):
        """Values of models which are further from the limits of floats: a
        model may depend on a rounding error that does not happen."""
        exact = [
            x[0] == x[1] for k, x in self.memo.items()
            if isinstance(k, tuple) and k[0] == "fl"
        ]
        ins = []
        for kind, e in self.inputs.values():
            if kind == "real":
                ins.append(z3.IsInt(e))
            elif kind in ("dt", "td"):
                ins.append(e % 1000000 == 0)
        if not exact and not any(
            k == "real" for k, _ in self.inputs.values()
        ):
            return []
        res = []
        for extra in (exact + ins, ins, exact):
            if extra and self._check(*assumptions, *extra) == z3.sat:
                res.append(self.values(self.solver.model()))
        return res

    def check(self, cond, msg):
        """Property assertion."""
        if self.pos < len(self.prefix):
            # already decided on the path this prefix was taken from
            c = proxies.zbool(cond)
            self._assert(c)
            if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)
            ):
                self.model = None
            return
        c = z3.simplify(proxies.zbool(cond))
        self.obligations += 1
        if z3.is_true(c):
            self._need_model()
            self.discharged += 1
            return
        m = self._need_model()
        bad = None
        if not z3.is_true(m.eval(c, model_completion=True)):
            bad = m
        else:
            r = self._check(z3.Not(c))
            if r == z3.sat:
                bad = self.solver.model()
            elif r == z3.unknown:
                self.unknown += 1
                return
        if bad is None:
            self.discharged += 1
            return
        self.cexs.append(Cex(msg, self.values(bad), _where()))
        self.cexs[-1].alts = self.nicer(z3.Not(c))
        # continue with the values for which it holds
        self._assert(c)
        if bad is m:
            self.model = None
        self._need_model()

    def concretize(self, expr, site="?", limit=40):
        """Fork over the feasible values of an integer expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # values are recorded in the fingerprints: find the one taken
                v = self.prefix[self.pos][1]
                assert isinstance(v, int), "concretisation diverged"
                d = self.prefix[self.pos][0]
                self.pos += 1
                self.path.append((d, v))
                c = expr == v
                c = c if d else z3.Not(c)
                if self.model is not None and not z3.is_true(
                    self.model.eval(c, model_completion=True)
                ):
                    self.model = None
                self._assert(c)
                if d:
                    return v
                n += 1
                continue
            m = self._need_model()
            v = m.eval(expr, model_completion=True).as_long()
            r = self._check(expr != v)
            if r == z3.sat:
                n += 1
                if n >= limit:
                    self.truncated += 1
                    self.notes.append(f"concretisation truncated at {site}")
                else:
                    self.alternatives.append(self.path + [(False, v)])
            elif r == z3.unknown:
                self.unknown += 1
            self.path.append((True, v))
            self._assert(expr == v)
            return v


def _where():
    for fr in reversed(traceback.extract_stack()):
        if "/checks/" in fr.filename:
            return f"{fr.filename.rsplit('/', 1)[1]}:{fr.lineno}"
    return "?"


class Failed(Control):
    pass


class ConcreteCtx(BaseCtx):
    """Runs the harness with given values; missing ones get a default."""

    symbolic = False

    def __init__(self, values, params=None):
        super().__init__()
        self.v = values
        self.params = params or {}
        self.failures = []
        self.used = {}

    def _get(self, name, default):
        r = self.v.get(name, default)
        self.used[name] = r
        return r

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        return self._get(name, d)

    def bool(self, name):
        return self._get(name, False)

    def pick(self, name, n):
        return self._get(name, 0)

    def dt(self, name, lo, hi):
        import datetime

        v = self.v.get(name)
        r = proxies.us_dt(v if v is not None else proxies.dt_us(lo))
        self.used[name] = r
        return r

    def td(self, name, lo_us, hi_us):
        import datetime

        return datetime.timedelta(microseconds=self._get(name, lo_us))

    def real(self, name, lo, hi):
        v = self._get(name, None)
        if v is None:
            return float(lo)
        return v[0] / v[1]

    def decimal(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return v, str(v)

    def str(self, name, maxlen=8, pre="", minlen=0):
        return pre + self._get(name, "a" * minlen)

    def lit(self, s):
        return s

    def blob(self, name, length):
        from . import symbytes

        return symbytes.concrete_leaf(self.v.get(name), name, length)

    def assume(self, cond):
        if not cond:
            raise PathDone("assumption")

    def check(self, cond, msg):
        if not cond:
            self.failures.append((msg, _where()))
