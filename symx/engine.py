"""
Symbolic execution of the real Python code of /repo.

The code under test is *not* translated: CPython executes it as it stands in /repo. Inputs, stored state,
fault schedules, crash points, clocks and random numbers are values that wrap z3 terms. Whenever the code
(or a stub of its environment) needs to know the truth of a term, :meth:`Ctx.decide` asks the solver which
outcomes are feasible under the path condition and forks. A path ends with one solver query: path condition
and not(assertions). ``unsat`` means that the assertions hold for every value that takes that path; ``sat``
yields a model, which is replayed with plain Python values (:class:`Ctx` in concrete mode).

Paths are enumerated depth first by re-execution with a recorded list of decisions.
"""

import asyncio
import base64
import itertools
import linecache
import sys
import time
from typing import Any, Callable, Dict, List, Optional, Tuple

import z3


class PathAbort(BaseException):
    """The current path is infeasible or out of the stated bounds. Not an ``Exception`` on purpose."""


class Inconclusive(BaseException):
    """The solver answered unknown, or something the engine can't represent was requested."""


SYM_HASH = 0x5eed


def _vars_of(expr, cache: Dict[int, frozenset]) -> frozenset:
    key = expr.get_id()
    hit = cache.get(key)
    if hit is not None:
        return hit[1]
    if z3.is_const(expr):
        out = frozenset([expr.decl().name()]) if expr.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        out = frozenset()
        for child in expr.children():
            out |= _vars_of(child, cache)
    cache[key] = (expr, out)  # keep expr alive, so that the id stays valid
    return out


CURRENT: Optional["Ctx"] = None


def cur() -> "Ctx":
    assert CURRENT is not None, "no symbolic context"
    return CURRENT


class Stats:
    def __init__(self) -> None:
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forks = 0
        self.feasibility_queries = 0
        self.assertion_queries = 0
        self.assertions = 0
        self.solver_s = 0.0
        self.concretisations = 0
        self.sampled = 0
        self.unconfirmed = 0
        self.fallback_paths = 0
        self.validated = 0
        self.reach: Dict[str, int] = {}
        self.replay_reach: Dict[str, int] = {}
        self.outcomes: Dict[str, int] = {}
        self.max_decisions = 0

    def merge(self, other: "Stats") -> None:
        for k, v in other.__dict__.items():
            if k in ("reach", "replay_reach", "outcomes"):
                mine = getattr(self, k)
                for kk, vv in v.items():
                    mine[kk] = mine.get(kk, 0) + vv
            elif k == "max_decisions":
                self.max_decisions = max(self.max_decisions, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class SolverStack:
    """One incremental solver whose assertion stack follows the prefix shared by consecutive paths."""

    def __init__(self, timeout_ms: int = 60000) -> None:
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", 1)
        self.stack: List[Any] = []
        self.pos = 0

    def restart(self) -> None:
        self.pos = 0

    def add(self, expr) -> None:
        if self.pos < len(self.stack) and self.stack[self.pos].eq(expr):
            self.pos += 1
            return
        self._trim()
        self.solver.push()
        self.solver.add(expr)
        self.stack.append(expr)
        self.pos += 1

    def _trim(self) -> None:
        excess = len(self.stack) - self.pos
        if excess > 0:
            self.solver.pop(excess)
            del self.stack[self.pos:]

    def check(self, *exprs) -> Tuple[str, Optional[z3.ModelRef]]:
        self._trim()
        self.solver.push()
        try:
            for e in exprs:
                self.solver.add(e)
            r = self.solver.check()
            if r == z3.sat:
                return "sat", self.solver.model()
            if r == z3.unsat:
                return "unsat", None
            return "unknown", None
        finally:
            self.solver.pop()


class Violation:
    def __init__(self, prop: str, label: str, detail: str, values: Dict[str, Any]) -> None:
        self.prop = prop
        self.label = label
        self.detail = detail
        self.values = values


def py_value(v) -> Any:
    """Convert a z3 model value to something JSON-serialisable and back-convertible."""
    if z3.is_bool(v):
        return bool(z3.is_true(v))
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_string_value(v):
        return decode_z3_string(v)
    return str(v)


def decode_z3_string(v) -> str:
    s = v.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def encode_z3_string(s: str) -> str:
    return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)


class Ctx:
    """One execution (symbolic or concrete) of one scenario."""

    def __init__(
        self,
        prefix: Tuple[List[bool], Dict[int, Any], int],
        stack: Optional[SolverStack],
        stats: Stats,
        cache: Dict[int, frozenset],
        values: Optional[Dict[str, Any]] = None
    ) -> None:
        self.prefix, known, self.eager = prefix
        self.picked: Dict[int, Any] = dict(known)  # decision index -> value picked by concretise()
        self.ss = stack
        self.stats = stats
        self.cache = cache
        self.concrete = values is not None
        self.values = values if values is not None else {}
        self.decisions: List[bool] = []
        self.pending: List[Tuple[List[bool], Dict[int, Any], int]] = []
        self.mentioned: set = set()
        self.vars: Dict[str, Any] = {}
        self.checks: List[Tuple[str, str, Any, str]] = []
        self.tokens: Dict[str, List[Tuple[Any, str]]] = {"i": [], "s": [], "t": [], "y": []}
        self.reached: List[str] = []
        self.outcome = "none"
        self.events: List[Any] = []
        self.fork_budget = 20000
        self.concretised = 0
        self.wide: List[Tuple[Any, int]] = []  # wide values concretised on this path

    # -- variables ----------------------------------------------------------------------------------

    def _var(self, name: str, make: Callable[[], Any]) -> Any:
        if name not in self.vars:
            self.vars[name] = make()
        return self.vars[name]

    def flag(self, name: str):
        """A symbolic boolean, as a z3 term (in both modes)."""
        if self.concrete:
            return self._var(name, lambda: z3.BoolVal(bool(self.values.get(name, False))))
        return self._var(name, lambda: z3.Bool(name))

    def int_term(self, name: str, default: int = 0):
        if self.concrete:
            return self._var(name, lambda: z3.IntVal(int(self.values.get(name, default))))
        return self._var(name, lambda: z3.Int(name))

    def int(self, name: str, lo: Optional[int] = None, hi: Optional[int] = None):
        """A symbolic integer: SymInt (symbolic mode) or int (concrete mode)."""
        new = name not in self.vars
        term = self.int_term(name, default=lo if lo is not None else (hi if hi is not None else 0))
        if self.concrete:
            return term.as_long()
        if new:
            if lo is not None:
                self.assume(term >= lo)
            if hi is not None:
                self.assume(term <= hi)
        if self.eager > 1:
            return self.concretise(term)
        return SymInt(term)

    def str(self, name: str, max_len: int = 4):
        if self.concrete:
            return self._var(name, lambda: str(self.values.get(name, "")))
        new = name not in self.vars
        term = self._var(name, lambda: z3.String(name))
        if new:
            self.assume(z3.Length(term) <= max_len)
        if self.eager:
            return self.concretise(term, wide=True)
        return SymStr(term)

    def text(self, name: str, length: int = 3):
        """A string of fixed length over the printable ASCII characters except the slash."""
        if self.concrete:
            return self._var(name, lambda: int(self.values.get(name, 0)).to_bytes(length, "big").decode("latin-1"))
        new = name not in self.vars
        term = self._var(name, lambda: z3.BitVec(name, 8 * length))
        chars = [z3.Extract(8 * (length - i) - 1, 8 * (length - i) - 8, term) for i in range(length)]
        if new:
            self.assume(z3.And(*[z3.And(z3.UGE(c, 33), z3.ULE(c, 126), c != 47) for c in chars]))
        if self.eager:
            return self.concretise(term, wide=True).to_bytes(length, "big").decode("latin-1")
        return SymText(chars)

    def bytes(self, name: str, length: int = 32):
        if self.concrete:
            return self._var(name, lambda: int(self.values.get(name, 0)).to_bytes(length, "big"))
        if self.eager:
            return SymBytes(self._var(name, lambda: z3.BitVec(name, 8 * length)), length)._real()
        return SymBytes(self._var(name, lambda: z3.BitVec(name, 8 * length)), length)

    # -- path condition -------------------------------------------------------------------------------

    def assume(self, expr) -> None:
        expr = as_term(expr)
        if self.concrete:
            if z3.is_false(z3.simplify(expr)):
                raise PathAbort("assumption false in concrete replay")
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathAbort("assumption false")
        self.mentioned |= _vars_of(expr, self.cache)
        self.ss.add(expr)
        if len(self.decisions) >= len(self.prefix):
            # new territory: the assumption could make the path infeasible
            r, _ = self._solve(())
            if r == "unsat":
                raise PathAbort("assumption infeasible")
            if r == "unknown":
                raise Inconclusive("solver: unknown")

    def _solve(self, exprs):
        t0 = time.perf_counter()
        r = self.ss.check(*exprs)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.feasibility_queries += 1
        return r

    def decide(self, expr) -> bool:
        expr = z3.simplify(as_term(expr))
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.concrete:
            raise Inconclusive(f"undetermined term in concrete replay: {expr}")
        i = len(self.decisions)
        if i > self.fork_budget:
            raise Inconclusive("decision budget of one path exceeded (unbounded loop?)")
        self.stats.decisions += 1
        if i < len(self.prefix):
            taken = self.prefix[i]
        else:
            base = expr.arg(0) if z3.is_not(expr) else expr
            if z3.is_const(base) and base.decl().name() not in self.mentioned:
                can_t = can_f = True  # fresh boolean: both values extend any model of the path condition
            else:
                r, _ = self._solve((expr,))
                if r == "unknown":
                    raise Inconclusive("solver: unknown")
                can_t = r == "sat"
                if can_t:
                    r, _ = self._solve((z3.Not(expr),))
                    if r == "unknown":
                        raise Inconclusive("solver: unknown")
                    can_f = r == "sat"
                else:
                    can_f = True
            taken = can_t
            if can_t and can_f:
                self.stats.forks += 1
                self.pending.append((self.decisions + [False], {
                    k: v for k, v in self.picked.items() if k <= i
                }, self.eager))
        self.decisions.append(taken)
        lit = expr if taken else z3.Not(expr)
        self.mentioned |= _vars_of(expr, self.cache)
        self.ss.add(lit)
        return taken

    def choose(self, name: str, n: int) -> int:
        """A symbolic integer in [0, n), forked on immediately."""
        term = self.int_term(name)
        if not self.concrete and name not in self.mentioned:
            self.assume(z3.And(term >= 0, term < n))
        for k in range(n - 1):
            if self.decide(term == k):
                return k
        return n - 1

    # -- assertions -----------------------------------------------------------------------------------

    def check(self, prop: str, label: str, expr, detail: str = "") -> None:
        self.checks.append((prop, label, as_term(expr), detail))

    def fail(self, prop: str, label: str, detail: str = "") -> None:
        self.check(prop, label, False, detail)

    def reach(self, label: str) -> None:
        self.reached.append(label)

    # -- canonical text of symbolic values --------------------------------------------------------------

    def token(self, kind: str, value) -> str:
        """
        The code under test formats symbolic values into real strings (storage keys). On each path, equal
        values get equal tokens and distinct values get distinct tokens; which is which is decided by the
        solver.
        """
        for rep, tok in self.tokens[kind]:
            if rep is value or self.decide(eq(rep, value)):
                return tok
        tok = f"\x02{kind}{len(self.tokens[kind])}\x03"
        self.tokens[kind].append((value, tok))
        return tok

    def is_wide(self, term) -> bool:
        if z3.is_bv(term):
            return term.size() >= 64
        if not z3.is_int(term):
            return False
        r, _ = self._solve((z3.Or(term > 10 ** 4, term < -10 ** 4),))
        return r != "unsat"

    def concretise(self, term, limit: int = 64, wide: bool = False):
        """
        Used where C code insists on a real value: enumerate the feasible values one by one. Beyond the limit (64 for
        the first value of a path, 8 for the second, then 1) the remaining values are not explored, which the evidence
        reports as sampled.
        """
        term = z3.simplify(term)
        if z3.is_int_value(term) or z3.is_string_value(term) or z3.is_bv_value(term):
            return py_value(term)
        if wide or self.is_wide(term):
            # no point in enumerating: cover the ways in which the values can coincide, one representative each
            for v in [v for w, v in self.wide if w == term.sort()]:
                if self.decide(term == (z3.StringVal(encode_z3_string(v)) if isinstance(v, str) else v)):
                    return v
            limit = 1
        else:
            self.concretised += 1
        limit = min(limit, 64 if self.concretised == 1 else 8 if self.concretised == 2 else 1)
        for k in range(limit):
            i = len(self.decisions)
            if i in self.picked:
                v = self.picked[i]
            else:
                r, model = self._solve(())
                if r != "sat":
                    raise Inconclusive("concretisation failed")
                v = py_value(model.eval(term, model_completion=True))
                self.picked[i] = v
                self.stats.concretisations += 1
            is_v = term == (z3.StringVal(encode_z3_string(v)) if isinstance(v, str) else v)
            if k == limit - 1:
                # the last one: no fork
                if i >= len(self.prefix):
                    r, _ = self._solve((z3.Not(is_v),))
                    if r != "unsat":
                        self.stats.sampled += 1
                self.decisions.append(True)
                self.mentioned |= _vars_of(is_v, self.cache)
                self.ss.add(is_v)
                self.wide.append((term.sort(), v))
                return v
            if self.decide(is_v):
                return v
        raise AssertionError


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
TRUE_AST, FALSE_AST = TRUE.ast.value, FALSE.ast.value  # (terms are hash-consed)


def as_term(x):
    if isinstance(x, z3.ExprRef):
        return x
    t = type(x)
    if t is bool:
        return TRUE if x else FALSE
    if t is SymBool:
        return x.term
    raise TypeError(f"not a boolean term: {x!r}")


def And(*xs):
    out = []
    for x in xs:
        x = as_term(x)
        ast = x.ast.value
        if ast == FALSE_AST:
            return FALSE
        if ast != TRUE_AST:
            out.append(x)
    return z3.And(*out) if len(out) > 1 else out[0] if out else TRUE


def Or(*xs):
    out = []
    for x in xs:
        x = as_term(x)
        ast = x.ast.value
        if ast == TRUE_AST:
            return TRUE
        if ast != FALSE_AST:
            out.append(x)
    return z3.Or(*out) if len(out) > 1 else out[0] if out else FALSE


def Not(x):
    x = as_term(x)
    ast = x.ast.value
    return FALSE if ast == TRUE_AST else TRUE if ast == FALSE_AST else z3.Not(x)


def Implies(a, b):
    a, b = as_term(a), as_term(b)
    if a.ast.value == FALSE_AST or b.ast.value == TRUE_AST:
        return TRUE
    return b if a.ast.value == TRUE_AST else z3.Implies(a, b)


def Iff(a, b):
    return as_term(a) == as_term(b)


def num(x):
    """A number (SymInt, int or term) as a z3 integer term."""
    t = type(x)
    if t is SymInt:
        return x.term
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(x)


def eq(a, b):
    """Equality of two values (any mixture of symbolic and plain) as a z3 term, without forking."""
    ta, tb = type(a), type(b)
    if a is b:
        return TRUE
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return as_term(a) == as_term(b)
    if ta is SymBool or tb is SymBool:
        return as_term(a) == as_term(b)
    if ta is SymInt or tb is SymInt or isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
        if ta in NUMERIC and tb in NUMERIC or isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            return num(a) == num(b)
        return FALSE
    if ta is SymStr or tb is SymStr:
        if ta in (SymStr, str) and tb in (SymStr, str):
            return str_term(a) == str_term(b)
        return FALSE
    if ta is SymBytes or tb is SymBytes:
        if ta in (SymBytes, bytes) and tb in (SymBytes, bytes) and len(a) == len(b):
            if len(a) == 0:
                return TRUE
            return bytes_term(a) == bytes_term(b)
        return FALSE
    if ta is SymText or tb is SymText:
        if ta in (SymText, str) and tb in (SymText, str) and len(a) == len(b):
            return z3.And(*[x == y for x, y in zip(char_terms(a), char_terms(b))])
        return FALSE
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a, b)])
    return TRUE if a == b else FALSE


def str_term(x):
    return x.term if type(x) is SymStr else z3.StringVal(encode_z3_string(x))


def bytes_term(x):
    return x.term if type(x) is SymBytes else z3.BitVecVal(int.from_bytes(x, "big"), 8 * len(x))


def char_terms(x):
    return x.chars if type(x) is SymText else [z3.BitVecVal(ord(c), 8) for c in x]


class SymBool:
    __slots__ = ("term",)

    def __init__(self, term) -> None:
        object.__setattr__(self, "term", term)

    __class__ = property(lambda self: bool)  # type: ignore

    def __bool__(self) -> bool:
        return cur().decide(self.term)

    def __eq__(self, other):
        return SymBool(self.term == as_term(other)) if type(other) in (bool, SymBool) else False

    def __ne__(self, other):
        return SymBool(self.term != as_term(other)) if type(other) in (bool, SymBool) else True

    def __and__(self, other):
        return SymBool(z3.And(self.term, as_term(other)))

    def __or__(self, other):
        return SymBool(z3.Or(self.term, as_term(other)))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self


class SymInt:
    __slots__ = ("term",)

    def __init__(self, term) -> None:
        self.term = term

    __class__ = property(lambda self: int)  # type: ignore

    @staticmethod
    def _other(o):
        t = type(o)
        if t is SymInt:
            return o.term
        if t is int:
            return z3.IntVal(o)
        if t is bool:
            return z3.IntVal(int(o))
        return None

    def _cmp(self, o, f):
        x = SymInt._other(o)
        if x is None:
            return NotImplemented
        return SymBool(f(self.term, x))

    def __eq__(self, o):
        x = SymInt._other(o)
        return False if x is None else SymBool(self.term == x)

    def __ne__(self, o):
        x = SymInt._other(o)
        return True if x is None else SymBool(self.term != x)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, o, f):
        x = SymInt._other(o)
        if x is None:
            return NotImplemented
        return SymInt(z3.simplify(f(self.term, x)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return self._arith(o, lambda a, b: a / b)
        return NotImplemented

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return self._arith(o, lambda a, b: a % b)
        return NotImplemented

    def _bits(self, o, f):
        """Bit operations on values whose width is known (bytes) with such values or constants."""
        a = bits_of(self)
        b = bits_of(o)
        if a is None or b is None:
            return None
        width = max(a.size(), b.size())
        return SymInt(z3.simplify(z3.BV2Int(f(z3.ZeroExt(width - a.size(), a), z3.ZeroExt(width - b.size(), b)))))

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1) if o else 0
        r = self._bits(o, lambda a, b: a & b)
        return int.__and__(self.__index__(), o if type(o) is not SymInt else o.__index__()) if r is None else r

    def __or__(self, o):
        r = self._bits(o, lambda a, b: a | b)
        return int.__or__(self.__index__(), o if type(o) is not SymInt else o.__index__()) if r is None else r

    def __xor__(self, o):
        r = self._bits(o, lambda a, b: a ^ b)
        return int.__xor__(self.__index__(), o if type(o) is not SymInt else o.__index__()) if r is None else r

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rshift__(self, o):
        return self // 2 ** o if type(o) is int and o >= 0 else NotImplemented

    def __lshift__(self, o):
        return self * 2 ** o if type(o) is int and o >= 0 else NotImplemented

    def __neg__(self):
        return SymInt(-self.term)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __bool__(self):
        return cur().decide(self.term != 0)

    def __index__(self):
        return cur().concretise(self.term)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return SYM_HASH

    def __repr__(self):
        return f"<{self.term}>"

    def __str__(self):
        return cur().token("i", self)

    def __format__(self, spec):
        if spec:
            return format(self.__index__(), spec)
        return cur().token("i", self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


NUMERIC = (SymInt, int, bool)


def bits_of(x):
    """The value as a bit vector, if its width is known."""
    if type(x) in (int, bool):
        return z3.BitVecVal(int(x), max(int(x).bit_length(), 1)) if x >= 0 else None
    if type(x) is SymInt and z3.is_app_of(x.term, z3.Z3_OP_BV2INT):
        return x.term.arg(0)
    return None


class SymStr:
    """An arbitrary string of bounded length, represented in z3's string theory."""

    __slots__ = ("term",)

    def __init__(self, term) -> None:
        self.term = term

    __class__ = property(lambda self: str)  # type: ignore

    def __eq__(self, o):
        return SymBool(self.term == str_term(o)) if type(o) in (str, SymStr) else False

    def __ne__(self, o):
        return SymBool(self.term != str_term(o)) if type(o) in (str, SymStr) else True

    def __lt__(self, o):
        return SymBool(self.term < str_term(o))

    def __gt__(self, o):
        return SymBool(str_term(o) < self.term)

    def __le__(self, o):
        return SymBool(self.term <= str_term(o))

    def __ge__(self, o):
        return SymBool(str_term(o) <= self.term)

    def __add__(self, o):
        return SymStr(z3.Concat(self.term, str_term(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(str_term(o), self.term))

    def __bool__(self):
        return cur().decide(self.term != z3.StringVal(""))

    def __len__(self):
        return cur().concretise(z3.Length(self.term))

    def __contains__(self, o):
        return cur().decide(z3.Contains(self.term, str_term(o)))

    def startswith(self, o):
        return SymBool(z3.PrefixOf(str_term(o), self.term))

    def endswith(self, o):
        return SymBool(z3.SuffixOf(str_term(o), self.term))

    def __hash__(self):
        return SYM_HASH

    def __repr__(self):
        return f"<{self.term}>"

    def __str__(self):
        return cur().token("s", self)

    def __format__(self, spec):
        return cur().token("s", self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _real(self):
        return cur().concretise(self.term)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real(), name)

    def __iter__(self):
        return iter(self._real())

    def __getitem__(self, i):
        return self._real()[i]


B64_STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64_URL = B64_STD[:62] + "-_"


def _range_table(six, alphabet: str):
    """6 bit value -> character code, as a term over the alphabet's real content."""
    out = z3.BitVecVal(ord(alphabet[63]), 8)
    x = z3.ZeroExt(2, six)
    out = z3.If(six == 62, z3.BitVecVal(ord(alphabet[62]), 8), out)
    out = z3.If(z3.ULE(six, 61), x - 52 + ord("0"), out)
    out = z3.If(z3.ULE(six, 51), x - 26 + ord("a"), out)
    return z3.If(z3.ULE(six, 25), x + ord("A"), out)


def _inverse_table(c, alphabet: str):
    """character code -> 6 bit value (0 for characters outside the alphabet)."""
    def low(v):
        return z3.Extract(5, 0, v)
    out = z3.BitVecVal(0, 6)
    out = z3.If(c == ord(alphabet[63]), z3.BitVecVal(63, 6), out)
    out = z3.If(c == ord(alphabet[62]), z3.BitVecVal(62, 6), out)
    out = z3.If(z3.And(z3.UGE(c, ord("0")), z3.ULE(c, ord("9"))), low(c - ord("0") + 52), out)
    out = z3.If(z3.And(z3.UGE(c, ord("a")), z3.ULE(c, ord("z"))), low(c - ord("a") + 26), out)
    return z3.If(z3.And(z3.UGE(c, ord("A")), z3.ULE(c, ord("Z"))), low(c - ord("A")), out)


def called_as(what: str, frame) -> bool:
    """Whether the call that the frame is at is written like this in the source."""
    try:
        line, _, column, _ = next(itertools.islice(frame.f_code.co_positions(), frame.f_lasti // 2, None))
        text = linecache.getline(frame.f_code.co_filename, line).encode("utf-8")[column:]
    except (StopIteration, TypeError):
        return False
    return text.startswith(what.encode("ASCII"))


class SymBytes:
    """A byte string of fixed length and arbitrary content. ``origin`` remembers (source, alphabet) of base64."""

    __slots__ = ("term", "n", "origin")

    def __init__(self, term, n: int, origin=None) -> None:
        self.term = term
        self.n = n
        self.origin = origin

    __class__ = property(lambda self: bytes)  # type: ignore

    def __eq__(self, o):
        return SymBool(eq(self, o)) if type(o) in (bytes, SymBytes) else False

    def __ne__(self, o):
        return SymBool(z3.Not(eq(self, o))) if type(o) in (bytes, SymBytes) else True

    def __len__(self):
        return self.n

    def __bool__(self):
        return self.n > 0

    def __hash__(self):
        return SYM_HASH

    def __repr__(self):
        return f"<bytes {self.n}>"

    def __str__(self):
        return cur().token("y", self)

    def __format__(self, spec):
        return cur().token("y", self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _real(self):
        if self.origin is not None:
            return real_b64(self.origin)
        return cur().concretise(self.term).to_bytes(self.n, "big")

    def __bytes__(self):
        return self._real()

    def __buffer__(self, flags):
        if self.origin is not None and called_as("str(", sys._getframe(1)):
            # str(base64 text, "ascii"): the same placeholder as for the decoded text
            return memoryview(cur().token("t", self.decode()).encode("ASCII"))
        return memoryview(self._real())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real(), name)

    def byte(self, i: int):
        hi = 8 * (self.n - i) - 1
        return z3.Extract(hi, hi - 7, self.term)

    def __getitem__(self, i):
        if isinstance(i, slice):
            idx = list(range(self.n))[i]
            return bytes_from([self.byte(k) for k in idx])
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError("index out of range")
        return SymInt(z3.BV2Int(self.byte(i)))

    def __iter__(self):
        return iter([self[i] for i in range(self.n)])

    def __add__(self, o):
        return bytes_from(self.bytes_() + [z3.BitVecVal(b, 8) for b in o] if type(o) is bytes
                          else self.bytes_() + o.bytes_())

    def bytes_(self):
        return [self.byte(i) for i in range(self.n)]

    def hex(self):
        def digit(nib):
            x = z3.ZeroExt(4, nib)
            return z3.If(z3.ULE(nib, 9), x + ord("0"), x - 10 + ord("a"))
        chars = []
        for b in self.bytes_():
            chars.append(z3.simplify(digit(z3.Extract(7, 4, b))))
            chars.append(z3.simplify(digit(z3.Extract(3, 0, b))))
        return SymText(chars)

    def _mapped(self, old, new):
        chars, origin = map_chars(self.bytes_(), self.origin, old, new)
        return bytes_from(chars, origin)

    def replace(self, old, new, *count):
        if not count and type(old) is bytes and type(new) is bytes and len(old) == 1 and len(new) == 1:
            return self._mapped(old, new)
        return self._real().replace(old, new, *count)

    def translate(self, table, *rest, **kwargs):
        if not rest and not kwargs and type(table) is bytes and len(table) == 256:
            changed = [i for i in range(256) if table[i] != i]
            if len(changed) <= 8:
                return self._mapped(bytes(changed), bytes(table[i] for i in changed))
        return self._real().translate(table, *rest, **kwargs)

    def rstrip(self, what=None):
        chars = strip_right(self.bytes_(), b" \t\n\r\x0b\x0c" if what is None else what)
        return self if len(chars) == self.n else bytes_from(chars)

    def decode(self, *args, **kwargs):
        # Only ASCII content (base64 output) is ever decoded by the code under test.
        if self.origin is None:
            return self._real().decode(*args, **kwargs)
        return SymText(self.bytes_(), self.origin)


def map_chars(chars, origin, old: bytes, new: bytes):
    """Replace characters simultaneously; base64 text stays base64 text if its alphabet stays unambiguous."""
    out = []
    for c in chars:
        t = c
        for a, b in zip(old, new):
            t = z3.If(c == a, z3.BitVecVal(b, 8), t)
        out.append(z3.simplify(t))
    if origin is not None:
        alphabet = "".join(chr(new[old.index(ord(x))]) if ord(x) in old else x for x in origin[1])
        pad = chr(new[old.index(ord("="))]) if ord("=") in old else "="
        origin = (origin[0], alphabet) if len(set(alphabet)) == 64 and pad == "=" and "=" not in alphabet else None
    return out, origin


def replace_chars(chars, old: bytes, new: bytes):
    """Replace every occurrence, from the left and without overlaps, by something of the same length."""
    n = len(old)
    out = list(chars)
    starts = []
    for i in range(len(chars) - n + 1):
        starts.append(z3.simplify(z3.And(*[chars[i + k] == old[k] for k in range(n)], *[
            z3.Not(x) for x in starts[max(0, i - n + 1):]])))
    for i, start in enumerate(starts):
        for k in range(n):
            out[i + k] = z3.If(start, z3.BitVecVal(new[k], 8), out[i + k])
    return [z3.simplify(c) for c in out]


def strip_right(chars, what):
    """Without the trailing characters in what."""
    what = what.encode("latin-1") if isinstance(what, str) else what
    chars = list(chars)
    while chars:
        is_one = z3.simplify(z3.Or(*[chars[-1] == w for w in what], z3.BoolVal(False)))
        if z3.is_true(is_one) or not z3.is_false(is_one) and cur().decide(is_one):
            chars.pop()
        else:
            break
    return chars


def bytes_from(terms, origin=None):
    if not terms:
        return b""
    return SymBytes(z3.simplify(z3.Concat(*terms) if len(terms) > 1 else terms[0]), len(terms), origin)


class SymText:
    """A string of fixed length with symbolic 8 bit characters."""

    __slots__ = ("chars", "origin")

    def __init__(self, chars, origin=None) -> None:
        self.chars = chars
        self.origin = origin

    __class__ = property(lambda self: str)  # type: ignore

    def __eq__(self, o):
        return SymBool(eq(self, o)) if type(o) in (str, SymText) else False

    def __ne__(self, o):
        return SymBool(z3.Not(eq(self, o))) if type(o) in (str, SymText) else True

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __hash__(self):
        return SYM_HASH

    def __repr__(self):
        return f"<text {len(self.chars)}>"

    def __str__(self):
        return cur().token("t", self)

    def __format__(self, spec):
        return cur().token("t", self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            part = self.chars[i]
            return SymText(part) if part else ""
        return SymText([self.chars[i]])

    def __iter__(self):
        return iter([SymText([c]) for c in self.chars])

    def __add__(self, o):
        return SymText(self.chars + char_terms(o))

    def __radd__(self, o):
        return SymText(char_terms(o) + self.chars)

    def encode(self, *args, **kwargs):
        return bytes_from(self.chars, self.origin)

    def _real(self):
        if self.origin is not None:
            return real_b64(self.origin).decode("ASCII")
        term = z3.Concat(*self.chars) if len(self.chars) > 1 else self.chars[0]
        return cur().concretise(term).to_bytes(len(self.chars), "big").decode("latin-1")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real(), name)

    def _mapped(self, old, new):
        return SymText(*map_chars(self.chars, self.origin, old, new))

    def replace(self, old, new, *count):
        if not count and type(old) is str and type(new) is str and len(old) == 1 and len(new) == 1 \
                and max(old + new) < "\x80":
            return self._mapped(old.encode(), new.encode())
        if not count and type(old) is str and type(new) is str and len(old) == len(new) and old and \
                max(old + new) < "\x80":
            return SymText(replace_chars(self.chars, old.encode(), new.encode()))
        return self._real().replace(old, new, *count)

    def startswith(self, o, *range_):
        if type(o) is not str or range_:
            return self._real().startswith(o, *range_)
        return SymBool(eq(self[:len(o)], o)) if len(o) <= len(self.chars) else False

    def endswith(self, o, *range_):
        if type(o) is not str or range_:
            return self._real().endswith(o, *range_)
        return SymBool(eq(self[len(self.chars) - len(o):], o)) if len(o) <= len(self.chars) else False

    def __contains__(self, o):
        if type(o) is not str:
            return o in self._real()
        n = len(o)
        return cur().decide(z3.Or(z3.BoolVal(n == 0), *[
            z3.And(*[c == ord(x) for c, x in zip(self.chars[i:i + n], o)]) for i in range(len(self.chars) - n + 1)]))

    def translate(self, table):
        items = list(table.items()) if type(table) is dict else None
        if items is not None and len(items) <= 8 and all(type(a) is int and a < 128 and (
                type(b) is int and b < 128 or type(b) is str and len(b) == 1 and b < "\x80") for a, b in items):
            return self._mapped(bytes(a for a, _ in items), bytes(b if type(b) is int else ord(b) for _, b in items))
        return self._real().translate(table)

    def rstrip(self, what=None):
        chars = strip_right(self.chars, " \t\n\r\x0b\x0c" if what is None else what)
        if len(chars) == len(self.chars):
            return self
        return SymText(chars) if chars else ""

    def lower(self):
        return SymText([z3.simplify(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)) for c in self.chars])

    def upper(self):
        return SymText([z3.simplify(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c)) for c in self.chars])


REAL_B64ENCODE = base64.b64encode


def real_b64(origin) -> bytes:
    source, alphabet = origin
    return REAL_B64ENCODE(bytes(source), alphabet[62:].encode("ASCII"))


def text_eq_by_origin(a, b):
    """base64 with one alphabet is injective: compare the sources instead of the texts."""
    if type(a) is SymText and type(b) is SymText and a.origin and b.origin and a.origin[1] == b.origin[1]:
        return eq(a.origin[0], b.origin[0])
    return None


_plain_eq = eq


def eq(a, b):  # noqa: F811
    if type(a) is SymText and type(b) is SymText:
        by_origin = text_eq_by_origin(a, b)
        if by_origin is not None:
            return by_origin
    return _plain_eq(a, b)


def sym_b64encode(data: SymBytes, alphabet: str) -> SymBytes:
    bits = data.term
    n = data.n
    pad = (3 - n % 3) % 3
    if pad:
        bits = z3.Concat(bits, z3.BitVecVal(0, 8 * pad))
    total = 8 * (n + pad)
    chars = []
    for k in range(total // 6):
        hi = total - 1 - 6 * k
        chars.append(z3.simplify(_range_table(z3.Extract(hi, hi - 5, bits), alphabet)))
    for k in range(pad):
        chars[len(chars) - 1 - k] = z3.BitVecVal(ord("="), 8)
    return bytes_from(chars, (data, alphabet))


def sym_b64decode(data: SymBytes, alphabet: str):
    if data.origin is not None and (data.origin[1] == alphabet or (data.origin[1], alphabet) == (B64_STD, B64_URL)):
        # (the lenient decoder takes the standard characters next to the alternative ones)
        return data.origin[0]
    if data.origin is None or data.n % 4 != 0:
        # text that isn't the output of an encoder: decode a concrete representative (reported as concretised)
        return base64.b64decode(data._real(), alphabet[62:].encode("ASCII"))
    source_len = len(data.origin[0])
    sextets = [_inverse_table(data.byte(i), alphabet) for i in range(data.n)]
    if not sextets:
        return b""
    bits = z3.Concat(*sextets)
    total = 6 * len(sextets)
    keep = 8 * source_len
    return SymBytes(z3.simplify(z3.Extract(total - 1, total - keep, bits)), source_len)


# -- running coroutines ----------------------------------------------------------------------------------

_LOOP: Optional[asyncio.AbstractEventLoop] = None


def loop() -> asyncio.AbstractEventLoop:
    global _LOOP
    if _LOOP is None or _LOOP.is_closed():
        _LOOP = asyncio.new_event_loop()
        _LOOP.set_exception_handler(lambda *_: None)
    return _LOOP


def drive(coro) -> Any:
    """Run a coroutine to completion. Tasks it leaves in the background are cancelled, not run."""

    async def main():
        try:
            return await coro
        finally:
            me = asyncio.current_task()
            for t in asyncio.all_tasks():
                if t is not me:
                    t.cancel()
    return loop().run_until_complete(main())


# -- exploration ------------------------------------------------------------------------------------------

class Explorer:
    def __init__(self, scenario: Callable[[Ctx], Any], prop: str, validate_every: int = 0) -> None:
        self.scenario = scenario
        self.prop = prop
        self.stats = Stats()
        self.ss = SolverStack()
        self.cache: Dict[int, frozenset] = {}
        self.violations: List[Violation] = []
        self.unreproduced: List[Tuple[str, str, Dict[str, Any]]] = []
        self.inconclusive: List[str] = []
        self.validate_every = validate_every
        self.samples: List[Any] = []
        self.is_known: Callable[[str, str], Any] = lambda label, detail: None
        self.known_hits: List[Tuple[str, str]] = []
        self.wants_eager = 0  # set when the code does something that the engine's values can't express

    def violation(self, failed: List[Tuple[str, str, str]], values: Dict[str, Any]) -> None:
        for _, label, detail in failed:
            if self.is_known(label, detail) is None:
                self.violations.append(Violation(self.prop, label, detail, values))
                return
        for _, label, detail in failed:
            if (label, detail) not in self.known_hits:
                self.known_hits.append((label, detail))

    def run_once(self, ctx: Ctx) -> Optional[BaseException]:
        global CURRENT
        CURRENT = ctx
        err: Optional[BaseException] = None
        try:
            r = self.scenario(ctx)
            if asyncio.iscoroutine(r):
                drive(r)
        except PathAbort as e:
            err = e
        except Inconclusive as e:
            err = e
        except RecursionError as e:
            err = e
        except Exception as e:  # pylint: disable=broad-except
            err = e
        finally:
            CURRENT = None
        return err

    def model_values(self, ctx: Ctx, model) -> Dict[str, Any]:
        out = {}
        for d in model.decls():
            if d.arity() == 0:
                out[d.name()] = py_value(model[d])
        return out

    def replay(self, values: Dict[str, Any]) -> Tuple[List[Tuple[str, str, str]], str, Optional[BaseException]]:
        """Run the scenario concretely. Returns the failed checks of this property, the outcome and the error."""
        ctx = Ctx(([], {}, 0), None, Stats(), {}, values=values)
        err = self.run_once(ctx)
        for l in set(ctx.reached):
            self.stats.replay_reach[l] = self.stats.replay_reach.get(l, 0) + 1
        failed = []
        for prop, label, expr, detail in ctx.checks:
            if prop == self.prop and not z3.is_true(z3.simplify(expr)):
                failed.append((prop, label, detail))
        if err is not None and not isinstance(err, (PathAbort, Inconclusive)):
            failed.append((self.prop, "unexpected-exception", f"{type(err).__name__}: {err}"))
        return failed, ctx.outcome, err

    def explore(self, prefixes: List[Any], max_paths: int, deadline: float) -> List[Any]:
        work = list(prefixes)
        done = 0
        while work and done < max_paths and time.monotonic() < deadline:
            prefix = work.pop()
            self.one_path(prefix, work)
            done += 1
            if self.violations or self.wants_eager > prefix[2]:
                break
        return work

    def one_path(self, prefix: Any, work: List[Any]) -> None:
        stats = self.stats
        self.ss.restart()
        if len(self.cache) > 200000:
            self.cache.clear()
        ctx = Ctx(prefix, self.ss, stats, self.cache)
        err = self.run_once(ctx)
        work.extend(ctx.pending)
        stats.max_decisions = max(stats.max_decisions, len(ctx.decisions))
        if isinstance(err, PathAbort):
            stats.aborted += 1
            return
        if isinstance(err, Inconclusive):
            # no verdict on the path as a whole; a concrete representative may still show a violation
            r, model = self.ss.check()
            if r == "sat":
                values = self.model_values(ctx, model)
                failed, _, _ = self.replay(values)
                if failed:
                    self.violation(failed, values)
                    return
            self.give_up(ctx)
            if ctx.eager >= 2:
                self.inconclusive.append(f"{err}")
            return
        stats.paths += 1

        unexpected = err is not None
        mine = [c for c in ctx.checks if c[0] == self.prop]
        stats.assertions += len(mine)
        bad = None
        exprs = [e for _, _, e, _ in mine]
        if exprs:
            t0 = time.perf_counter()
            r, model = self.ss.check(z3.Not(z3.And(*exprs)))
            stats.solver_s += time.perf_counter() - t0
            stats.assertion_queries += 1
            if r == "unknown":
                self.inconclusive.append("assertion query: unknown")
                return
            if r == "sat":
                label = next(
                    (l for _, l, e, _ in mine if not z3.is_true(model.eval(e, model_completion=True))), "?"
                )
                bad = (label, model)
        if bad is not None:
            self.confirm(ctx, bad[0], bad[1], z3.Not(z3.And(*exprs)))
            return
        if unexpected:
            r, model = self.ss.check()
            if r != "sat":
                self.inconclusive.append(f"unexpected exception on a path without model: {err!r}")
                return
            values = self.model_values(ctx, model)
            failed, _, _ = self.replay(values)
            if failed:
                self.violation(failed, values)
            else:
                # A proxy limitation: the concrete execution of this path is fine. The path is only covered
                # by that concrete execution, which the evidence reports.
                self.give_up(ctx)
                stats.fallback_paths += 1
                stats.outcomes["fallback: " + type(err).__name__] = \
                    stats.outcomes.get("fallback: " + type(err).__name__, 0) + 1
                self.samples.append({"fallback": f"{type(err).__name__}: {err}"[:300], "values": values})
            return
        for l in set(ctx.reached):
            stats.reach[l] = stats.reach.get(l, 0) + 1
        stats.outcomes[ctx.outcome] = stats.outcomes.get(ctx.outcome, 0) + 1

        if self.validate_every and stats.paths % self.validate_every == 1 % self.validate_every:
            r, model = self.ss.check()
            if r == "sat":
                values = self.model_values(ctx, model)
                failed, outcome, err = self.replay(values)
                if failed:
                    self.violation(failed, values)
                elif isinstance(err, (PathAbort, Inconclusive)):
                    self.inconclusive.append(f"validation replay: {err!r}")
                else:
                    stats.validated += 1
                    if outcome != ctx.outcome:
                        key = f"divergent outcome: {ctx.outcome} vs {outcome}"
                        stats.outcomes[key] = stats.outcomes.get(key, 0) + 1
                    if len(self.samples) < 3:
                        self.samples.append({"path": len(ctx.decisions), "outcome": outcome, "values": values})

    def give_up(self, ctx: Ctx) -> None:
        """
        The engine's values can't express what the code does with them on this path. The scenario is explored again with
        representative plain values: first of texts and byte strings only, then of integers, too.
        """
        self.wants_eager = max(self.wants_eager, min(ctx.eager + 1, 2))

    def confirm(self, ctx: Ctx, label: str, model, negated) -> None:
        """Replay a counterexample; try further models of the same path if the first does not reproduce."""
        values = self.model_values(ctx, model)
        ints = [v for v in ctx.vars.values() if isinstance(v, z3.ArithRef) and z3.is_const(v)]
        block: List[Any] = []
        for attempt in range(24):
            failed, _, _ = self.replay(values)
            if failed:
                self.violation(failed, values)
                return
            # other relative orders of the integers (set iteration order), other string contents
            if len(ints) >= 2 and attempt < 6:
                a, b = ints[attempt % len(ints)], ints[(attempt + 1) % len(ints)]
                extra = [a < b] if attempt % 2 == 0 else [a > b]
            else:
                extra = []
            diff = []
            for d in model.decls():
                if d.arity() == 0:
                    diff.append(d() != model[d])
            if not extra and diff:
                block.append(z3.Or(*diff))
            r, m2 = self.ss.check(negated, *block, *extra)
            if r != "sat":
                if extra:
                    continue
                break
            model = m2
            values = self.model_values(ctx, model)
        self.give_up(ctx)
        self.unreproduced.append((label, "counterexample did not reproduce", values))
        self.stats.unconfirmed += 1
