"""
Process set-up: import omemo from /repo's working tree, with the C boundary made transparent for symbolic
values. The wrappers below call the real function unless an argument is symbolic, so concrete replays run the
unpatched functions. Only the sources of nondeterminism (random numbers, sleeping) are always routed to the
scenario if it asks for that.
"""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import asyncio  # noqa: E402
import base64  # noqa: E402
import builtins  # noqa: E402
import logging  # noqa: E402
import random  # noqa: E402
import secrets  # noqa: E402

import z3  # noqa: E402

from . import engine  # noqa: E402
from .engine import SymBytes, SymInt, B64_STD, B64_URL, sym_b64encode, sym_b64decode  # noqa: E402

logging.disable(logging.CRITICAL)

# -- base64 ---------------------------------------------------------------------------------------------

_b64 = {n: getattr(base64, n) for n in (
    "b64encode", "b64decode", "standard_b64encode", "standard_b64decode", "urlsafe_b64encode",
    "urlsafe_b64decode"
)}


def _as_bytes(s):
    return s.encode("ASCII") if type(s) is engine.SymText else s


def b64encode(s, altchars=None):
    if type(s) is SymBytes:
        return sym_b64encode(s, B64_URL if altchars == b"-_" else B64_STD)
    return _b64["b64encode"](s, altchars)


def b64decode(s, altchars=None, validate=False):
    s = _as_bytes(s)
    if type(s) is SymBytes:
        return sym_b64decode(s, B64_URL if altchars == b"-_" else B64_STD)
    return _b64["b64decode"](s, altchars, validate)


def standard_b64encode(s):
    return sym_b64encode(s, B64_STD) if type(s) is SymBytes else _b64["standard_b64encode"](s)


def standard_b64decode(s):
    s = _as_bytes(s)
    return sym_b64decode(s, B64_STD) if type(s) is SymBytes else _b64["standard_b64decode"](s)


def urlsafe_b64encode(s):
    return sym_b64encode(s, B64_URL) if type(s) is SymBytes else _b64["urlsafe_b64encode"](s)


def urlsafe_b64decode(s):
    s = _as_bytes(s)
    return sym_b64decode(s, B64_URL) if type(s) is SymBytes else _b64["urlsafe_b64decode"](s)


for _n in list(_b64):
    setattr(base64, _n, globals()[_n])

# -- randomness -------------------------------------------------------------------------------------------

_real_randbelow = secrets.randbelow
_real_token_bytes = secrets.token_bytes


def _randbelow(n):
    c = engine.CURRENT
    hook = getattr(c, "randbelow", None) if c is not None else None
    return hook(n) if hook is not None else _real_randbelow(n)


def _token_bytes(n=None):
    c = engine.CURRENT
    hook = getattr(c, "token_bytes", None) if c is not None else None
    return hook(n) if hook is not None else _real_token_bytes(n)


secrets.randbelow = _randbelow
secrets.token_bytes = _token_bytes

# the other ways to the same source


def _hooked(name):
    c = engine.CURRENT
    return c is not None and getattr(c, name, None) is not None


class _SystemRandom(random.SystemRandom):
    def choice(self, seq):
        return seq[_randbelow(len(seq))] if _hooked("randbelow") else super().choice(seq)

    def randrange(self, start, stop=None, step=1):
        if not _hooked("randbelow"):
            return super().randrange(start, stop, step)
        r = range(start) if stop is None else range(start, stop, step)
        return r.start + r.step * _randbelow(len(r))

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, k):
        return _randbelow(2 ** k) if _hooked("randbelow") else super().getrandbits(k)

    def randbytes(self, n):
        return _token_bytes(n) if _hooked("token_bytes") else super().randbytes(n)


def _choice(seq):
    if type(seq) in (range, Range) and _hooked("randbelow"):
        return seq.start + seq.step * _randbelow(len(seq))
    return _SYSTEM.choice(seq)


_real_urandom = os.urandom
_SYSTEM = _SystemRandom()
random.SystemRandom = secrets.SystemRandom = _SystemRandom
secrets.choice = _choice
secrets.randbits = _SYSTEM.getrandbits
random.randint, random.randrange, random.choice = _SYSTEM.randint, _SYSTEM.randrange, _choice
os.urandom = lambda n: _token_bytes(n) if _hooked("token_bytes") else _real_urandom(n)

# -- sleeping ---------------------------------------------------------------------------------------------

real_sleep = asyncio.sleep


async def _sleep(delay, result=None):
    c = engine.CURRENT
    hook = getattr(c, "sleep", None) if c is not None else None
    if hook is not None:
        await hook(delay)
        return result
    if type(delay) is SymInt:
        return result
    return await real_sleep(0, result)


asyncio.sleep = _sleep

# -- xeddsa -------------------------------------------------------------------------------------------------

import xeddsa  # noqa: E402
import xeddsa.bindings  # noqa: E402

_B = z3.BitVecSort(256)
UF = {name: z3.Function(name, _B, _B) for name in (
    "seed_to_priv", "seed_to_ed25519_pub", "priv_to_ed25519_pub", "ed25519_pub_to_curve25519_pub",
    "priv_to_curve25519_pub"
)}


def _wrap(name):
    real = getattr(xeddsa.bindings, name)

    def wrapper(arg, *rest):
        if type(arg) is SymBytes:
            term = UF[name](arg.term)
            out = SymBytes(term, 32)
            c = engine.CURRENT
            if c is not None and name == "seed_to_priv":
                # documented relation of the library: both representations have the same public key
                c.assume(UF["priv_to_ed25519_pub"](term) == UF["seed_to_ed25519_pub"](arg.term))
            return out
        return real(arg, *rest)
    wrapper.__name__ = name
    return wrapper


CURVE_TO_ED = z3.Function("curve25519_pub_to_ed25519_pub", _B, z3.BoolSort(), _B)


def ed25519_of_curve25519(curve, sign):
    """A valid Ed25519 public key with (about) this Curve25519 form. Used by scenarios, not by the code under test."""
    if type(curve) is SymBytes:
        term = CURVE_TO_ED(curve.term, sign)
        engine.cur().assume(z3.Extract(7, 7, curve.term) == 0)  # field elements are less than 2^255
        engine.cur().assume(UF["ed25519_pub_to_curve25519_pub"](term) == curve.term)
        return SymBytes(term, 32)
    # not every number is the coordinate of a point of the right order: look for one that differs in the middle only
    base = int.from_bytes(curve, "big")
    for k in range(4096):
        candidate = (base ^ (k << 120)).to_bytes(32, "big")
        try:
            ed = xeddsa.bindings.curve25519_pub_to_ed25519_pub(candidate, sign)
            if xeddsa.bindings.ed25519_pub_to_curve25519_pub(ed) == candidate:
                return ed
        except Exception:  # pylint: disable=broad-except
            pass
    raise engine.PathAbort("no valid point near this one")


for _n in UF:
    _w = _wrap(_n)
    setattr(xeddsa.bindings, _n, _w)
    if hasattr(xeddsa, _n):
        setattr(xeddsa, _n, _w)

# -- twisted: a virtual deferLater -----------------------------------------------------------------------------

from twisted.internet import defer, task  # noqa: E402

_real_defer_later = task.deferLater


def _defer_later(clock, delay, callable=None, *args, **kw):
    c = engine.CURRENT
    hook = getattr(c, "sleep", None) if c is not None else None
    if hook is not None:
        return defer.ensureDeferred(hook(delay))
    return _real_defer_later(clock, delay, callable, *args, **kw)


task.deferLater = _defer_later

import omemo  # noqa: E402



class Range:
    """range() for the code under test, whose `in` takes symbolic integers without comparing them one by one."""

    def __init__(self, *args):
        self.r = builtins.range(*args)

    def __contains__(self, x):
        r = self.r
        if type(x) is not SymInt or not len(r):
            return x in r
        lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
        step = abs(r.step)
        inside = z3.And(x.term >= lo, x.term <= hi)
        return engine.cur().decide(inside if step == 1 else z3.And(inside, (x.term - lo) % step == 0))

    def __getitem__(self, i):
        return self.r[i]

    def __getattr__(self, name):
        return getattr(self.r, name)

    def __eq__(self, o):
        return self.r == (o.r if type(o) is Range else o)

    def __hash__(self):
        return hash(self.r)

    def __len__(self):
        return len(self.r)

    def __iter__(self):
        return iter(self.r)

    def __reversed__(self):
        return reversed(self.r)

    def __repr__(self):
        return repr(self.r)


for _name, _mod in list(sys.modules.items()):
    if _name == "omemo" or _name.startswith("omemo."):
        _mod.__dict__.setdefault("range", Range)

assert os.path.realpath(omemo.__file__).startswith(os.path.realpath(REPO) + "/"), omemo.__file__
