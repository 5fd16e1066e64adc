"""Registry of sub-checks and the small vocabulary they use."""
import hashlib
import json
import math


class Violation(Exception):
    """The property is broken by the current case."""


class Skip(Exception):
    """The generated case is outside the property's domain (counted, not evaluated)."""


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-7, atol=1e-9):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(a, b, msg='', *args, rtol=1e-7, atol=1e-9):
    if not close(a, b, rtol, atol):
        raise Violation('%s: %r != %r' % (msg % args if args else msg, a, b))


SUBS = {}


class Sub:
    def __init__(self, prop, name, fn, strategy, quick, thorough, shards, rule):
        self.prop, self.name, self.fn, self.strategy = prop, name, fn, strategy
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


def subcheck(prop, name, strategy, quick=400, thorough=8000, shards=4, rule=''):
    """Register ``fn(ctx, case)``; ``strategy`` builds JSON-able cases; quick/thorough: cases over all shards."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(Sub(prop, name, fn, strategy, quick, thorough, shards, rule))
        return fn
    return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, finding=False):
        self.finding = finding      # True while a listed known finding is being re-run: lifts exclusions
        self.is_nontrivial = False
        self.labels = {}

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + int(n)
