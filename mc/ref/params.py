"""Reference model of parameter recalculation: a naive evaluator."""
import ast
import math
import operator
from copy import deepcopy

from . import unc


class Undefined(Exception):
    """Unknown name or circular definition."""


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.Pow: operator.pow, ast.Mod: operator.mod}
_CMP = {ast.Gt: operator.gt, ast.Lt: operator.lt, ast.GtE: operator.ge, ast.LtE: operator.le,
        ast.Eq: operator.eq, ast.NotEq: operator.ne}
_FUN = {'abs': abs, 'sqrt': math.sqrt, 'exp': math.exp, 'log10': math.log10, 'log': math.log,
        'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil,
        'min': min, 'max': max, 'round': round}
_CONST = {'pi': math.pi, 'e': math.e}


def names(formula):
    return {n.id for n in ast.walk(ast.parse(formula.strip(), mode='eval')) if isinstance(n, ast.Name)
            and n.id not in _FUN and n.id not in _CONST}


def evaluate(formula, env):
    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in _CONST:
                return _CONST[n.id]
            raise Undefined(n.id)
        if isinstance(n, ast.BinOp):
            return _BIN[type(n.op)](ev(n.left), ev(n.right))
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand)
            if isinstance(n.op, ast.Not):
                return not v
            return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, ast.Compare):
            left = ev(n.left)
            for op, right in zip(n.ops, n.comparators):
                r = ev(right)
                if not _CMP[type(op)](left, r):
                    return False
                left = r
            return True
        if isinstance(n, ast.BoolOp):
            vals = [ev(v) for v in n.values]
            return all(vals) if isinstance(n.op, ast.And) else any(vals)
        if isinstance(n, ast.IfExp):
            return ev(n.body) if ev(n.test) else ev(n.orelse)
        if isinstance(n, ast.Call):
            return _FUN[n.func.id](*[ev(a) for a in n.args])
        raise NotImplementedError(ast.dump(n))
    try:
        return ev(ast.parse(formula.strip(), mode='eval'))
    except ZeroDivisionError:
        return 0


def environment(ds):
    """Values of all named quantities; raises Undefined for unknown/circular references."""
    defs = {}
    for o in unc.objects(ds):
        if 'variable' in o:
            defs[o['variable']] = o
    env, busy = {}, set()

    def get(name):
        if name in env:
            return env[name]
        if name not in defs or name in busy:
            raise Undefined(name)
        o = defs[name]
        if o.get('formula'):
            busy.add(name)
            for n in names(o['formula']):
                get(n)
            busy.discard(name)
            env[name] = evaluate(o['formula'], env)
        else:
            env[name] = o['amount']
        return env[name]

    for name in defs:
        get(name)
    return env


def recalculated(ds):
    """Copy of ``ds`` with every formula evaluated and uncertainties repaired."""
    d = deepcopy(ds)
    env = environment(d)
    for o in unc.objects(d):
        if 'formula' in o:
            o['amount'] = evaluate(o['formula'], env)
        elif 'variable' in o:
            o['amount'] = env[o['variable']]
    unc.repair_inplace(d)
    return d
