"""Fast repeated evaluation of pyomo expressions.

Expressions built by the code share most of their parts; pyo.value evaluates a shared part once per
occurrence.  Program lists every part once and applies pyomo's own operations to them."""

import pyomo.environ as pyo
from pyomo.core.expr.numvalue import native_types


class Program:
    def __init__(self, expr):
        self.expr = expr          # keeps all parts alive, so that ids stay unique
        index = {}
        self.consts = []          # (slot, value)
        self.leaves = []          # (slot, leaf)
        self.ops = []             # (slot, operation, argument slots)
        stack = [(expr, False)]
        keep = []
        while stack:
            node, ready = stack.pop()
            key = id(node)
            if not ready and key in index:
                continue
            if node.__class__ in native_types:
                keep.append(node)
                index[key] = len(index)
                self.consts.append((index[key], node))
            elif not node.is_expression_type():
                index[key] = len(index)
                self.leaves.append((index[key], node))
            elif ready:
                if key in index:
                    continue
                index[key] = len(index)
                self.ops.append((index[key], node._apply_operation, [index[id(a)] for a in self._args[key]]))
            else:
                args = list(node.args)
                if not hasattr(self, "_args"):
                    self._args = {}
                self._args[key] = args
                stack.append((node, True))
                stack.extend((a, False) for a in args)
        self._keep = keep
        self.size = len(index)
        self.root = index[id(expr)]

    def __call__(self):
        vals = [None] * self.size
        for i, c in self.consts:
            vals[i] = c
        for i, leaf in self.leaves:
            vals[i] = leaf.value if hasattr(leaf, "value") else pyo.value(leaf)
        for i, op, args in self.ops:
            vals[i] = op([vals[k] for k in args])
        return float(vals[self.root])


_programs = {}


def value(expr):
    """Like pyo.value(expr)."""
    if expr.__class__ in native_types:
        return float(expr)
    got = _programs.get(id(expr))
    if got is None or got.expr is not expr:
        if len(_programs) > 40:
            _programs.clear()
        got = _programs[id(expr)] = Program(expr)
    return got()
