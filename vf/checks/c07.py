from .common import *
from ..trav import *


AGAIN = ('shift', 'slice1', 'slice2', 'span1', 'span2', 'step', 'reverse')


def again(g, op):
    op = dict(op)
    for k in ('p', 'q'):
        if k in op and not op[k]['lit']:
            g.pid += 1
            op[k] = dict(op[k], id=g.pid)
    return op


def twice(g, spec):
    """gives an order (or all of them, or that of an inner traverser) a second time: the same type, in general other values"""
    ops = spec['order']['ops']
    inner = []

    def look(p):
        if p['k'] == 'order' and p['op']['op'] in AGAIN:
            inner.append(p)
        for q in p.get('in', []):
            look(q)
    for p in spec['plan']:
        look(p)
    cand = [k for k, op in enumerate(ops) if op['op'] in AGAIN]
    if ops and len(cand) == len(ops) and len(ops) > 1 and g.r.random() < 0.5:
        new = ops + [again(g, op) for op in ops]
        grouping = [len(ops)]
    elif cand and (not inner or g.r.random() < 0.7):
        k = g.r.choice(cand)
        new = ops[:k + 1] + [again(g, ops[k])] + ops[k + 1:]
        grouping = [1]
    elif inner:
        p = g.r.choice(inner)
        p['in'] = [{'k': 'order', 'op': again(g, p['op']), 'form': p['form'], 'in': p['in']}]
        return
    else:
        return
    spec['order'] = {'ops': new}
    spec['grouping'] = grouping


class C07(TravCheck):
    id = 'C07'
    programs = {'quick': 180, 'thorough': 1800}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is a generated structure, 1-5 transformations passed as traversal order (as one proto, in successive .order calls or by the operator, in random groupings, some of them given a second time), and a plan of traversals in which inner "
            "traversers get further orders. The calls must come in the order of the transformed structure and carry states in the dimensions of the original (lengths included where the order sets them), "
            "designating the model's element. Non-trivial: at least two calls and one order.")
    assumptions = ["orders respect the preconditions of the transformations (as in C02, C03, C04)"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6]))
        spec = gen_trav(g, norders=(1, 1, 2, 2, 3, 4, 5), depth=rng.choice([0, 1, 2, 3]), kinds=('sec', 'dims', 'each', 'eachd', 'order', 'order', 'order'),
                        tuples=0.25, unsized=0.25 if rng.random() < 0.3 else 0.0, views=(0, 0, 0, 1, 2), limit=120)
        if rng.random() < 0.35:
            twice(g, spec)
        return go_long(rng, i, spec)

    def after(self, e, spec, sig, mo, parts):
        from ..trav import plan_kinds
        if not spec['order']['ops'] and 'order' not in plan_kinds(spec['plan']):
            raise Invalid


CHECK = C07()
