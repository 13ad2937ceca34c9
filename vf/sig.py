"""Signatures as the generator understands them (independent of the library)."""
from dataclasses import dataclass, replace
from typing import Optional, Tuple


class Invalid(Exception):
    """The composition is not well-formed (never emitted)."""


@dataclass(frozen=True)
class S:
    t: str


@dataclass(frozen=True)
class F:
    dim: str
    static: bool            # the length is part of the signature
    n: Optional[int]        # nominal length (None: not set yet, or depends on other indices)
    sub: object
    needs: frozenset = frozenset()   # dimensions that must be indexed first
    unset: bool = False     # length still to be supplied
    guard: bool = False     # made by into_blocks_static: not to be blocked or merged further


@dataclass(frozen=True)
class D:
    dim: str
    subs: Tuple


def dims(sig):
    """all dimensions, in order of first appearance"""
    out = []

    def go(s):
        if isinstance(s, F):
            if s.dim not in out:
                out.append(s.dim)
            go(s.sub)
        elif isinstance(s, D):
            if s.dim not in out:
                out.append(s.dim)
            for x in s.subs:
                go(x)
    go(sig)
    return out


def occurrences(sig, dim):
    """list of (node, context) with context = tuple of (tuple dim, index)"""
    out = []

    def go(s, ctx):
        if isinstance(s, (F, D)) and s.dim == dim:
            out.append((s, ctx))
        if isinstance(s, F):
            go(s.sub, ctx)
        elif isinstance(s, D):
            for i, x in enumerate(s.subs):
                go(x, ctx + ((s.dim, i),))
    go(sig, ())
    return out


def contexts(sig, dim):
    out = []
    for _, c in occurrences(sig, dim):
        if c not in out:
            out.append(c)
    return out


def map_dim(sig, dim, fn):
    """replace each node of dimension dim by fn(node)"""
    if isinstance(sig, S):
        return sig
    if sig.dim == dim:
        return fn(sig)
    if isinstance(sig, F):
        return replace(sig, sub=map_dim(sig.sub, dim, fn))
    return replace(sig, subs=tuple(map_dim(x, dim, fn) for x in sig.subs))


def map_all(sig, fn):
    """rebuild bottom-up"""
    if isinstance(sig, S):
        return fn(sig)
    if isinstance(sig, F):
        return fn(replace(sig, sub=map_all(sig.sub, fn)))
    return fn(replace(sig, subs=tuple(map_all(x, fn) for x in sig.subs)))


def map_needs(sig, fn):
    return map_all(sig, lambda s: replace(s, needs=frozenset().union(*[fn(x) for x in s.needs])) if isinstance(s, F) and s.needs else s)


def check_needs(sig, above=frozenset()):
    if isinstance(sig, S):
        return
    if isinstance(sig, F):
        if not sig.needs <= above:
            raise Invalid
        check_needs(sig.sub, above | {sig.dim})
    else:
        for x in sig.subs:
            check_needs(x, above | {sig.dim})


def is_cube(sig):
    while isinstance(sig, F):
        sig = sig.sub
    return isinstance(sig, S)


def chain(sig):
    """dims of a cube, outermost first"""
    out = []
    while isinstance(sig, F):
        out.append(sig)
        sig = sig.sub
    return out, sig


def leaves(sig):
    """nominal number of elements (None if unknown)"""
    if isinstance(sig, S):
        return 1
    if isinstance(sig, F):
        n = sig.n if sig.n is not None else 1
        return n * leaves(sig.sub)
    return sum(leaves(x) for x in sig.subs)


def under_tuple(sig, dim):
    return any(c for _, c in occurrences(sig, dim))


def unset_dims(sig):
    return [d for d in dims(sig) if any(isinstance(o, F) and o.unset for o, _ in occurrences(sig, d))]


def scalars(sig):
    if isinstance(sig, S):
        return [sig.t]
    if isinstance(sig, F):
        return scalars(sig.sub)
    return [t for x in sig.subs for t in scalars(x)]


def reassemble(sig, order):
    """signature after reorder<order...> (complete reorders only)"""
    def find(s, d, fixed):
        # the node of d in s, walking through F and D fixed in `fixed`
        if isinstance(s, S):
            return None
        if s.dim == d:
            return s
        if isinstance(s, F):
            return find(s.sub, d, fixed)
        if s.dim in fixed:
            return find(s.subs[fixed[s.dim]], d, fixed)
        return None

    def leaf(s, fixed):
        if isinstance(s, S):
            return s
        if isinstance(s, F):
            if s.dim not in fixed:
                raise Invalid
            return leaf(s.sub, fixed)
        if s.dim not in fixed:
            raise Invalid
        return leaf(s.subs[fixed[s.dim]], fixed)

    def build(rest, fixed):
        if not rest:
            return leaf(sig, fixed)
        d = rest[0]
        node = find(sig, d, fixed)
        if node is None:
            raise Invalid
        if isinstance(node, F):
            return replace(node, sub=build(rest[1:], {**fixed, d: None}))
        return D(d, tuple(build(rest[1:], {**fixed, d: i}) for i in range(len(node.subs))))
    if len(set(order)) != len(order):
        raise Invalid
    return build(list(order), {})


ESC = {"'": "\\'", '\\': '\\\\', '\n': '\\n', '\x7f': '\\x7f', '\t': '\\t', '\r': '\\r', '\0': '\\0', '\x01': '\\x01', '\x80': '\\x80', '\xe9': '\\xe9', '\xff': '\\xff'}


def cdim(d):
    if d[0] == '#':
        # a tag: its value and, unless int, type
        v, _, ty = d[1:].partition(':')
        return "noarr::dim<%s>{}" % ("(%s)%sull" % (ty, v) if ty.startswith('unsigned long') else "(%s)%s" % (ty, v) if ty else v)
    return "'%s'" % ESC.get(d, d)


def cid(d):
    if d[0] != '#':
        return ord(d)
    return (1000 + int(d[1:].partition(':')[0]) + (1 << 31)) % (1 << 32) - (1 << 31)


def csig(s, static=False):
    if isinstance(s, S):
        return "vf::S<%s>" % s.t
    if isinstance(s, F):
        if static and s.static:
            return "vf::FS<%s, %d, %s>" % (cdim(s.dim), s.n, csig(s.sub, static))
        return "vf::F<%s, %s>" % (cdim(s.dim), csig(s.sub, static))
    return "vf::D<%s, %s>" % (cdim(s.dim), ", ".join(csig(x, static) for x in s.subs))


def cctx(ctxs):
    return "std::vector<vf::St>{%s}" % ", ".join(
        "vf::St{{%s}, {}}" % ", ".join("{%d, %d}" % (cid(d), i) for d, i in c) for c in ctxs)
