"""Operations: effect on the generator's signature, C++ text, model text, random proposal.

An op is a dict {'op': name, ...}; parameters are dicts {'id': int, 'lit': bool, 'n': nominal}.
"""
from dataclasses import replace
from .sig import *

ALIGN = {'char': 1, 'signed char': 1, 'vf::Odd3': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'float': 4, 'unsigned': 4,
         'vf::Tri12': 4, 'double': 8, 'long long': 8, 'std::size_t': 8, 'vf::Big24': 8}
CLASSES = [['char', 'signed char', 'vf::Odd3'], ['short', 'unsigned short'], ['int', 'float', 'unsigned', 'vf::Tri12'], ['double', 'long long', 'std::size_t', 'vf::Big24']]
ARITH_CLASSES = [['char'], ['short', 'unsigned short'], ['int', 'float', 'unsigned'], ['double', 'long long', 'std::size_t']]


def fresh(d, sig, also=()):
    if d in dims(sig) and d not in also:
        raise Invalid


def fnodes(sig, d, known=True):
    """all occurrences of d, which must be non-tuple with a nominal length"""
    occ = occurrences(sig, d)
    if not occ:
        raise Invalid
    for o, _ in occ:
        if not isinstance(o, F):
            raise Invalid
        if known and (o.n is None or o.unset):
            raise Invalid
    return [o for o, _ in occ]


def all_branches(sig, d):
    """every branch of every tuple above contains d (or none needed)"""
    if isinstance(sig, S):
        return False
    if sig.dim == d:
        return True
    if isinstance(sig, F):
        return all_branches(sig.sub, d)
    return all(all_branches(x, d) for x in sig.subs)


def lits(*ps):
    return all(p['lit'] for p in ps)


def narrow(sig, d, lit, newlen):
    """shift/slice/span/step on d; newlen(n) -> new nominal length or raises, tuple: list of kept indices"""
    occ = occurrences(sig, d)
    if not occ:
        raise Invalid

    def fn(node):
        if isinstance(node, D):
            if not lit:
                raise Invalid
            keep = newlen(len(node.subs), True)
            if not keep:
                raise Invalid
            return D(d, tuple(node.subs[i] for i in keep))
        return newlen(node, False)
    return map_dim(sig, d, fn)


def apply(sig, op):
    """signature after op; raises Invalid"""
    r = _apply(sig, op)
    check_needs(r)
    return r


def _apply(sig, op):
    k = op['op']
    d = op.get('d')
    if k in ('vector', 'bcast'):
        fresh(d, sig)
        return F(d, op['p']['lit'], op['p']['n'], sig)
    if k in ('uvector', 'ubcast'):
        fresh(d, sig)
        return F(d, False, None, sig, unset=True)
    if k == 'setlen':
        ns = fnodes(sig, d, False)
        if not all(o.unset for o in ns):
            raise Invalid
        return map_dim(sig, d, lambda o: replace(o, unset=False, static=op['p']['lit'], n=op['p']['n']))
    if k == 'fix':
        i = op['p']['n']
        occ = occurrences(sig, d)
        if not occ:
            raise Invalid

        def fn(o):
            if isinstance(o, D):
                if not op['p']['lit'] or i >= len(o.subs):
                    raise Invalid
                return o.subs[i]
            if o.n is None or o.unset or i >= o.n:
                raise Invalid
            return o.sub
        return map_needs(map_dim(sig, d, fn), lambda x: set() if x == d else {x})
    if k == 'shift':
        st = op['p']['n']

        def nl(o, tup):
            if tup:
                return list(range(st, o))
            if o.unset:
                return replace(o, static=False)
            if o.n is None or st > o.n:
                raise Invalid
            return replace(o, n=o.n - st, static=o.static and op['p']['lit'])
        return narrow(sig, d, op['p']['lit'], nl)
    if k in ('slice2', 'slice1', 'span2', 'span1'):
        st = op['p']['n'] if k[-1] == '2' else 0
        q = op['q']['n']
        ln = q if k[:5] == 'slice' else q - st
        if ln < 0:
            raise Invalid
        lit = op['q']['lit'] and (k[-1] == '1' or op['p']['lit'])
        stat = op['q']['lit'] if k[:5] == 'slice' else lit

        def nl(o, tup):
            if tup:
                if st + ln > o:
                    raise Invalid
                return list(range(st, st + ln))
            if o.unset or o.n is None or st + ln > o.n:
                raise Invalid
            return replace(o, n=ln, static=stat)
        return narrow(sig, d, lit, nl)
    if k in ('step', 'autostep'):
        if k == 'autostep':
            if not isinstance(sig, F):
                raise Invalid
            d = sig.dim
        st, sd = op['p']['n'], op['q']['n']
        if not st < sd:
            raise Invalid
        lit = lits(op['p'], op['q'])

        def nl(o, tup):
            if tup:
                return list(range(st, o, sd))
            if o.unset or o.n is None:
                raise Invalid
            return replace(o, n=len(range(st, o.n, sd)), static=lit and o.static)
        return narrow(sig, d, lit, nl)
    if k == 'reverse':
        occ = occurrences(sig, d)
        if not occ:
            raise Invalid

        def fn(o):
            if isinstance(o, D):
                return D(d, tuple(reversed(o.subs)))
            if o.n is None and not o.unset:
                raise Invalid
            return o
        return map_dim(sig, d, fn)
    if k == 'rename':
        m = dict(op['pairs'])
        ds = dims(sig)
        new = [m.get(x, x) for x in ds]
        if len(set(new)) != len(new) or len(m) != len(op['pairs']) or not set(m) <= set(ds):
            raise Invalid
        r = map_all(sig, lambda s: s if isinstance(s, S) else replace(s, dim=m.get(s.dim, s.dim)))
        return map_needs(r, lambda x: {m.get(x, x)})
    if k == 'reorder':
        if set(op['order']) != set(dims(sig)):
            raise Invalid
        return reassemble(sig, op['order'])
    if k == 'hoist':
        for h in reversed(op['ds']):
            if under_tuple(sig, h):
                raise Invalid
            (o,) = fnodes(sig, h, False)
            if o.needs:
                raise Invalid
            sig = replace(o, sub=map_dim(sig, h, lambda x: x.sub))
            check_needs(sig)
        return sig
    if k == 'join':
        a, b, d = op['a'], op['b'], op['d']
        if a == b or under_tuple(sig, a) or under_tuple(sig, b):
            raise Invalid
        (na,), (nb,) = fnodes(sig, a, False), fnodes(sig, b, False)
        if (na.unset, na.static, na.n) != (nb.unset, nb.static, nb.n) or na.needs or nb.needs or (na.n is None and not na.unset):
            raise Invalid
        fresh(d, sig, (a, b))
        r = map_dim(map_dim(sig, a, lambda x: x.sub), b, lambda x: x.sub)
        r = map_needs(r, lambda x: {d} if x in (a, b) else {x})
        return F(d, na.static, na.n, r, unset=na.unset)
    if k in ('blocks', 'blocks_dyn'):
        M, m = op['M'], op['m']
        new = [M, m] + ([op['pr']] if k == 'blocks_dyn' else [])
        if len(set(new)) != len(new):
            raise Invalid
        for x in new:
            fresh(x, sig, (d,))
        ns = fnodes(sig, d, False)
        if any(o.guard for o in ns) or (k == 'blocks_dyn' and not all_branches(sig, d)):
            raise Invalid
        mode = op['mode']
        for o in ns:
            if mode == 'both':
                if not o.unset or k != 'blocks':
                    raise Invalid
            elif o.unset or o.n is None:
                raise Invalid

        def fn(o):
            v = op['p']['n']
            if v < 1:
                raise Invalid
            if mode == 'both':
                l2 = op['q']['n']
                f = F(m, op['q']['lit'], l2, o.sub)
                return F(M, op['p']['lit'], v, f, needs=o.needs)
            if k == 'blocks' and o.n % v:
                raise Invalid
            other = -(-o.n // v)
            inner = o.sub
            if k == 'blocks_dyn':
                inner = F(op['pr'], False, None, inner, needs=frozenset((M, m)))
            if mode == 'minor':
                return F(M, False, other, F(m, op['p']['lit'], v, inner), needs=o.needs)
            return F(M, op['p']['lit'], v, F(m, False, other, inner), needs=o.needs)
        return map_dim(map_needs(sig, lambda x: {M, m} if x == d else {x}), d, fn)
    if k == 'blocks_static':
        B, M, m = op['B'], op['M'], op['m']
        if len({B, M, m}) != 3:
            raise Invalid
        for x in (B, M, m):
            fresh(x, sig, (d,))
        if any(o.guard for o in fnodes(sig, d)):
            raise Invalid
        v = op['p']['n']
        if v < 1:
            raise Invalid
        L = op['p']['lit']

        def fn(o):
            st = o.static and L
            body = F(M, st, o.n // v, F(m, L, v, o.sub, guard=True), needs=o.needs, guard=True)
            border = F(M, True, 1, F(m, st, o.n % v, o.sub, guard=True), needs=o.needs, guard=True)
            return D(B, (body, border))
        return map_dim(map_needs(sig, lambda x: {B, M, m} if x == d else {x}), d, fn)
    if k == 'merge':
        M, m, d = op['M'], op['m'], op['d']
        if M == m:
            raise Invalid
        fresh(d, sig, (M, m))
        return _merge(sig, [M, m], d)
    if k == 'zcurve':
        if len(set(op['ds'])) != len(op['ds']):
            raise Invalid
        fresh(op['d'], sig, op['ds'])
        for x in op['ds']:
            for o in fnodes(sig, x):
                if o.n > op['max'] or (o.n % op['al'] and not zc_cube(sig, op)):
                    raise Invalid
        return _merge(sig, op['ds'], op['d'])
    raise KeyError(k)


def zc_cube(sig, op):
    ns = {o.n for x in op['ds'] for o in fnodes(sig, x)}
    return op['al'] == op['max'] and len(ns) == 1 and (lambda n: n > 0 and n & (n - 1) == 0)(min(ns))


def _merge(sig, ds, d):
    """remove all of ds but the innermost, which becomes d with the product length"""
    for x in ds:
        if any(o.guard for o in fnodes(sig, x)):
            raise Invalid

    def go(s, left, n, stat):
        if isinstance(s, S):
            if left and len(left) < len(ds):
                raise Invalid
            return s
        if s.dim in left:
            if s.needs:
                raise Invalid
            rest = left - {s.dim}
            n2, st2 = n * s.n, stat and s.static
            if not rest:
                return F(d, st2, n2, s.sub)
            return go(s.sub, rest, n2, st2)
        if isinstance(s, F):
            return replace(s, sub=go(s.sub, left, n, stat))
        return replace(s, subs=tuple(go(x, left, n, stat) for x in s.subs))
    r = go(map_needs(sig, lambda x: {d} if x in ds else {x}), frozenset(ds), 1, True)
    return r


# ---------------------------------------------------------------------------------------------- emission

class Emit:
    """straight-line C++ building the library structure and its model"""

    def __init__(self, maxlen=6, big=False, prefix=''):
        self.lines = []
        self.maxlen = maxlen
        self.big = big
        self.params = {}
        self.n = 0
        self.prefix = prefix
        self.force = None    # None | 'lit' | 'dyn' : how to spell parameters in struct expressions

    def new(self, p):
        self.n += 1
        return "%s%s%d" % (self.prefix, p, self.n)

    def out(self, s):
        self.lines.append("\t" + s)

    def val(self, p):
        """model-side value"""
        if p['lit']:
            return "%dull" % p['n']
        return self.params[p['id']]

    def arg(self, p):
        """library-side argument"""
        if p['lit']:
            return "noarr::lit<%d>" % p['n']
        v = self.params[p['id']]
        if p.get('t') and not self.big:
            return "(%s)%s" % (p['t'], v)
        return "(std::size_t)%s" % v

    def draw(self, p, expr):
        if p['lit'] or p['id'] in self.params:
            return
        v = self.new('p')
        self.params[p['id']] = v
        self.out("const vf::u64 %s = %s; c.note(\"%s\", %s);" % (v, expr, v, v))

    def drawlen(self, p):
        if p.get('pow2') is not None:
            self.draw(p, "1ull << c.draw(%d)" % (p['pow2'] + 1))
            return
        if p.get('mul'):
            self.draw(p, "%d * c.len(%d, %d)" % (p['mul'], p['n'] // p['mul'], p['max']))
            return
        self.draw(p, "c.%s(%d, %s)" % ('biglen' if self.big else 'len', p['n'], '1ull << 22' if self.big else str(self.maxlen)))


def emit_op(e, sig, op, m):
    """emits parameter draws; returns (library proto text, model text)"""
    k = op['op']
    d = op.get('d')
    C, I = cdim, cid

    def ctx(x):
        return cctx(contexts(sig, x))

    def lmin(x):
        return "vf::mlen_min(%s, %d, %s)" % (m, I(x), ctx(x))

    def lall(x, cond):
        return "vf::mlen_all(%s, %d, %s, [&](vf::u64 l) { return %s; })" % (m, I(x), ctx(x), cond)

    def nontup(x):
        return all(isinstance(o, F) for o, _ in occurrences(sig, x))
    if k in ('vector', 'bcast'):
        p = op['p']
        e.drawlen(p)
        M = {'vector': 'vec', 'bcast': 'bcast'}[k]
        form = op.get('form', 0)
        if form == 1:
            t = "noarr::%s<%s>() ^ noarr::set_length<%s>(%s)" % (k, C(d), C(d), e.arg(p))
        elif form == 2 and p['lit'] and k == 'vector':
            t = "noarr::array<%s, %d>()" % (C(d), p['n'])
        else:
            t = "noarr::%s<%s>(%s)" % (k, C(d), e.arg(p))
        return t, "vf::setlen(%d, %s, vf::%s(%d, %s))" % (I(d), e.val(p), M, I(d), m)
    if k in ('uvector', 'ubcast'):
        n = k[1:]
        return "noarr::%s<%s>()" % (n, C(d)), "vf::%s(%d, %s)" % ({'vector': 'vec', 'bcast': 'bcast'}[n], I(d), m)
    if k == 'setlen':
        e.drawlen(op['p'])
        return "noarr::set_length<%s>(%s)" % (C(d), e.arg(op['p'])), "vf::setlen(%d, %s, %s)" % (I(d), e.val(op['p']), m)
    if k == 'fix':
        p = op['p']
        if nontup(d):
            e.out("c.require(%s);" % lall(d, "l > 0"))
            e.draw(p, "c.range(0, %s - 1)" % lmin(d))
            e.out("c.require(%s);" % lall(d, "%s < l" % e.val(p)))
        return "noarr::fix<%s>(%s)" % (C(d), e.arg(p)), "vf::fix(%d, %s, %s)" % (I(d), e.val(p), m)
    if k == 'shift':
        p = op['p']
        if nontup(d):
            if fnodes(sig, d, False)[0].unset:
                e.draw(p, "c.range(0, 3)")
            else:
                e.draw(p, "c.range(0, %s)" % lmin(d))
                e.out("c.require(%s);" % lall(d, "%s <= l" % e.val(p)))
        return "noarr::shift<%s>(%s)" % (C(d), e.arg(p)), "vf::shift(%d, %s, %s)" % (I(d), e.val(p), m)
    if k in ('slice2', 'slice1', 'span2', 'span1'):
        two, slc = k[-1] == '2', k[:5] == 'slice'
        q = op['q']
        st = '0ull'
        if two:
            p = op['p']
            if nontup(d):
                e.draw(p, "c.range(0, %s)" % lmin(d))
                e.out("c.require(%s);" % lall(d, "%s <= l" % e.val(p)))
            st = e.val(p)
        if nontup(d):
            if slc:
                e.draw(q, "c.some(0, %s - %s)" % (lmin(d), st))
                e.out("c.require(%s);" % lall(d, "%s + %s <= l" % (st, e.val(q))))
            else:
                e.draw(q, "c.some(%s, %s)" % (st, lmin(d)))
                e.out("c.require(%s && %s <= %s);" % (lall(d, "%s <= l" % e.val(q)), st, e.val(q)))
        args = ([e.arg(op['p'])] if two else []) + [e.arg(q)]
        nm = 'slice' if slc else 'span'
        return "noarr::%s<%s>(%s)" % (nm, C(d), ", ".join(args)), "vf::%s(%d, %s, %s, %s)" % (nm, I(d), st, e.val(q), m)
    if k in ('step', 'autostep'):
        dd = sig.dim if k == 'autostep' else d
        p, q = op['p'], op['q']
        if nontup(dd):
            e.draw(q, "c.range(1, %s)" % ("c.pick({4, %s + 2})" % lmin(dd)))
            e.draw(p, "c.range(0, %s - 1)" % e.val(q))
            e.out("c.require(%s < %s);" % (e.val(p), e.val(q)))
        t = "noarr::step(%s, %s)" % (e.arg(p), e.arg(q)) if k == 'autostep' else "noarr::step<%s>(%s, %s)" % (C(dd), e.arg(p), e.arg(q))
        return t, "vf::step(%d, %s, %s, %s)" % (I(dd), e.val(p), e.val(q), m)
    if k == 'reverse':
        return "noarr::reverse<%s>()" % C(d), "vf::reverse(%d, %s)" % (I(d), m)
    if k == 'rename':
        return ("noarr::rename<%s>()" % ", ".join("%s, %s" % (C(a), C(b)) for a, b in op['pairs']),
                "vf::rename({%s}, %s)" % (", ".join("{%d, %d}" % (I(a), I(b)) for a, b in op['pairs']), m))
    if k == 'reorder':
        return "noarr::reorder<%s>()" % ", ".join(C(x) for x in op['order']), "vf::pass(%s)" % m
    if k == 'hoist':
        return "noarr::hoist<%s>()" % ", ".join(C(x) for x in op['ds']), "vf::pass(%s)" % m
    if k == 'join':
        a, b = op['a'], op['b']
        if not fnodes(sig, a, False)[0].unset:
            e.out("c.require(vf::mlen(%s, %d) == vf::mlen(%s, %d));" % (m, I(a), m, I(b)))
        t = "noarr::join<%s, %s>()" % (C(a), C(b)) if op['d'] == a and op.get('form') else "noarr::join<%s, %s, %s>()" % (C(a), C(b), C(op['d']))
        return t, "vf::join(%d, %d, %d, %s)" % (I(a), I(b), I(op['d']), m)
    if k in ('blocks', 'blocks_dyn'):
        M, mm = op['M'], op['m']
        p = op['p']
        if k == 'blocks':
            ds, mo = "%s, %s, %s" % (C(d), C(M), C(mm)), "vf::blocks(%d, %d, %d, %s)" % (I(d), I(M), I(mm), m)
        else:
            ds = ", ".join(C(x) for x in (d, M, mm, op['pr']))
            mo = "vf::blocks_dyn(%d, %d, %d, %d, %s)" % (I(d), I(M), I(mm), I(op['pr']), m)
        nm = 'into_' + k.replace('dyn', 'dynamic')
        if op['mode'] == 'both':
            e.draw(p, "c.len(%d, %s)" % (p['n'], e.maxlen))
            e.draw(op['q'], "c.len(%d, %s)" % (op['q']['n'], e.maxlen))
            t = "noarr::%s<%s>() ^ noarr::set_length<%s>(%s) ^ noarr::set_length<%s>(%s)" % (nm, ds, C(M), e.arg(p), C(mm), e.arg(op['q']))
            return t, "vf::setlen(%d, %s, vf::setlen(%d, %s, %s))" % (I(mm), e.val(op['q']), I(M), e.val(p), mo)
        if k == 'blocks':
            e.draw(p, "c.divisor(vf::mlen_gcd(%s, %d, %s))" % (m, I(d), ctx(d)))
            e.out("c.require(%s > 0 && %s);" % (e.val(p), lall(d, "l %% %s == 0" % e.val(p))))
        else:
            e.draw(p, "c.range(1, %s + 2)" % lmin(d))
        x = mm if op['mode'] == 'minor' else M
        if op['mode'] == 'minor' and op.get('form'):
            t = "noarr::%s<%s>(%s)" % (nm, ds, e.arg(p))
        else:
            t = "noarr::%s<%s>() ^ noarr::set_length<%s>(%s)" % (nm, ds, C(x), e.arg(p))
        return t, "vf::setlen(%d, %s, %s)" % (I(x), e.val(p), mo)
    if k == 'blocks_static':
        p = op['p']
        e.draw(p, "c.range(1, %s + 2)" % lmin(d))
        xs = (d, op['B'], op['M'], op['m'])
        return ("noarr::into_blocks_static<%s>(%s)" % (", ".join(C(x) for x in xs), e.arg(p)),
                "vf::blocks_static(%s, %s, %s)" % (", ".join(str(I(x)) for x in xs), e.val(p), m))
    if k == 'merge':
        t = "%s, %s" % (C(op['M']), C(op['m'])) + ("" if op['d'] == op['m'] and op.get('form') else ", " + C(op['d']))
        return "noarr::merge_blocks<%s>()" % t, "vf::merge(%d, %d, %d, %s)" % (I(op['M']), I(op['m']), I(op['d']), m)
    if k == 'zcurve':
        al, mx = op['al'], op['max']
        cube = zc_cube(sig, op)
        conds = [lall(x, "l <= %d && %s" % (mx, "l > 0 && (l & (l - 1)) == 0" if cube else "l %% %d == 0" % al)) for x in op['ds']]
        if cube:
            conds += ["vf::mlen(%s, %d) == vf::mlen(%s, %d)" % (m, I(x), m, I(op['ds'][0])) for x in op['ds'][1:]]
        e.out("c.require(%s);" % " && ".join(conds))
        return ("noarr::merge_zcurve<%s>::maxlen_alignment<%d, %d>()" % (", ".join(C(x) for x in op['ds'] + [op['d']]), mx, al),
                "vf::zcurve({%s}, %d, %s)" % (", ".join(str(I(x)) for x in op['ds']), I(op['d']), m))
    raise KeyError(k)


def emit_spec(e, spec):
    """spec -> (library variable, model variable, signature)"""
    s, m, sig = emit_base(e, spec)
    protos = []
    for op in spec['ops']:
        t, mt = emit_op(e, sig, op, m)
        m2 = e.new('m')
        e.out("const vf::N %s = %s;" % (m2, mt))
        m = m2
        sig = apply(sig, op)
        protos.append(t)
    sv = e.new('s')
    e.out("const auto %s = %s;" % (sv, " ^ ".join([s] + protos)))
    return sv, m, sig


def emit_base(e, spec):
    b = spec['base']
    if b == 'scalar':
        m = e.new('m')
        e.out("const vf::N %s = vf::scalar(sizeof(%s));" % (m, spec['t']))
        return "noarr::scalar<%s>()" % spec['t'], m, S(spec['t'])
    if b == 'tuple':
        subs = [emit_spec(e, x) for x in spec['subs']]
        m = e.new('m')
        e.out("const vf::N %s = vf::tuple(%d, {%s});" % (m, cid(spec['d']), ", ".join(x[1] for x in subs)))
        return ("noarr::pack(%s) ^ noarr::tuple<%s>()" % (", ".join(x[0] for x in subs), cdim(spec['d'])), m, base_sig(spec))
    raise KeyError(b)


def base_sig(spec):
    if spec['base'] == 'scalar':
        return S(spec['t'])
    subs = tuple(sig_of(x) for x in spec['subs'])
    for x in subs:
        if spec['d'] in dims(x):
            raise Invalid
    if len(subs) < 1:
        raise Invalid
    return D(spec['d'], subs)


def sig_of(spec, upto=None):
    sig = base_sig(spec)
    for op in spec['ops'][:upto]:
        sig = apply(sig, op)
    return sig
