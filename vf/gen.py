"""Random compositions."""
from .sig import *
from .ops import *

LAYOUT = ['vector', 'bcast', 'uvector']
SLICES = ['fix', 'shift', 'slice2', 'slice1', 'span2', 'span1', 'step', 'autostep', 'reverse']
NAMES = ['rename', 'reorder', 'hoist', 'join']
BLOCKS = ['blocks', 'blocks_dyn', 'blocks_static', 'merge']
VIEWS = SLICES + NAMES + ['bcast']
ALL = VIEWS + BLOCKS


# dimensions named by tags: value and type
TAGS = ['#2', '#2', '#-3', '#7:short', '#0:bool', '#5:unsigned long', '#300:char16_t']


class Gen:
    def __init__(self, rng, dims=None, lit=0.35, types=None, maxn=6, big=False):
        self.r = rng
        self.pid = 0
        names = list("abcdefghijklmnopqrstuvwxyzXYZ")
        rng.shuffle(names)
        names = names[:14]
        for i in range(2):
            at = rng.randrange(len(names))
            names.insert(at, TAGS[at % len(TAGS)] if i else '#1')
        self.names = dims or names
        self.lit = lit
        self.types = types or rng.choice(CLASSES)
        self.maxn = maxn
        self.lens = []
        self.big = big
        self.focus = None
        self.member_views = None     # operations inside tuple members

    def param(self, n, lit=None):
        self.pid += 1
        if lit is None:
            lit = self.r.random() < self.lit
        p = {'id': self.pid, 'lit': lit, 'n': n}
        if not lit and self.r.random() < 0.15:
            p['t'] = self.r.choice(['int', 'unsigned', 'short', 'long'])
        return p

    def lenparam(self):
        r = self.r
        if self.lens and r.random() < 0.3:
            return dict(r.choice(self.lens))
        if self.big and r.random() < 0.8:
            n = r.choice([1, 3, 5]) * 2 ** r.randint(8, 18) + r.choice([0, 0, 0, 1, 2, -1])
            p = self.param(n)
            p.pop('t', None)
            self.lens.append(p)
            return p
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 8])
        n = min(n, max(self.maxn, 1))
        if r.random() < 0.04:
            n = 0
        p = self.param(n)
        self.lens.append(p)
        return p

    def fresh(self, sig, k=1, extra=()):
        ds = dims(sig)
        pool = [x for x in self.names if x not in ds and x not in extra]
        if len(pool) < k:
            raise Invalid
        return self.r.sample(pool, k)

    def anydim(self, sig):
        ds = dims(sig)
        if not ds:
            raise Invalid
        return self.r.choice(ds)

    def nlen(self, sig, d):
        occ = occurrences(sig, d)
        ls = [len(o.subs) if isinstance(o, D) else o.n for o, _ in occ]
        if any(x is None for x in ls):
            return None
        return min(ls)

    def scalar(self):
        return {'base': 'scalar', 't': self.r.choice(self.types), 'ops': []}

    def newdims(self, sig, d, k):
        """k names for new dimensions, possibly reusing d"""
        names = self.fresh(sig, k)
        if self.r.random() < 0.5:
            names[self.r.randrange(k)] = d
        return names

    def propose(self, sig, kind):
        r = self.r
        if kind in ('vector', 'bcast'):
            return {'op': kind, 'd': self.fresh(sig)[0], 'p': self.lenparam(), 'form': r.randrange(3)}
        if kind in ('uvector', 'ubcast'):
            return {'op': kind, 'd': self.fresh(sig)[0]}
        if kind == 'setlen':
            ds = unset_dims(sig)
            if not ds:
                raise Invalid
            return {'op': 'setlen', 'd': r.choice(ds), 'p': self.lenparam()}
        if kind == 'autostep':
            if not isinstance(sig, F) or sig.n is None:
                raise Invalid
            sd = r.randint(1, sig.n + 1)
            return {'op': kind, 'p': self.param(r.randrange(sd)), 'q': self.param(sd)}
        if kind in SLICES:
            d = self.anydim(sig)
            tup = isinstance(occurrences(sig, d)[0][0], D)
            n = self.nlen(sig, d)
            lit = True if tup else None
            if kind == 'reverse':
                return {'op': kind, 'd': d}
            if n is None:
                if kind == 'shift' and d in unset_dims(sig):
                    return {'op': kind, 'd': d, 'p': self.param(r.randrange(4))}
                raise Invalid
            if kind == 'fix':
                if n == 0:
                    raise Invalid
                return {'op': kind, 'd': d, 'p': self.param(r.randrange(n), lit)}
            if kind == 'shift':
                return {'op': kind, 'd': d, 'p': self.param(r.randint(0, n), lit)}
            if kind == 'slice2':
                s = r.randint(0, n)
                return {'op': kind, 'd': d, 'p': self.param(s, lit), 'q': self.param(r.randint(min(1, n - s), n - s), lit)}
            if kind == 'span2':
                s = r.randint(0, n)
                return {'op': kind, 'd': d, 'p': self.param(s, lit), 'q': self.param(r.randint(min(s + 1, n), n), lit)}
            if kind in ('slice1', 'span1'):
                return {'op': kind, 'd': d, 'q': self.param(r.randint(min(1, n), n), lit)}
            if kind == 'step':
                sd = r.randint(1, max(2, min(4, n + 1)))
                return {'op': kind, 'd': d, 'p': self.param(r.randrange(sd), lit), 'q': self.param(sd, lit)}
        if kind == 'rename':
            ds = dims(sig)
            if not ds:
                raise Invalid
            k = r.randint(1, min(3, len(ds)))
            src = r.sample(ds, k)
            mode = r.random()
            if mode < 0.35 and k > 1:
                dst = src[1:] + src[:1]
            elif mode < 0.45:
                dst = list(src)
                r.shuffle(dst)
            else:
                dst = self.fresh(sig, k)
                if k > 1 and r.random() < 0.5:
                    dst[0] = src[1]
            return {'op': 'rename', 'pairs': [list(x) for x in zip(src, dst)]}
        if kind == 'reorder':
            ds = dims(sig)
            r.shuffle(ds)
            return {'op': 'reorder', 'order': ds}
        if kind == 'hoist':
            ds = dims(sig)
            if not ds:
                raise Invalid
            k = 1 if r.random() < 0.7 else r.randint(1, min(3, len(ds)))
            return {'op': 'hoist', 'ds': r.sample(ds, k)}
        if kind == 'join':
            ds = dims(sig)
            if len(ds) < 2:
                raise Invalid
            cand = [(a, b) for a in ds for b in ds if a != b]
            r.shuffle(cand)
            for a, b in cand:
                d = r.choice([a, b] + self.fresh(sig))
                op = {'op': 'join', 'a': a, 'b': b, 'd': d, 'form': r.randrange(2)}
                try:
                    apply(sig, op)
                    return op
                except (Invalid, ValueError):
                    pass
            raise Invalid
        if kind in ('blocks', 'blocks_dyn', 'blocks_static'):
            d = self.anydim(sig)
            occ = occurrences(sig, d)
            if isinstance(occ[0][0], D):
                raise Invalid
            if kind == 'blocks' and occ[0][0].unset:
                M, m = self.newdims(sig, d, 2)
                return {'op': kind, 'd': d, 'M': M, 'm': m, 'mode': 'both', 'p': self.param(r.randint(1, 4)), 'q': self.param(r.randint(1, 4))}
            n = self.nlen(sig, d)
            if n is None:
                raise Invalid
            if kind == 'blocks':
                M, m = self.newdims(sig, d, 2)
                divs = [x for x in (range(1, max(n, 3) + 1) if n < 5000 else [1, 2, 3, 4, 8, 16, 1 << 8, 1 << 12, n // 2, n]) if n % x == 0]
                return {'op': kind, 'd': d, 'M': M, 'm': m, 'mode': r.choice(['minor', 'minor', 'major']), 'p': self.param(r.choice(divs)), 'form': r.randrange(2)}
            if kind == 'blocks_dyn':
                M, m, pr = self.newdims(sig, d, 3)
                return {'op': kind, 'd': d, 'M': M, 'm': m, 'pr': pr, 'mode': r.choice(['minor', 'minor', 'major']), 'p': self.param(r.randint(1, n + 2)), 'form': r.randrange(2)}
            B, M, m = self.newdims(sig, d, 3)
            return {'op': kind, 'd': d, 'B': B, 'M': M, 'm': m, 'p': self.param(r.randint(1, n + 2))}
        if kind == 'merge':
            ds = [x for x in dims(sig) if isinstance(occurrences(sig, x)[0][0], F)]
            if len(ds) < 2:
                raise Invalid
            M, m = r.sample(ds, 2)
            return {'op': 'merge', 'M': M, 'm': m, 'd': r.choice([M, m, m] + self.fresh(sig)), 'form': r.randrange(2)}
        if kind == 'zcurve':
            ds = [x for x in dims(sig) if all(isinstance(o, F) for o, _ in occurrences(sig, x)) and self.nlen(sig, x) is not None]
            if len(ds) < 1:
                raise Invalid
            k = r.choice([1, 2, 2, 2, 3, 3, 4])
            if k > len(ds):
                k = len(ds)
            sel = r.sample(ds, k)
            ns = [o.n for x in sel for o, _ in occurrences(sig, x)]
            mx = 1
            while mx < max(ns):
                mx *= 2
            al = 1
            while al < 64 and all(n % (al * 2) == 0 for n in ns) and r.random() < 0.8 and al * 2 <= mx:
                al *= 2
            if r.random() < 0.5:
                mx *= r.choice([2, 4, 16])
            if len(set(ns)) == 1 and ns[0] & (ns[0] - 1) == 0 and r.random() < 0.3 and ns[0] > 0:
                al = mx
            return {'op': 'zcurve', 'ds': sel, 'd': r.choice(sel + self.fresh(sig)), 'max': mx, 'al': al}
        raise KeyError(kind)

    def focus_on(self, spec):
        """further operations concern one dimension and those made of it"""
        ds = [d for d in dims(sig_of(spec)) if all(isinstance(o, F) for o, _ in occurrences(sig_of(spec), d))]
        if ds:
            self.focus = {self.r.choice(ds)}

    def add(self, spec, kinds, tries=12, limit=400, maxdims=6):
        sig = sig_of(spec)
        for _ in range(tries if self.focus is None else 4 * tries):
            kind = self.r.choice(kinds)
            try:
                op = self.propose(sig, kind)
                s2 = apply(sig, op)
            except Invalid:
                continue
            if self.focus is not None:
                if op['op'] == 'rename':
                    if not any(a in self.focus for a, _ in op['pairs']):
                        continue
                    new = {b for a, b in op['pairs'] if a in self.focus}
                elif not {op.get(k) for k in ('d', 'M', 'm', 'a', 'b')} & self.focus:
                    continue
                else:
                    new = {op[k] for k in ('d', 'M', 'm', 'B') if k in op}
            if leaves(s2) > (limit if not self.big else 1 << 57) or len(dims(s2)) > maxdims:
                continue
            if self.focus is not None:
                self.focus = ((self.focus | new) & set(dims(s2))) or None
            spec['ops'].append(op)
            return True
        return False

    def finish(self, spec):
        """supply all missing lengths"""
        while True:
            sig = sig_of(spec)
            if not unset_dims(sig):
                return spec
            spec['ops'].append(self.propose(sig, 'setlen'))

    def reid(self, spec, ids):
        for op in spec['ops']:
            for k in ('p', 'q'):
                if k in op and not op[k]['lit']:
                    if op[k]['id'] not in ids:
                        self.pid += 1
                        ids[op[k]['id']] = self.pid
                    op[k]['id'] = ids[op[k]['id']]
        for x in spec.get('subs', []):
            self.reid(x, ids)

    def layout(self, depth=None, tuples=0.3, bcast=0.0, unsized=0.0, limit=300, nested=True):
        """a random layout"""
        r = self.r
        if depth is None:
            depth = r.choice([0, 1, 2, 2, 3, 3, 4])
        if nested and r.random() < tuples:
            k = r.choice([1, 2, 2, 3, 3, 4])
            d = r.choice(self.names)
            saved = self.names
            self.names = [x for x in saved if x != d]
            subs = []
            for _ in range(k):
                if subs and r.random() < 0.4:
                    # same shape as an earlier branch, so that dimensions are shared by all branches
                    import copy
                    b = copy.deepcopy(r.choice(subs))
                    if r.random() < 0.6:
                        self.reid(b, {})     # same types, other run-time values
                    subs.append(b)
                else:
                    subs.append(self.layout(r.choice([0, 0, 1, 1, 2]), tuples * 0.4, bcast, 0.0, max(limit // k // 2, 4)))
                    if self.member_views and r.random() < 0.3:
                        self.add(subs[-1], self.member_views, limit=max(limit // k // 2, 4))
            spec = {'base': 'tuple', 'd': d, 'subs': subs, 'ops': []}
            self.names = saved
            depth = max(0, depth - 1)
        else:
            spec = self.scalar()
        for _ in range(depth):
            x = r.random()
            kind = 'bcast' if x < bcast else 'uvector' if x < bcast + unsized else 'vector'
            self.add(spec, [kind], limit=limit)
        return spec
