from .common import *

EMPTY = ['vf::E0', 'vf::E1', 'vf::E2', 'vf::E3']
# kind -> (type, expression of a value made from the u64 v)
PLAIN = {
    'char': ('char', '(char)v'), 'bool': ('bool', '(v % 2 == 1)'), 'int': ('int', '(int)v'), 'short': ('short', '(short)v'), 'u64': ('std::size_t', '(std::size_t)v'), 'double': ('double', '(double)(v % 100003) / 8'),
    'ptr': ('const int *', '(&vf::pool[v % 64])'), 'pad': ('vf::Pad', '(vf::Pad{(int)v, (char)(v >> 8)})'), 'agg': ('vf::Agg', '(vf::Agg{{(short)v, (short)(v >> 5), (short)(v >> 9)}, {}})'), 'al': ('vf::Al16', '(vf::Al16{(char)v})'),
    'one': ('vf::One', '(vf::One{{}, v})'), 'enum': ('vf::En', '(vf::En)(v % 3)'), 'float': ('float', '(float)(v % 1024)'),
}
FLEX = {
    'string': ('std::string', 'std::string(1 + v % 40, (char)(65 + v % 26))'), 'vector': ('std::vector<int>', '(std::vector<int>(1 + v % 9, (int)v))'), 'shared': ('std::shared_ptr<int>', 'std::make_shared<int>((int)v)'),
    'unique': ('std::unique_ptr<int>', 'std::make_unique<int>((int)v)'), 'opt': ('std::optional<std::string>', '(v % 2 ? std::optional<std::string>(std::string(30, (char)(65 + v % 26))) : std::nullopt)'),
}


def ftype(f):
    k = f['k']
    if k == 'empty':
        return f['t']
    if k == 'lit':
        return "std::integral_constant<%s, %d>" % (f['t'], f['n'])
    if k == 'nest':
        return "noarr::flexible_contain<%s>" % ", ".join(ftype(x) for x in f['f'])
    if k == 'struct':
        return "std::remove_cvref_t<decltype(%s)>" % f['x'].replace('@', '(std::size_t)1')
    return {**PLAIN, **FLEX}[k][0]


def flat(fs):
    for f in fs:
        yield f
        if f['k'] == 'nest':
            yield from flat(f['f'])


def fval(f):
    """expression of a value of the field; draws afresh from the case's numbers"""
    k = f['k']
    if k in ('empty', 'lit'):
        return ftype(f) + "()"
    if k == 'nest':
        return ftype(f) + "{%s}" % ", ".join(fval(x) for x in f['f'])
    if k == 'struct':
        return "(%s)" % f['x'].replace('@', '(std::size_t)(w[%d] %% 1000)' % f['v'])
    return {**PLAIN, **FLEX}[k][1].replace('v', 'w[%d]' % f['v']).replace('std::w[%d]ector' % f['v'], 'std::vector').replace('w[%d]f::' % f['v'], 'vf::')


STRUCTS = ["noarr::scalar<int>()", "noarr::scalar<char>() ^ noarr::vector<'a'>(@)", "noarr::idx<'x'>(@)", "noarr::idx<'x', 'y'>(@, noarr::lit<2>)", "noarr::empty_state", "noarr::scalar<int>() ^ noarr::array<'q', 5>() ^ noarr::vector<'z'>(@)"]


class C25(Check):
    id = 'C25'
    header = 'contain.hpp'
    programs = {'quick': 170, 'thorough': 2000}
    cases = {'quick': 12, 'thorough': 30}
    per_tu = 8
    rule = ("A case is a container of 0 to 8 fields drawn from several empty types (repeated, final, derived from each other, literals, noarr structures and states without data), scalars, pointers, padded, over-aligned and aggregate classes, nested "
            "containers, noarr structures and states with data, and (flexible containers) strings, vectors and owning pointers, with random values. It is built from rvalues, lvalues or a mixture, read by position and by structured binding, copied, assigned, "
            "moved, memcpy'd when simple, derived from, split and concatenated; every field is compared with what was stored. Layout claims are asserted while compiling. Non-trivial: at least one field with data and three fields.")
    assumptions = []

    def field(self, rng, depth, flex):
        self.v += 1
        r = rng.random()
        if r < 0.36:
            return {'k': 'empty', 't': rng.choice(EMPTY + (['vf::ED'] if flex else []))}
        if r < 0.44:
            return {'k': 'lit', 't': rng.choice(['std::size_t', 'int']), 'n': rng.choice([0, 1, 7])}
        if r < 0.52 and depth < 2:
            return {'k': 'nest', 'f': [self.field(rng, depth + 1, flex) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]}
        if r < 0.60:
            return {'k': 'struct', 'x': rng.choice(STRUCTS), 'v': self.v}
        return {'k': rng.choice(list(PLAIN) + (list(FLEX) * 2 if flex else [])), 'v': self.v}

    def gen(self, rng, i):
        self.v = -1
        flex = rng.random() < 0.35
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8])
        fs = [self.field(rng, 0, flex) for _ in range(n)]
        if rng.random() < 0.25 and n > 1:
            fs = [f if f['k'] in ('empty', 'lit') or j == n // 2 else {'k': 'empty', 't': rng.choice(EMPTY)} for j, f in enumerate(fs)]
        return {'f': fs, 'flex': flex, 'cut': rng.randint(0, n), 'cut2': rng.randint(0, n), 'lv': [rng.random() < 0.5 for _ in fs]}

    def describe(self, spec):
        return "contain<%s>" % ", ".join(ftype(f) for f in spec['f'])

    def shrinks(self, spec):
        for i in range(len(spec['f'])):
            yield dict(spec, f=spec['f'][:i] + spec['f'][i + 1:], lv=spec['lv'][:i] + spec['lv'][i + 1:], cut=min(spec['cut'], len(spec['f']) - 1), cut2=min(spec['cut2'], len(spec['f']) - 1))
        for i, f in enumerate(spec['f']):
            if f['k'] == 'nest':
                for j in range(len(f['f'])):
                    yield dict(spec, f=spec['f'][:i] + [dict(f, f=f['f'][:j] + f['f'][j + 1:])] + spec['f'][i + 1:])

    def emit(self, spec):
        fs = spec['f']
        n = len(fs)
        L = []
        o = L.append
        al = "noarr::flexible_contain" if spec['flex'] else "noarr::strict_contain"
        if not spec['flex'] and any(f['k'] in FLEX or f.get('t') == 'vf::ED' for f in flat(fs)):
            raise Invalid
        movable = any(f['k'] == 'unique' for f in flat(fs))
        nv = 1 + max([f.get('v', 0) for f in flat(fs)] + [0])
        o("vf::u64 w[%d]; for (auto &x : w) { x = c.draw(1 << 30) * 3 + c.draw(4); } (void)w;" % nv)
        for i, f in enumerate(fs):
            o("typedef %s T%d;" % (ftype(f), i))
        ts = ["T%d" % i for i in range(n)]
        o("typedef %s<%s> C; typedef vf::Fields<%s> Fs;" % (al, ", ".join(ts), ", ".join(ts)))
        o("vf::check_layout<C>(Fs{});")
        for i, f in enumerate(fs):
            o("[[maybe_unused]] const T%d x%d = %s;" % (i, i, fval(f)))
        vals = "".join(", x%d" % i for i in range(n))
        mk = lambda i: fval(fs[i]) if movable and any(y['k'] == 'unique' for y in flat([fs[i]])) else "x%d" % i if spec['lv'][i] else fval(fs[i])
        args = ", ".join(mk(i) for i in range(n))
        paren = lambda a: "(%s)" % a if a else "{}"
        if n:
            o("C c0{%s};" % args)
        else:
            o("C c0;")
        chk = lambda w, x: o("vf::check_fields(c, \"%s\", %s, Fs{}%s);" % (w, x, vals))
        chk('constructed', 'c0')
        # lvalue arguments are copied, not consumed
        for i, f in enumerate(fs):
            if spec['lv'][i] and not movable:
                o("c.expect(vf::same<T%d>(x%d, %s), \"an argument has been consumed\");" % (i, i, fval(f)))
        if n:
            o("{ const auto &[%s] = c0;" % ", ".join("b%d" % i for i in range(n)))
            for i in range(n):
                o("\tc.expect(vf::same<T%d>(b%d, x%d), \"structured binding of field %d\"); static_assert(std::is_same_v<std::remove_cvref_t<decltype(b%d)>, T%d>); vf::same_object<T%d>(c, b%d, c0.template get<%d>());" % ((i,) * 9))
            o("}")
        if not movable:
            o("{ const C c1(c0); "); chk('copy', 'c1'); chk('copied from', 'c0'); o("}")
            if n:
                o("{ const auto [%s] = C(c0); %s }" % (", ".join("b%d" % i for i in range(n)), " ".join("c.expect(vf::same<T%d>(b%d, x%d), \"structured binding of a copy, field %d\");" % ((i,) * 4) for i in range(n))))
            # assignment to a container with other values
            if n:
                o("{ for (auto &x : w) x ^= 0x5555; C c1{%s}; for (auto &x : w) x ^= 0x5555; const C c2(c1); if constexpr (std::is_copy_assignable_v<C>) { c1 = c0; " % ", ".join(fval(f) for f in fs))
                chk('assigned', 'c1'); chk('assigned from', 'c0'); o("} }")
            o("{ const auto f = [](auto x) { return x; }; const C c1 = f(f(c0)); "); chk('returned', 'c1'); o("}")
            o("{ const C a1[3] = {c0, c0, c0}; "); chk('array', 'a1[2]'); o("}")
            o("if constexpr (std::is_trivially_copyable_v<C> && !std::is_empty_v<C>) { alignas(C) unsigned char buf[sizeof(C)]; std::memcpy(buf, &c0, sizeof buf); "); chk("memcpy", "(*(const C *)buf)"); o("}")
            if n:
                o("{ struct Der : C { using C::C; decltype(auto) last() const { return C::template get<%d>(); } };" % (n - 1))
                o("\tconst Der d{%s}; c.expect(vf::same<T%d>(d.last(), x%d), \"field of a derived class\"); static_assert(sizeof(Der) == sizeof(C)); " % (args, n - 1, n - 1))
                chk('derived', '(const C &)d')
                o("}")
            # split and concatenate
            a, b = sorted((min(spec['cut'], n), min(spec['cut2'], n)))
            parts = [(0, a), (a, b), (b, n)]
            for j, (p, q) in enumerate(parts):
                o("const noarr::flexible_contain<%s> p%d%s;" % (", ".join(ts[p:q]), j, "{%s}" % ", ".join("c0.template get<%d>()" % i for i in range(p, q)) if p < q else ""))
            o("{ const auto c1 = noarr::contain_cat(p0, p1, p2); static_assert(std::is_same_v<std::remove_cvref_t<decltype(c1)>, noarr::flexible_contain<%s>>, \"type of the concatenation\"); " % ", ".join(ts)); chk('concatenated', 'c1'); o("}")
            o("{ const auto c1 = noarr::contain_cat(noarr::contain_cat(p0, p1), p2); "); chk('concatenated', 'c1'); o("}")
            o("{ const auto c1 = noarr::contain_cat(c0); "); chk('concatenated alone', 'c1'); o("}")
            o("{ const auto c1 = noarr::contain_cat(noarr::contain_cat(), c0, noarr::contain_cat()); "); chk('concatenated with nothing', 'c1'); o("}")
        o("{ C c1(std::move(c0)); "); chk('moved', 'c1')
        if not movable:
            pass
        o("if constexpr (std::is_move_assignable_v<C>) { C c2(std::move(c1)); c1 = std::move(c2); "); chk('move-assigned', 'c1'); o("} }")
        data = sum(1 for f in fs if f['k'] not in ('empty', 'lit'))
        for f in flat(fs):
            o("c.tag(\"field:%s\");" % f['k'])
        o("c.tag(\"fields:%d\"); c.nontrivial(%s);" % (n, 'true' if n >= 3 and data else 'false'))
        # constant evaluation
        if n and all(f['k'] in ('empty', 'lit', 'char', 'int', 'u64', 'pad', 'enum', 'short', 'bool', 'one', 'agg') for f in flat(fs)):
            cargs = [re.sub(r'w\[(\d+)\]', lambda m: '(vf::u64)%d' % (int(m.group(1)) * 7919 + 12345), fval(f)) for f in fs]
            o("{ constexpr C k{%s}; static_assert(%s, \"constant evaluation\"); c.tag(\"constexpr\"); }" % (", ".join(cargs), " && ".join("vf::same<T%d>(k.template get<%d>(), %s)" % (i, i, cargs[i]) for i in range(n))))
        return {'body': "\n".join(L)}


CHECK = C25()
