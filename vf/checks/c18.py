import random
from .common import *

TYPES = ['char', 'bool', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'float', 'unsigned', 'double', 'long long', 'unsigned long long', 'std::size_t', 'long', 'long double', 'wchar_t', 'char16_t', 'char32_t', 'char8_t']
INTS = ['int', 'short', 'unsigned', 'long', 'signed char', 'unsigned char', 'std::size_t', 'long long', 'unsigned long long', 'char', 'unsigned short']
ODD = ["'", '\\', '"', ' ', ',', '<', '0', '_', '}', '\n', '\x7f', '?', '\t', '\r', '\0', '\x01', '\x80', '\xe9', '\xff']
TAGS = ['#1', '#2', '#-3', '#-10', '#7:short', '#-128:signed char', '#200:unsigned char', '#97:char', '#0:bool', '#-5:long', '#18446744073709551614:unsigned long', '#18446744073709551615:unsigned long long',
        '#-2147483647', '#2147483648:long', '#4:long long', '#955:wchar_t', '#8364:char16_t', '#128512:char32_t', '#65:char8_t', '#30000:unsigned short', '#4000000000:unsigned', '#100', '#12345']


class C18(Check):
    id = 'C18'
    header = 'mangle.hpp'
    programs = {'quick': 180, 'thorough': 1600}
    cases = {'quick': 2, 'thorough': 6}
    per_tu = 4
    rule = ("A case is a generated structure (layout under 0-6 views, blocks, merges, z-curves, structures instantiated directly with parameters of all integral types, literal and extreme values, dimensions named by arbitrary characters and tags). Its mangled type and expression are compiled again: "
            "the type has to be the structure's type, and the expression a value of that type with equal parameters. Non-trivial: at least one dynamic or literal parameter.")
    assumptions = ["the names of the library are visible (using namespace noarr), as the text names the structures without qualification"]

    def gen(self, rng, i):
        names = list("abcdefghijklmnopqrstuvwxyzXYZ")
        rng.shuffle(names)
        names = names[:12] + rng.sample(ODD, 3 if rng.random() < 0.3 else 0) + (rng.sample(TAGS, 2) if rng.random() < 0.4 else [])
        rng.shuffle(names)
        g = Gen(rng, dims=names, types=rng.sample(TYPES, 3), maxn=rng.choice([3, 6, 12]))
        spec = g.layout(depth=rng.choice([0, 1, 2, 3]), tuples=0.3, bcast=0.2, unsized=0.3, limit=2000)
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            g.add(spec, ALL + (['zcurve'] * 4 if rng.random() < 0.4 else []) + (['setlen'] if unset_dims(sig_of(spec)) else []), limit=4000)
        raw = []
        sig = sig_of(spec)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            ds = [d for d in dims(sig) if all(isinstance(o, F) for o, _ in occurrences(sig, d)) and not any(o.guard for o, _ in occurrences(sig, d))]
            if not ds:
                break
            k = rng.choice(['fix', 'shift', 'slice', 'span', 'step'])
            d = rng.choice(ds)
            if any(r['d'] == d for r in raw):
                continue
            ps = []
            for j in range(1 if k in ('fix', 'shift') else 2):
                if rng.random() < 0.3:
                    v = rng.choice([0, 1, 7, 10, 99, 2**31 - 1, 2**31, 2**32, 2**63, 2**64 - 1, rng.randrange(2**40), rng.randrange(2**64)])
                    ps.append({'lit': (rng.choice(["noarr::lit_t<%dull>", "std::integral_constant<std::size_t, %dull>"]) if j == 0 else "std::integral_constant<std::size_t, %dull>") % v})
                else:
                    ps.append({'t': 'std::size_t' if k == 'slice' and j else rng.choice(INTS)})
            raw.append({'k': k, 'd': d, 'ps': ps})
        return {'s': spec, 'opt': raw}

    def describe(self, spec):
        return describe_spec(spec['s']) + "".join(" ^ %s_t<%s, ., %s>" % (r['k'], cdim(r['d']), ", ".join(p.get('lit') or p['t'] for p in r['ps'])) for r in spec['opt'])

    def emit(self, spec):
        e = Emit(maxlen=12)
        s, m, sig = emit_spec(e, spec['s'])
        alld = dims(sig)
        defs = [("vf::u64", v) for v in e.params.values()]
        n = 0
        for r in spec['opt']:
            if r['d'] not in alld:
                raise Invalid
            vs = []
            for p in r['ps']:
                n += 1
                if 'lit' in p:
                    vs.append(p['lit'] + "()")
                    continue
                e.out("const %s r%d = vf::edge_value<%s>(c); c.note(\"r%d\", std::to_string(r%d));" % (p['t'], n, p['t'], n, n))
                defs.append((p['t'], "r%d" % n))
                vs.append("r%d" % n)
            t = "noarr::%s_t<%s, std::remove_cvref_t<decltype(%s)>, %s>" % (r['k'], cdim(r['d']), s, ", ".join(p.get('lit') or p['t'] for p in r['ps']))
            e.out("const auto sr%d = %s{%s, %s};" % (n, t, s, ", ".join(vs)))
            s = "sr%d" % n
            e.out("c.tag(\"direct\");")
        build = "".join(l + "\n" for l in e.lines if l.startswith("\tconst auto s"))
        if ')VF"' in build:
            raise Invalid
        e.out(tag_lines(spec['s'], sig).strip())
        e.out("vf::Mangled mg{c};" + "".join(" mg.def(\"%s\", \"%s\", %s);" % (t, v, v) for t, v in defs))
        e.out("mg.check(%s, \"%s\", R\"VF(%s)VF\");" % (s, s, build))
        e.out("c.nontrivial(%s);" % ('true' if defs or 'lit<' in build or 'lit_t' in build else 'false'))
        return {'body': "\n".join(e.lines)}


CHECK = C18()
