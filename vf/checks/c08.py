from .common import *
from ..trav import *


class C08(TravCheck):
    id = 'C08'
    programs = {'quick': 180, 'thorough': 1800}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is 2-4 generated structures (or bags over them) sharing some dimensions with equal lengths and having some of their own - plain, through renaming, reversed, broadcast, or with a dimension of that "
            "name renamed or fixed away - traversed together, in up to 3 orders and a plan of sections. Every call's state and the offset it designates in every structure are compared with the model's "
            "enumeration of the union. Non-trivial: at least two calls.")
    assumptions = ["shared dimensions have equal lengths; only the first structure contains tuples (the library rejects the others)"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 3, 4]))
        return go_long(rng, i, gen_trav(g, nstructs=rng.choice([2, 2, 2, 3, 3, 4]), norders=(0, 0, 1, 2, 3), depth=rng.choice([0, 1, 1, 2]), kinds=('sec', 'dims', 'each', 'eachd', 'order'),
                        tuples=0.2, views=(0, 0, 0, 1, 2), limit=100))

    def after(self, e, spec, sig, mo, parts):
        if len(parts) < 2:
            raise Invalid
        e.out("c.tag(\"structures:%d\");" % len(parts))


CHECK = C08()
