from .common import *
from ..trav import *


class C06(TravCheck):
    id = 'C06'
    programs = {'quick': 180, 'thorough': 1800}
    cases = {'quick': 16, 'thorough': 50}
    rule = ("A case is a generated structure (layouts, tuples, views, blocks; lengths down to zero) and a generated plan of traversals: for_each, for_each over selected dimensions, for_sections and for_dims with "
            "inner traversers traversed again, nested up to 3 deep, in all spellings. The sequence of all calls (state, offset it designates) is compared with the model's enumeration. Non-trivial: at least two calls.")
    assumptions = ["a tuple with several members is selected together with (and before) the dimensions below it; for_dims names dimensions present in every tuple member (the library rejects the rest at compile time)"]

    def gen(self, rng, i):
        g = Gen(rng, maxn=rng.choice([2, 3, 4, 6]))
        return go_long(rng, i, gen_trav(g, depth=rng.choice([1, 2, 2, 3]), tuples=0.35))


CHECK = C06()
