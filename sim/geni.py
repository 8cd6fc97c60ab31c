"""Plans of imports with failing memory requests (C17)."""
import random

import gen

N = 3900        # memory requests of one import: measured (about 3800)
ORDER = ["IntArrayList", "BigIntArrayList", "IntLinkedList", "ObjectArrayList", "ObjectLinkedList", "Unsafe", "SIMD", "ASM", "SIMDLowAVX512",
         "IntArrayListIter", "ObjectLinkedListIter"]


def make(prop, seed):
    r = random.Random("import%d" % seed)
    n = r.choice([1, 1, 1, 2, 2, 3, 5])
    imports = []
    for i in range(n):
        # the seeds walk over the positions, so that a long run visits all of them
        at = seed % N if i == 0 else r.randrange(N)
        if r.random() < .15:
            at = r.randrange(60)
        imports.append([at, r.choice([1, 1, 1, 2, 5, -1])])
    order = ORDER[:]
    r.shuffle(order)
    then = gen.make(r.choice(["C01", "C02", "C03", "C04", "C08"]), seed)
    for c in then["clients"]:
        del c[12:]
    return {"mode": "import", "imports": imports, "order": order, "then": then}
