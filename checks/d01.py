from vf import *

def cst(vals='', units=''): return 'CONSTANTS Vals = {%s} Units = {%s}\n' % (vals, units)
PER = [None] + [10.0**-9, 1e-6, 1e-3, 1, 60, 3600, 86400, 604800, 31557600, 2629800, 3155760000, 31557600000, 1e-8, 1e-2, 1, 1.5, 3600]
WID = [None] + [8] * 12 + [4, 2, 4, 8, 1]

class D01(Check):
    prop = 'D01'
    spec = 'Span'
    mcs = [('%s: counts of a few' % n, cst('0, 61', u) + 'INVARIANT Laws\nCONSTRAINT Two\n', True) for n, u in
           (('minutes and milliseconds', '3, 5'), ('months and years', '9, 10'), ('three halves and hundredths', '14, 16'))]
    drivers = [dict(name='span', consts=cst()), dict(name='span', flags=['-O2', '-fwrapv'], consts=cst())]
    limit = 4000
    assumptions = ['products on the way of a conversion fit 64 bits', 'results are within the width of the count']

    def scripts(self, tier, rnd, d):
        for _ in range(250 if tier == 'quick' else 4500): yield self.one(rnd)

    def one(self, rnd):
        r = rnd.randrange
        s = []
        by = lambda x: list((x % 2**64).to_bytes(8, 'little'))
        def big(w):
            m = 2 ** (8 * w - 1)
            x = rnd.choice([r(10), r(100), r(2000), r(10**6), r(m), r(m), 2**r(8 * w - 1) + r(-1, 2), m - 1 - r(3), rnd.choice([60, 3600, 86400, 1000, 999, 1001, 10**6, 10**9, 365, 12, 7])])
            return max(-m, min(m - 1, rnd.choice([x, x, -x])))
        us = rnd.sample(range(1, 18), 4)
        def mid(u):     # a count that can be converted to another of the units
            v = rnd.choice(us)
            k = PER[v] / PER[u]
            lim = 2 ** (8 * WID[u] - 1)
            x = int(r(1, 1000) * max(k, 1)) + r(-2, 3)
            return max(-lim, min(lim - 1, rnd.choice([x, -x])))
        def setu(u): s.append(L('set', u, by(rnd.choice([mid(u), mid(u), big(WID[u])]))))
        for u in us: setu(u)
        def seth(h):
            if r(4) == 0: s.append(L('hnanos', h, by(big(8))))
            else: s.append(L('hset', h, by(rnd.choice([r(-3, 4), r(-10**5, 10**5), r(-2**33, 2**33)])), rnd.choice([0, 1, 999999999, 500000000, 600000000, r(10**9), r(1000)])))
        seth(1); seth(2)
        for _ in range(50):
            u, v, h = rnd.choice(us), rnd.choice(us), r(1, 3)
            o = rnd.choice('set cast cast cast convert add sub compare compare diff step neg mul div mod moddur limits hset hadd hadd hsub hsub hmul hdiv hdiv hstep hneg hcompare hint hto hto hfrom haddd hsubd ratio text wire htext hwire hlimits rtext clock timet'.split())
            if o == 'set': setu(u)
            elif o == 'hset': seth(h)
            elif o in ('cast', 'convert', 'add', 'sub', 'compare', 'diff'):
                if r(3) == 0: setu(v)
                s.append(L(o, u, v, r(2)))
            elif o == 'step': s.append(L(o, u, r(4)))
            elif o in ('text', 'wire'): s.append(L(o, u, r(2)))
            elif o in ('htext', 'hwire'): s.append(L(o, h, 0, r(2)))
            elif o == 'hlimits': s.append(L(o, h))
            elif o == 'rtext': s.append(L(o, r(1, 15)))
            elif o == 'clock': s.append(L(o, r(1, 7)))
            elif o == 'timet': s.append(L(o, 4))
            elif o in ('neg', 'limits'): s.append(L(o, u))
            elif o in ('mul', 'div', 'mod', 'moddur'): s.append(L(o, u, rnd.choice([r(-120, 121), r(1, 5)])))
            elif o in ('hadd', 'hsub', 'hcompare'): s.append(L(o, h, r(1, 3), r(3)))
            elif o in ('hmul', 'hdiv'): s.append(L(o, h, rnd.choice([1, 2, 3, -1, -2, 7, 10, 60, 1000, r(-1000000, 1000000)]), r(2)))
            elif o == 'hstep': s.append(L(o, h, r(4)))
            elif o in ('hneg', 'hint'): s.append(L(o, h, r(2)))
            elif o in ('hto', 'hfrom', 'haddd', 'hsubd'): s.append(L(o, h, u, r(2)))
            else: s.append(L('ratio', r(1, 15), r(1, 15)))
        return s

check = D01()
