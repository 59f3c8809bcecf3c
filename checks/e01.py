from vf import *

def cst(kinds='', dem='FALSE'): return 'CONSTANTS Kinds = {%s} Dem = %s\n' % (kinds, dem)
KNOWN = [0, 1, 2, 4, 5, 9, 11, 12, 13, 17, 21, 22, 28, 32, 36, 75, 95]
BUILTIN = [99, 100, 105, 106, 109]

class E01(Check):
    prop = 'E01'
    spec = 'Except'
    mcs = [('exceptions: %s' % n, cst(k, m) + 'INVARIANT Laws\nCONSTRAINT Few\n', True) for n, k, m in
           (('plain, messages', '1, 4, 8', 'TRUE'), ('of the system', '15, 16, 17', 'FALSE'), ('kinds of messages', '5, 11, 14', 'FALSE'), ('streams', '18', 'TRUE'))]
    drivers = [dict(name='except', consts=cst()), dict(name='except', flags=['-UNDEBUG', '-O2'], link=['-rdynamic'], consts=cst(dem='TRUE'))]
    limit = 2500
    assumptions = ['texts of the C library for error numbers are those of glibc in the C locale', 'memory is available']

    def scripts(self, tier, rnd, d):
        for _ in range(400 if tier == 'quick' else 3000): yield self.one(rnd)

    def one(self, rnd):
        r = rnd.randrange
        def word(n): return [rnd.choice([97, 98, 122, 95, 65]) for _ in range(n)]
        def ident(n): return [ord(c) for c in str(n)] + word(n)
        def type_():
            p = [80] * rnd.choice([0, 0, 1, 2, 5])
            k = r(6)
            if k == 0: return p + [rnd.choice(BUILTIN)]
            if k == 1: return p + ident(rnd.choice([1, 2, 9, 10, 60, 200, 240, 252, 253, 300]))
            if k == 2: return p + [78] + sum((ident(rnd.choice([1, 3, 12, 60, 100])) for _ in range(r(2, 6))), []) + [69]
            if k == 3: return p + [63] + word(r(300))
            if k == 4: return [80] * rnd.choice([0, 1, 3, 254, 255, 256, 300]) + [rnd.choice(BUILTIN)]
            return p + [57] + word(r(1, 8))
        def text():
            k = r(6)
            n = rnd.choice([0, 1, 2, 5, 7, 8, 15, 16, 30, 63, 64, 126, 127, 128, 129, 200, 300])
            return [rnd.choice([37, 115, 100, 32, 110, 97]) if k == 0 else r(1, 256) if k == 1 else r(97, 123) for _ in range(n)]
        def err(): return rnd.choice(KNOWN + [-1, -7, 141, 200, 1000, 100000, -100000, r(141, 5000)])
        def nums():
            return sum((list(rnd.choice([r(10), r(100000), 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, r(2**64)]).to_bytes(8, 'little')) for _ in range(3)), [])
        s = []
        ks = rnd.sample(range(1, 19), 3)
        def make(x):
            k = rnd.choice(ks)
            t = type_() if k == 18 else text()
            if k == 17 and r(6) == 0: t = [r(97, 123)] * rnd.choice([4094, 4095, 4096, 4097, 5000])
            s.append(L('make', x, k, t, text(), err(), nums()))
        make(1)
        for _ in range(24):
            o = rnd.choice('make make copy assign assign throw info info text wire wire drop demangle demangle code codewire errc'.split())
            x = r(1, 3)
            if o == 'make': make(x)
            elif o in ('copy', 'assign'): s.append(L(o, x, r(1, 3)))
            elif o == 'info': s.append(L(o, x, r(3)))
            elif o == 'wire': s.append(L(o, x, []))
            elif o == 'demangle':
                t = type_()
                s.append(L(o, min(1000, len(t) + rnd.choice([1, 2, 3, 10, 300])), t))
            elif o == 'code':
                n = err()
                s.append(L(o, n, rnd.choice([n, err()])))
            elif o == 'codewire': s.append(L(o, err()))
            elif o == 'errc': s.append(L(o, r(1, 79)))
            else: s.append(L(o, x))
        return s

check = E01()
