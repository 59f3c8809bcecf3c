from vf import *

TYPES = [('uint8_t', 1, 0), ('int8_t', 1, 1), ('uint16_t', 2, 0), ('int16_t', 2, 1), ('uint32_t', 4, 0), ('int32_t', 4, 1), ('uint64_t', 8, 0), ('int64_t', 8, 1)]
def cfg(w, s, vals='', n=0): return 'CONSTANTS W = %d Signed = %d Vals = {%s} MaxLen = %d\n' % (w, s, vals, n)

class A05(Check):
    prop = 'A05'
    spec = 'Num'
    mcs = [('%s: 1 and 2 long lists' % t, cfg(w, s, '0, 1, 7, 24, 100' if w == 1 else '0, 1, 60, 300, 4000' if w == 2 else '0, 12, 70000' if w == 4 else '1, 70000', 2 if w < 4 else 1) + 'INVARIANT Laws\n', True, 'Num', '%d%d' % (w, s)) for t, w, s in TYPES]
    drivers = [dict(name='num', flags=['-DDRV_T=' + t, '-DDRV_W=%d' % w, '-DDRV_T_SIGNED=%d' % s], consts=cfg(w, s), tag='%d%d' % (w, s)) for t, w, s in TYPES]
    limit = 6000
    assumptions = ['signed overflow counts as wrapping: the driver is compiled so', 'not constrained: absv, gcd, lcm of the least number; lcm(0, 0); rounding near the ends of the type']

    def number(self, rnd, w):
        x = rnd.choice([rnd.randrange(4), rnd.randrange(20), 1 << rnd.randrange(8 * w), (1 << rnd.randrange(8 * w)) - 1, (1 << rnd.randrange(8 * w)) + 1, rnd.getrandbits(8 * w), rnd.getrandbits(8 * w), rnd.getrandbits(rnd.randrange(1, 8 * w + 1)), -rnd.randrange(20), -rnd.getrandbits(rnd.randrange(1, 8 * w + 1)), 60, 48, 36, 30]) % (1 << 8 * w)
        return list(x.to_bytes(w, 'little'))

    def scripts(self, tier, rnd, d):
        w, s = int(d['tag'][0]), int(d['tag'][1])
        g = lambda: self.number(rnd, w)
        half = lambda: self.number(rnd, (w + 1) // 2)[:w]
        r = rnd.randrange
        def lst(n): return sum((g() for _ in range(n)), [])
        def args(o):
            m, c, n = r(2), r(2), rnd.choice([0, 1, 2, 3, 7, 16, 33])
            if o == 'accumulate': return [m, lst(n), c, g()]
            if o == 'inner': return [m, lst(n), c, g(), lst(n + r(2))]
            if o in ('partial_sum', 'difference'): return [m, lst(n), c]
            if o == 'iota': return [rnd.choice([0, 1, 3, 40, 300]), g()]
            if o == 'power': return [g(), rnd.choice([0, 1, 2, 3, 5, 8, 13, 31, 64])]
            if o == 'power_op':
                if w == 1: y = r(2, 16)
                else: y = rnd.choice([r(2, 50), r(2, 1 << (4 * w))])
                return [list(r(y).to_bytes(w, 'little')), rnd.choice([0, 1, 2, 3, 5, 8, 13, 31, 64]), list(y.to_bytes(w, 'little'))]
            if o in ('gcd', 'lcm') and w > 2 and r(2):
                k = r(1, 3000)
                return [list(((k * r(1, 3000)) * rnd.choice([1, -1 if s else 1]) % (1 << 8 * w)).to_bytes(w, 'little')) for _ in '12']
            if o in ('align', 'divru') and r(2): return [g(), list(r(1, 17).to_bytes(w, 'little'))]
            if o in ('minmax', 'align', 'divru', 'gcd', 'lcm'): return [g(), g()]
            if o == 'rotate': return [g(), r(8 * w)]
            if o == 'mask': return [r(1, 8 * w + 1)]
            if o == 'pack': return [r(256), [r(256), r(256)]]
            return [g(), r(100)]
        def call():
            o = rnd.choice('accumulate inner partial_sum difference iota power power_op minmax absv sign align divru gcd gcd lcm lcm rotate bytes mask pack bits pow2'.split())
            return L(o, *args(o))
        return [[call() for _ in range(30)] for _ in range(80 if tier == 'quick' else 700 if w == 8 else 2400)]

check = A05()
