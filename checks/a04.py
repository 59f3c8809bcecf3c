from vf import *

def cst(m, offs='', counts='', forms=''): return 'CONSTANTS M = %d Offs = {%s} Counts = {%s} Forms = {%s}\n' % (m, offs, counts, forms)
def raw(n, vals=''): return 'CONSTANTS N = %d Vals = {%s}\n' % (n, vals)
WIDTH = {**{f: 1 for f in range(8)}, **{f: 2 for f in range(8, 12)}, **{f: 4 for f in range(12, 18)}, 18: 8, 19: 8, 20: 3, 21: 1, 22: 4, 23: 8, 24: 20}
ALIGN = {**WIDTH, 20: 1, 24: 4}
SIZES = [448, 1664]

class A04(Check):
    prop = 'A04'
    spec = 'Block'
    mcs = [('blocks of bytes', cst(40, '0, 1, 3, 16, 24', '0, 1, 2, 4, 8, 16', '0, 3, 21') + 'INVARIANT Laws\n', True, 'Block', 40),
           ('blocks of elements', cst(40, '0, 4, 8, 20', '0, 1, 2, 3, 7', '9, 15, 16, 20, 24') + 'INVARIANT Laws\n', True, 'Block', 40),
           ('objects in raw memory', raw(4, '3') + 'INVARIANT Counted\n', True, 'Raw', 'r4', '')]
    mc_rest = '/\\ st = Pat'
    drivers = [dict(name='block', flags=['-DDRV_M=40'], consts=cst(40), tag=40)] + \
              [dict(name='block', flags=['-DDRV_M=%d' % m] + x, consts=cst(m), tag=m) for m in SIZES for x in ([], ['-O2'])] + \
              [dict(name='raw', spec='Raw', flags=['-DDRV_N=%d' % n, '-DDRV_PAD=%d' % p], consts=raw(n), tag='r%d' % n) for n, p in ((4, 1), (4, 21), (14, 1), (14, 21))]
    assumptions = ['elements are at addresses aligned for their type', 'copying within a block goes toward the side promised']

    def scripts(self, tier, rnd, d):
        m = d['tag']
        if m in (40, 'r4'): return
        if m == 'r14':
            for _ in range(200 if tier == 'quick' else 5000): yield self.objs(rnd, 14)
            return
        n = {448: 500, 1664: 60}[m] if tier == 'quick' else {448: 8000, 1664: 1500}[m]
        for _ in range(n): yield [self.one(rnd, m) for _ in range(24)]

    def one(self, rnd, m):
        r = rnd.randrange
        f = rnd.choice(list(WIDTH))
        w, al = WIDTH[f], ALIGN[f]
        lo, hi = 32, m - 32
        up = lambda x: x - x % al
        off = lambda top: up(r(lo, max(lo, top) + 1))
        o = rnd.choice('copy copy copy copyn copyn copyback copyback copyback fill fill filln filln rotate rotate swaps swap iterswap ucopy ucopyn umove umoven ufill ufilln zero destroy'.split())
        most = (hi - lo) // w
        cnt = lambda top: max(0, min(top, rnd.choice([r(4), r(20), r(70), r(most + 1), 16 // w + r(-1, 2), 32 // w + r(-1, 2), 64 // w + r(-2, 3)])))
        if o in ('fill', 'filln', 'ufill', 'ufilln'):
            n = cnt(most)
            v = [r(256) for _ in range(w)]
            if f == 16 or f == 17: v[3] &= 0x3f
            if f == 19: v[7] &= 0x3f
            return L(o, f, off(hi - n * w), n, v)
        if o in ('zero', 'destroy'):
            n = cnt(most)
            return L(o, f, off(hi - n * w), n, r(6))
        if o == 'rotate':
            n = cnt(most); k = cnt(most - n)
            return L(o, f, off(hi - (n + k) * w), *rnd.sample([n, k], 2))
        if o in ('swap', 'iterswap'): n = 1
        elif o in ('copy', 'copyn', 'copyback'): n = cnt(most)
        else: n = cnt(most // 2)
        for _ in range(50):
            a = off(hi - n * w)
            near = rnd.choice([1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33]) * al
            b = rnd.choice([off(hi - n * w), a + near, a - near, a])
            if b < lo or b + n * w > hi: continue
            if a + n * w <= b or b + n * w <= a or (o in ('copy', 'copyn') and b <= a) or (o == 'copyback' and b >= a): break
        else: return L('zero', f, up(lo), 0, 0)
        if o in ('swap', 'iterswap'): return L(o, f, a, b)
        return L(o, f, a, n, b)

    def objs(self, rnd, n):
        r = rnd.randrange
        s = [L('set', [r(1, 1000) if r(3) else 0 for _ in range(n)])]
        for _ in range(60):
            o = rnd.choice('set ucopy ucopyn umove umoven ufill ufilln ufill make make destroy destroy copy copyn copyback fill filln swaps rotate'.split())
            k = rnd.choice([0, 1, 1, 1, 2, 2, 3, 4])
            if o == 'set':
                if r(4) == 0: s.append(L('set', [r(1, 1000) if r(3) else 0 for _ in range(n)]))
            elif o == 'rotate': s.append(L(o, r(n), k, r(4)))
            elif o in ('make', 'destroy'): s.append(L(o, r(n + 1), k, r(12)))
            elif 'fill' in o: s.append(L(o, r(n + 1), k, r(1, 1000)))
            else: s.append(L(o, r(n + 1), k, r(n + 1)))
        return s

check = A04()
