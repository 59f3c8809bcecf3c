from vf import *

def cst(nb, w, pos=''):
    return 'CONSTANTS NB = %d W = %d Strict = FALSE Pos = {%s}\n' % (nb, w, pos)
def mc(nb, w, pos):
    return ('%d bitsets of %d' % (nb, w), cst(nb, w, pos) + 'INVARIANT Within Limbs TextTrip\n', True, 'Bitset', '%d' % w)
def drv(nb, w, tag=''):
    return dict(name='bitset', flags=['-DDRV_W=%d' % w, '-DDRV_N=%d' % nb], consts=cst(nb, w), tag=tag, w=w)

class C07(Check):
    prop = 'C07'
    spec = 'Bitset'
    mcs = [mc(2, 3, '0,1,2'), mc(1, 33, '0,5,31,32'), mc(1, 32, '0,15,16,31')]
    mcs_thorough = [mc(2, 4, '0,1,2,3'), mc(1, 33, '0,5,9,31,32'), mc(1, 32, '0,5,15,16,31')]
    drivers = [drv(2, 3, '3'), drv(2, 4, '4'), drv(1, 33, '33'), drv(1, 32, '32')] + [drv(3, w) for w in (1, 5, 31, 32, 33, 64, 70, 100)]
    limit = 10000
    assumptions = ['bit ranges lie within one 32-bit word and their end is a bit of the same word, as the assertions demand', 'single bit positions are within the width']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        r = rnd.randrange
        out = []
        W = d['w']
        for _ in range(120 if tier == 'quick' else 3000):
            s = []
            for _ in range(rnd.choice([10, 40, 100])):
                k = r(1, 4)
                o = rnd.choice(['flip', 'set', 'set1', 'reset', 'set_range', 'set_range', 'get_range', 'from_num', 'from_text', 'query', 'query'] * 2 +
                               ['flip_all', 'set_all', 'reset_all', 'clear', 'not', 'and_to', 'or_to', 'xor_to', 'copy', 'text_copy', 'equal', 'equal', 'and', 'or', 'xor'])
                if o in ('flip', 'set1', 'reset'): s.append(L(o, k, r(W)))
                elif o == 'set': s.append(L(o, k, r(W), r(2)))
                elif o in ('set_range', 'get_range'):
                    w = r((W + 31) // 32) * 32
                    f, l = sorted(min(w + r(32), W - 1) for _ in 'ab')
                    v = rnd.getrandbits(max(1, l - f)) if l > f else 0
                    if r(4) == 0: v = (1 << (l - f)) - 1
                    s.append(L(o, k, f, l, [v & 0xffff, v >> 16]))
                elif o == 'from_num': s.append(L(o, k, [rnd.choice([0, 1, 0x8000, 0xffff, r(65536)]), rnd.choice([0, 1, 0x8000, 0xffff, r(65536)])]))
                elif o == 'from_text': s.append(L(o, k, [rnd.choice([48, 49]) for _ in range(rnd.choice([0, 1, W - 1, W, W, W + 1, W + 40]))]))
                elif o in ('and', 'or', 'xor'): s.append(L(o, k, r(1, 4), r(1, 4)))
                elif o in ('not', 'and_to', 'or_to', 'xor_to', 'copy', 'text_copy', 'equal'): s.append(L(o, k, r(1, 4)))
                else: s.append(L(o, k))
            out.append(s)
        return out

check = C07()
