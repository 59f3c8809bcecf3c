from vf import *

def cst(tags, part, ln=0, vals=()):
    return 'CONSTANTS Tags = %d Part = %d MaxLen = %d Vals = {%s}\n' % (tags, part, ln, ','.join(map(str, vals)))

class Algo(Check):
    spec = 'Algo'
    def __init__(self):
        p = self.part
        inv = 'INVARIANT %s\n' % ['SearchOK', 'ReorderOK', 'SortOK'][p - 1]
        a, b = self.sizes
        self.mcs = [('every array of at most %d keys' % a, cst(0, p, a, (1, 2, 3)) + inv, True, 'Algo', 'k'),
                    ('every array of at most %d of elements equal and not the same' % b, cst(1, p, b, (9, 17, 18)) + inv, True, 'Algo', 't')]
        if p == 2: self.mc_rest = '/\\ (N2 = 0 \\/ st[2] = [n \\in 1..N2 |-> 30 + n]) /\\ (\\A n \\in 1..N1 : st[1][n] \\in Vals)'
        self.drivers = [self.drv(t, g) for t, g in (('int32_t', 'k'), ('uint8_t', 'k'), ('Tagged', 't'), ('Obj', 't'))]
    def drv(self, t, tag):
        return dict(name='algo', flags=['-DDRV_T=' + t, '-DDRV_PART=%d' % self.part], consts=cst(tag == 't', self.part), tag=tag)

    def adapt(self, seg, drv):
        # the container forms instead of the whole range by pointers, sometimes
        out = []
        for n, l in enumerate(seg):
            f = l.split(' ')
            if f[0] == 'set': size = 0 if f[2] == '[]' else f[2].count(',') + 1
            if f[0] == 'set' and f[1] == '1': n1 = size
            elif len(f) > 4 and f[1] == '0' and f[2] == '1' and f[3] == '0' and hash((n, len(seg))) % 3 and 'n1' in locals() and f[4] == str(n1) and f[0] not in ('values', 'clamp', 'fill_n', 'generate_n', 'shift', 'shift_right', 'swap_ranges', 'iter_swap', 'rotate', 'partition', 'stable_partition', 'remove_copy_at', 'copy_backward', 'reverse_copy', 'rotate_copy'):
                f[1] = '1' if hash(n) % 3 else '3'
            out.append(' '.join(f))
        return out

    def scripts(self, tier, rnd, d):
        return [self.one(rnd, d['tag'] == 't') for _ in range(self.count[tier != 'quick'])]

    def elems(self, rnd, tags, n, hi):
        return [rnd.randrange(1, hi + 1) * 8 + rnd.randrange(8) if tags else rnd.randrange(1, hi + 1) for _ in range(n)]

    def key(self, tags, c):
        k = (lambda e: e // 8) if tags else (lambda e: e)
        return k if c == 0 else (lambda e: -k(e)) if c == 1 else (lambda e: k(e) // 4)

    def one(self, rnd, tags):
        r = rnd.randrange
        hi = rnd.choice([2, 3, 12]) if tags else rnd.choice([2, 3, 12, 110])
        top = rnd.choice([4, 4, 9, 40])
        s = []
        v = [[], []]
        def setk(k, x):
            v[k] = x; s.append(L('set', k + 1, x))
        for _ in range(6):
            setk(0, self.elems(rnd, tags, r(top + 1), hi)); setk(1, self.elems(rnd, tags, r(top + 1), hi))
            for _ in range(6):
                k = r(2); n = len(v[k]); m = rnd.choice([0, 0, 1, 2, 2, 3])
                i, j = (0, n) if m % 2 or r(3) == 0 else sorted((r(n + 1), r(n + 1)))
                self.calls(rnd, s, tags, hi, v, k, m, i, j, lambda: self.elems(rnd, tags, 1, hi)[0])
                if self.part > 1: break
        return s

class A01(Algo):
    prop = 'A01'
    part = 1
    sizes = (3, 2)
    count = (400, 12000)
    assumptions = ['which of several greatest elements minmax_element returns is not constrained']
    def calls(self, rnd, s, tags, hi, v, k, m, i, j, e):
        r = rnd.randrange
        h = [m, k + 1, i, j]
        w = v[1 - k]
        o = rnd.choice(['find', 'find_if', 'count', 'count_if', 'for_each', 'adjacent', 'extremes', 'minmax', 'listed', 'mismatch', 'equal', 'search', 'search', 'find_end', 'find_end', 'first_of', 'lexcmp', 'search_n', 'values', 'clamp'])
        if o in ('find', 'count'): s.append(L(o, *h, e()))
        elif o == 'for_each': s.append(L(o, *h))
        elif o == 'values': s.append(L(o, 0, e(), e(), r(3)))
        elif o == 'clamp': s.append(L(o, 0, e(), e(), e(), r(3)))
        elif o in ('mismatch', 'equal'):
            if j - i > len(w): return
            p = r(len(w) - (j - i) + 1)
            if r(2):  # make them nearly the same
                w[p:p + j - i] = v[k][i:j]
                if r(2) and j > i: w[p + r(j - i)] = e()
                s.append(L('set', 2 - k, w))
            s.append(L(o, *h, r(3), p))
        elif o == 'search_n': s.append(L(o, *h, r(3), rnd.choice([0, 1, 1, 2, 2, 3, 5]), e()))
        elif o in ('search', 'find_end', 'first_of', 'lexcmp'):
            if r(2) and j > i:
                x, y = sorted((r(j - i + 1), r(j - i + 1)))
                w = v[1 - k] = v[k][i:j][x:y]
                if r(4) == 0 and w: w[-1] = e()
                s.append(L('set', 2 - k, w))
                s.append(L(o, *h, r(3), 0, len(w)))
            else:
                p, q = sorted((r(len(w) + 1), r(len(w) + 1)))
                s.append(L(o, *h, r(3), p, min(q, p + rnd.choice([1, 2, 50]))))
        else: s.append(L(o, *h, r(3)))

check = A01()
