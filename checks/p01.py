from vf import *

NAMES = ['auto_ptr', 'unique_ptr', 'unique_ptr of arrays', 'shared_ptr']
def own(k, nr=3, no=6, vals='0'): return 'CONSTANTS Kind = %d NR = %d NObj = %d Vals = {%s}\n' % (k, nr, no, vals)

class P01(Check):
    prop = 'P01'
    spec = 'Own'
    mcs = [('%s: 2 pointers, 3 objects' % NAMES[k], own(k, 2, 3) + 'INVARIANTS Exact Sole\n', False, 'Own') for k in (0, 3)] + \
          [('%s: 3 pointers, 2 objects' % NAMES[k], own(k, 3, 2) + 'INVARIANTS Exact Sole\n', True, 'Own', 'o%d' % k) for k in range(4)] + \
          [('guards: 2 of each kind', 'CONSTANTS NG = 2 Vals = {4, 5}\n', True, 'Guard', 'g')]
    drivers = [dict(name='own', flags=['-DDRV_KIND=%d' % k], consts=own(k), tag='o%d' % k) for k in range(4)] + \
              [dict(name='guard', flags=f, spec='Guard', consts='CONSTANTS NG = 3 Vals = {}\n', tag='g') for f in ([], ['-DDRV_BOX'])]
    assumptions = ['pointers do not form rings; a pointer is not reset to the object it already owns (but auto_ptr may be)', 'a resource is not moved into itself']

    def scripts(self, tier, rnd, d):
        n = 1500 if tier == 'quick' else 20000
        return [(self.guards if d['tag'] == 'g' else self.own)(rnd) for _ in range(n)]

    def own(self, rnd):
        r = rnd.randrange
        s = []
        h = lambda: rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
        for _ in range(rnd.choice([20, 60])):
            o = rnd.choice('new new new new drop move move copy copy recopy remake swap release adopt again write query query'.split())
            if o == 'new': s.append(L(o, h(), r(100)))
            elif o == 'write': s.append(L(o, h(), r(100)))
            elif o in ('recopy', 'remake'): s.append(L(o, r(1, 4), r(1, 4)))
            else: s.append(L(o, h(), h()))
        return s

    def guards(self, rnd):
        r = rnd.randrange
        s = []
        g = lambda: r(1, 7)
        for _ in range(rnd.choice([20, 60])):
            o = rnd.choice('make make make checked checked end release reset reset_to move move move_make move_make'.split())
            x = g()
            k = r(1, 4) if o == 'move' or x <= 3 else r(4, 7)
            s.append(L(o, x, *dict(make=(r(1, 9), r(1, 9), r(3) and 1), checked=(r(1, 4), r(1, 9), r(1, 4)), reset_to=(r(1, 9),), move=(k,), move_make=(k,)).get(o, (0,))))
        return s

check = P01()
