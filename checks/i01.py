from vf import *

KINDS = {1: 'reverse', 2: 'reverse of const', 3: 'reverse of reverse', 4: 'move', 5: 'reverse of move', 6: 'move of reverse', 7: 'index', 8: 'reverse of index', 9: 'pointer'}
def walk(k, n=3, vals='', m=0): return 'CONSTANTS Kind = %d NS = %d Vals = {%s} MaxLen = %d\n' % (k, n, vals, m)

CTRS = {1: 'vector', 2: 'list', 3: 'string', 4: 'set', 5: 'multiset'}
def ins(k, vals='', m=0): return 'CONSTANTS Kind = %d Vals = {%s} MaxLen = %d\n' % (k, vals, m)
TYPES = {'u1': ('uint8_t', 1, 0), 'i1': ('int8_t', 1, 1), 'i2': ('int16_t', 2, 1), 'i4': ('int32_t', 4, 1)}
def func(t, vals='', codes=''): return 'CONSTANTS W = %d Signed = %d Vals = {%s} Codes = {%s}\n' % (TYPES[t][1], TYPES[t][2], vals, codes)

class I01(Check):
    prop = 'I01'
    spec = 'Walk'
    mcs = [('%s iterator: up to %d values' % (KINDS[k], 2 if k in (7, 8) else 3), walk(k, 2, '6' if k in (7, 8) else '5, 6', 2 if k in (7, 8) else 2) + 'INVARIANT Order\n', True, 'Walk', 'w%d' % k) for k in KINDS] + \
          [('inserting into a %s: up to 3 values' % CTRS[k], ins(k, '1, 2', 3) + 'INVARIANTS InRange Ordered\nCONSTRAINT Small\n', True, 'Inserter', 'i%d' % k) for k in CTRS] + \
          [('functions of %s' % TYPES[t][0], func(t, '0, 2, 100' if t != 'u1' else '0, 2, 200', ', '.join(map(str, range(1, 16)))) + 'INVARIANT Laws\nCONSTRAINT Near\n', True, 'Func', t) for t in TYPES]
    drivers = [dict(name='walk', flags=['-DDRV_KIND=%d' % k], consts=walk(k), tag='w%d' % k) for k in KINDS] + \
              [dict(name='inserter', flags=['-DDRV_KIND=%d' % k], spec='Inserter', consts=ins(k), tag='i%d' % k) for k in CTRS] + \
              [dict(name='func', flags=['-DDRV_T=' + TYPES[t][0], '-O0'], spec='Func', consts=func(t), tag=t) for t in TYPES]
    limit = 5000
    assumptions = ['iterators stay within the range they walk']

    def scripts(self, tier, rnd, d):
        n = 120 if tier == 'quick' else 3000
        if d['tag'] in TYPES: return [self.func(rnd, d['tag']) for _ in range(n)]
        return [(self.walk if d['tag'][0] == 'w' else self.insert)(rnd, int(d['tag'][1:])) for _ in range(n)]

    def walk(self, rnd, k):
        r = rnd.randrange
        s = []
        def fill():
            m = rnd.choice([0, 1, 2, 5, 9])
            x = [r(m) for _ in range(rnd.choice([0, 1, 3, 8]))] if k in (7, 8) and m else []
            s.append(L('set', [r(1, 200) for _ in range(m)], x))
        fill()
        for _ in range(60):
            o = rnd.choice('set at at ends copy step step step step shift shift shift plus plus pair pair pair read read read write take range loop helpers'.split())
            i, j = r(1, 4), r(1, 4)
            if o == 'set': fill()
            elif o == 'at': s.append(L(o, i, r(10)))
            elif o in ('ends', 'copy', 'range', 'pair'): s.append(L(o, i, j, r(5)))
            elif o == 'step': s.append(L(o, i, r(4)))
            elif o == 'shift': s.append(L(o, i, r(-4, 5), r(6)))
            elif o == 'plus': s.append(L(o, i, j, r(-4, 5), r(2)))
            elif o in ('read', 'take'): s.append(L(o, i, rnd.choice([0, 0, r(-3, 4)])))
            elif o == 'write': s.append(L(o, i, rnd.choice([0, 0, r(-3, 4)]), r(1, 200)))
            else: s.append(L(o, r(10)))
        return s

    def insert(self, rnd, k):
        r = rnd.randrange
        s = []
        v = lambda: [r(1, 121) for _ in range(rnd.choice([0, 1, 1, 2, 3, 9]))]
        for _ in range(40):
            o = rnd.choice('set at at put put put put send back front'.split())
            s.append(L(o, r(12)) if o == 'at' else L('send', v(), r(1, 121), r(5)) if o == 'send' else L(o, v(), r(5 if o == 'put' else 6)))
        return s

    def func(self, rnd, t):
        r = rnd.randrange
        lo, hi = dict(u1=(0, 256), i1=(-128, 128), i2=(-32768, 32768), i4=(-90, 91))[t]
        n = lambda: rnd.choice([0, 1, 2, 3, lo, hi - 1, r(lo, hi), r(lo, hi), r(max(lo, -5), 6)])
        tiny = lambda: rnd.choice([[2], [3], [4, 1, n()], [5, 13, n()]])
        lite = lambda: rnd.choice([[0], [1], [6], [5, 2, n()], [5, 16, n()], tiny(), tiny()])
        leaf = lambda: rnd.choice([[4, r(20), n()], [5, r(20), n()], lite()])
        code = lambda: rnd.choice([leaf(), leaf(), leaf(), [7] + leaf(), [7, 8] + lite() + lite(), [8] + lite() + lite(), [9, r(20)] + tiny() + tiny(), [9, r(20)] + tiny() + tiny(), [8, 8] + tiny() + tiny() + [9, 0] + tiny() + tiny()])
        def call():
            o = rnd.choice('unary unary unary unary binary binary binary project assign bump get take peek var var vars vars varinc compare compare bumpall search'.split())
            k, j, m = r(1, 4), r(1, 4), r(1, 3)
            if o == 'unary': return L(o, code(), n())
            if o == 'binary' and t == 'i4' and r(2):   # numbers far apart, where nothing can overflow
                w = lambda: rnd.choice([2147483647, -2147483647, 2147483000 - r(9), -2147480000 - r(9), r(-2**31 + 1, 2**31), n()])
                return L(o, r(5, 19), w(), w())
            if o == 'binary': return L(o, r(20), n(), n())
            if o == 'project': return L(o, n(), r(-100000, 100000))
            if o == 'assign': return L(o, k, n(), n())
            if o in ('bump', 'get'): return L(o, k, r(2))
            if o in ('take', 'peek'): return L(o, k, n())
            if o == 'var': return L(o, k, m, lite())
            if o == 'vars': return L(o, k, j, m, r(20))
            if o == 'varinc': return L(o, k, m)
            if o == 'compare': return L(o, k, j, n())
            return L(o, r(2) if o == 'bumpall' else n())
        return [call() for _ in range(60)]

check = I01()
