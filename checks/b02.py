from vf import *

# descriptors of the driver's kinds
def num(n, signed=False): return ('num', n)
S, M = ('str',), ('str',)
vec = lambda t: ('vec', t)
def st(t): return ('set', t)
KINDS = {1: num(1), 2: num(2), 3: num(4), 4: num(8), 5: num(1), 6: num(2), 7: num(4), 8: num(8), 9: ('bool',), 10: num(4), 11: num(8), 12: num(4), 13: S, 14: M,
         15: ('seq', num(1), num(4)), 16: ('seq', num(4), num(8)), 17: ('seq', S, num(2)), 18: ('seq', num(8), S), 19: ('seq', num(1), num(1), num(1)),
         20: ('seq',) + (num(1),) * 3, 21: ('seq',) + (num(8),) * 2, 22: ('seq', S, S), 23: ('seq',) + (num(2),) * 5, 24: ('seq', S, S), 25: ('seq',) + (('bool',),) * 32, 26: ('seq',) + (('bool',),) * 100,
         27: vec(num(1)), 28: vec(num(2)), 29: vec(num(4)), 30: vec(num(8)), 31: vec(('bool',)), 32: vec(S), 33: vec(vec(num(8))), 34: vec(vec(num(1))),
         35: vec(('seq', num(8), num(4))), 36: vec(('seq', S, num(8))), 37: vec(('seq', num(8), num(8))), 38: vec(M),
         39: st(num(4)), 40: st(S), 41: ('mset', num(8)), 42: ('map', num(4), S), 43: ('map', S, num(8)), 44: ('map', S, vec(S)), 45: ('map', num(2), num(8)), 46: ('map', num(4), st(num(8))),
         47: vec(('seq', S, num(1), num(1))), 48: vec(('seq',) + (num(1),) * 4), 49: num(8), 50: ('seq', num(1), num(8), num(2), num(4)), 51: vec(num(2)), 52: vec(S), 53: vec(st(num(8))), 54: vec(('seq', num(8), num(8))),
         55: ('seq', vec(num(8)), num(1)), 56: vec(('seq', num(1), vec(num(8)))), 57: ('map', num(8), ('map', num(1), num(8))), 58: vec(('seq',) + (('bool',),) * 40),
         60: ('zero',), 61: num(8), 62: ('text',), 63: ('text',), 64: ('text',), 65: ('seq', ('errno',), ('text',), ('one',)), 66: ('seq', ('errno',), ('text',), ('one',), ('text',)),
         67: ('seq', ('errno',), ('text',), ('one',), ('three',), num(8), num(8), num(8)), 68: ('seq', ('zero',), ('one',))}

def value(rnd, d, big):
    """(sort key, list of integers)"""
    k, r = d[0], rnd.randrange
    if k == 'num':
        b = [rnd.choice([0, 255, r(256)]) for _ in range(d[1])] if rnd.random() < .7 else [r(4)] + [0] * (d[1] - 1)
        return tuple(reversed(b)), b
    if k == 'bool': b = r(2); return b, [b]
    if k in ('zero', 'one'): return 0, [0 if k == 'zero' else 1]
    if k == 'three': return 0, [r(3)]
    if k == 'errno': return 0, [rnd.choice([0, 1, 2, 5, 13, 22, 28, 71, 133, 200])]
    if k in ('str', 'text'):
        n = rnd.choice([0, 1, 2, 3, 4, 7, 8, r(big + 1), r(big + 1), 127, 128, 130 if rnd.random() < .9 else 2050])
        if rnd.random() < .7: n = min(n, big)
        b = [r(1, 128) if k == 'text' else r(256) for _ in range(n)]
        return tuple(b), [n] + b
    if k == 'seq':
        q = [value(rnd, x, big) for x in d[1:]]
        return tuple(x[0] for x in q), sum((x[1] for x in q), [])
    n = rnd.choice([0, 0, 1, 1, 2, 3, r(big + 1)])
    if d[1][0] in ('vec', 'map', 'str') and n > 6: n = 6
    if k == 'vec':
        return 0, [n] + sum((value(rnd, d[1], big)[1] for _ in range(n)), [])
    if k in ('set', 'mset'):
        q = sorted(value(rnd, d[1], big) for _ in range(n))
        if k == 'set': q = [x for i, x in enumerate(q) if i == 0 or q[i - 1] != x]
        elif q and rnd.random() < .5: q = sorted(q + q[:1])
        return 0, [len(q)] + sum((x[1] for x in q), [])
    if k == 'map':
        q = {}
        for _ in range(n):
            a, b = value(rnd, d[1], big), value(rnd, d[2], big)
            q[a[0]] = a[1] + b[1]
        return 0, [len(q)] + sum((q[x] for x in sorted(q)), [])

class B02(Check):
    prop = 'B02'
    spec = 'Record'
    trace_consts = 'CONSTANTS MaxLen = 0 Kinds = {} Vals = {}\n'
    mcs = [('at most 3 values, bytes and byte strings', 'CONSTANTS MaxLen = 3 Kinds = {1,13} Vals = {0,255}\nINVARIANT Apart Monotone\n', True)]
    mcs_thorough = [('at most 4 values, bytes and byte strings', 'CONSTANTS MaxLen = 4 Kinds = {1,13} Vals = {0,255}\nINVARIANT Apart Monotone\n', True)]
    drivers = [dict(name='record')]
    limit = 6000
    assumptions = ['each value starts at a multiple of eight, and its parts are read by the type they were written by; damaged bytes are outside the property, missing ones are not',
                   'exceptions are read back in the process that wrote them']

    def adapt(self, seg, drv):
        # where and how long is for the implementation to say
        out = []
        for l in seg:
            if l.startswith('write '): l = l.rsplit(' ', 2)[0]
            out.append(l)
        return out

    def scripts(self, tier, rnd, drv):
        segs = []
        for k in sorted(KINDS):
            for _ in range(5 if tier == 'quick' else 60):
                segs.append(self.kind(rnd, k))
        return segs + [self.one(rnd) for _ in range(450 if tier == 'quick' else 8000)]

    def kind(self, rnd, k):
        r = rnd.randrange
        big = rnd.choice([2, 4, 9])
        s = [L('write', k, value(rnd, KINDS[k], big)[1]) for _ in range(3)]
        for i in range(3):
            s += [L('solo', i), L('onto', i, r(3)), L('next')]
            if k == 14: s += [L('into', i, m, 0) for m in range(12)] + [L('into', i, 4000, c) for c in range(9)]
            s += [L('cut', i, m, rnd.choice([0, 7])) for m in list(range(12)) + [r(200) for _ in range(4)]]
            s += [L('tight', i, m, rnd.choice([0, 7])) for m in [0, 1, 3, 4, 7, 8, 12] + [r(100) for _ in range(3)]]
        return s + [L('prefix', r(8 * rnd.choice([1, 2, 4, 16, 64])), rnd.choice([0, 7])) for _ in range(12)]

    def one(self, rnd):
        r = rnd.randrange
        big = rnd.choice([2, 4, 9, 20])
        s, n = [], 0
        for _ in range(rnd.choice([8, 16])):
            if rnd.random() < .5:
                k = rnd.choice(sorted(KINDS)) if rnd.random() < .9 else 14
                s.append(L('write', k, value(rnd, KINDS[k], big)[1]))
                n += 1
            else:
                o = rnd.choice(['next', 'next', 'solo', 'prefix', 'cut', 'tight'])
                if o == 'next': s.append(L(o))
                elif o == 'solo' and r(3): s.append(L(o, r(n + 1)))
                elif o == 'solo': s.append(L('into', r(n + 1), rnd.choice([r(10), 200, 4000]), rnd.choice([0, 0, 0, 1, 4, 9])))
                elif o == 'prefix': s.append(L(o, r(rnd.choice([40, 200, 800])), rnd.choice([0, 7])))
                else: s.append(L(o, r(n + 1), r(rnd.choice([10, 60])), rnd.choice([0, 7])))
        return s + [L('next')] * n

check = B02()
