from vf import *

TSAN = dict(san=False, link=['-fno-sanitize=thread'])
class P02(Check):
    prop = 'P02'
    spec = 'Atom'
    mcs = [('%d byte atomics: six sets of programs of three threads' % w, 'CONSTANT W = %d\nINVARIANTS Exclusion Explained\n' % w, True, 'Atom', 'a%d' % w) for w in (1, 4, 8)] + \
          [('shared pointers: four sets of programs of three threads', 'CONSTANT Len3 = 3\nINVARIANTS Exact Explained\n', True, 'Share', 's')]
    drivers = [dict(TSAN, name='atom', flags=['-fsanitize=thread', '-DDRV_T=' + t], consts='CONSTANT W = %d\n' % w, tag='a%d' % w) for t, w in (('uint8_t', 1), ('int32_t', 4), ('uint64_t', 8))]
    drivers += [dict(TSAN, name='share', flags=['-fsanitize=thread'], spec='Share', consts='CONSTANT Len3 = 1\n', tag='s')]
    assumptions = ['threads are coroutines of one process, switched at memory accesses as the compiler instruments them; the memory model is in the specification, not in the machine',
                   'published data is read only after its publication was seen, locked data only under the lock']

    def atom(self, rnd):
        r = rnd.randrange
        v = lambda: rnd.choice([0, 1, 2, 3, 7, 63, 64, 127, 128, 200, 255, r(256)])
        kind = r(6)
        def ins():
            k = r(100)
            if kind == 0: return [rnd.choice([28, 28, 30, 29]), 0, 1, 0, 0]
            o = rnd.choice([7, 8, 12, 13, 19, 20, 21, 22, 23, 24, 2, 3]) if kind == 1 else rnd.choice(list(range(1, 28)) + [31, 34, 35])
            return [o, 6, r(1, 3) if kind != 1 else 1, v(), v()]
        def order(i):
            o = i[0]
            if o in (1, 18, 35): i[1] = rnd.choice([0, 3, 5, 6])
            elif o in (2, 17): i[1] = rnd.choice([0, 1, 2, 5, 6])
            elif o == 28: i[1] = rnd.choice([1, 2, 4, 5, 6])
            elif o in (29, 32): i[1] = rnd.choice([3, 5, 6])
            elif o == 33: i[1] = rnd.choice([1, 2, 5, 6])
            elif o in (5, 6): i[1] = rnd.choice([0, 1, 2, 3, 4, 5]) + 10 * rnd.choice([0, 1, 2, 5])
            elif o < 28 or o == 34: i[1] = rnd.choice([0, 1, 2, 3, 4, 5, 6, 6])
            if o in (4, 5, 6) and r(2): i[4] = 0
            return i
        p = []
        for t in range(3):
            n = r(1, 5)
            if kind == 0: x = [[28], [30], [29]] * r(1, 3); x = [[i[0], 0, 1, 0, 0] for i in x]
            elif kind == 2: x = [[32 if t == 0 and r(2) else 33, 0, 1, 0, 0] if r(3) else [rnd.choice([36, 37]), 0, 1, 0, 0] for _ in range(n)]
            else: x = [ins() for _ in range(n)]
            if kind > 3: # the same number, for certain
                for i in x: i[2] = 1
            p.append(sum((order(i) for i in x), []))
        return L('begin', *p)

    def share(self, rnd):
        r = rnd.randrange
        nid = iter(rnd.sample(range(3, 9), 6))
        p = []
        kind = r(3)
        for t in range(3):
            x = []
            for _ in range(r(1, 5)):
                o = rnd.choice([1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9]) if kind else rnd.choice([1, 3, 3, 9, 8])
                if o == 4:
                    n = next(nid, 0)
                    if n: x += [4, r(1, 4), n]
                else: x += [o, r(1, 4), r(1, 4)]
            if kind == 0: x += rnd.choice([[3, 1, 1, 3, 2, 1], [3, 1, 1], [3, 2, 1, 3, 1, 1]])
            p.append(x)
        return L('begin', *p)

    def schedule(self, rnd):
        r = rnd.randrange
        s = []
        c = rnd.choice([2, 3, 5, 9, 14])
        for _ in range(c):
            s.append(L('go', r(1, 4), rnd.choice([0, 1, 1, 1, 2, 2, 3, 4, 6, 9, 14])) if r(9) else L('one', r(1, 4), 0, []))
        for t in rnd.sample([1, 2, 3], 3): s.append(L('go', t, 9999))
        return s

    def scripts(self, tier, rnd, d):
        n = 1200 if tier == 'quick' else 30000
        return [[self.share(rnd) if d['tag'] == 's' else self.atom(rnd)] + self.schedule(rnd) for _ in range(n)]

check = P02()
