from vf import *

class S02(Check):
    prop = 'S02'
    spec = 'Search'
    trace_consts = 'CONSTANTS NS = 3 MaxLen = 0 Chars = {}\n'
    mcs = [('text of at most 4 bytes, pattern of at most 3', 'CONSTANTS NS = 3 MaxLen = 4 Chars = {97,200}\nINVARIANT OrderOK SearchOK\n', True)]
    mcs_thorough = [('text of at most 5 bytes, pattern of at most 3', 'CONSTANTS NS = 3 MaxLen = 5 Chars = {97,200}\nINVARIANT OrderOK SearchOK\n', True),
                    ('text of at most 3 of three bytes', 'CONSTANTS NS = 3 MaxLen = 3 Chars = {0,97,200}\nINVARIANT OrderOK SearchOK\n', True)]
    drivers = [dict(name='search')]
    limit = 60000
    assumptions = ['an empty pattern is found nowhere; a substring searched backward ends at or before the position (the documented "before pos")']

    def scripts(self, tier, rnd, drv):
        return [self.one(rnd) for _ in range(1200 if tier == 'quick' else 15000)]

    def one(self, rnd):
        r = rnd.randrange
        alpha = rnd.choice([[97], [97, 98], [97, 98, 0], [127, 128, 255, 97], list(range(256)), [120, 121, 122]])
        ch = lambda: rnd.choice(alpha)
        big = rnd.choice([3, 8, 30, 200])
        texts = [[], [], []]
        s = []
        def setk(k):
            t = [ch() for _ in range(r(big + 1))]
            if k != 1 and texts[0]:
                # something that occurs, or nearly
                m = rnd.choice(['piece', 'piece', 'near', 'rep', 'same', 'rand', 'ext'])
                i = r(len(texts[0])); t2 = texts[0][i:i + r(1, 6)]
                if m == 'piece': t = t2
                elif m == 'near': t = t2[:]; t[r(len(t))] = ch()
                elif m == 'rep': t = [ch()] * r(1, 4)
                elif m == 'same': t = list(texts[0])
                elif m == 'ext': t = texts[0] + [ch()]
            texts[k - 1] = t
            s.append(L('set', k, t))
        for k in (1, 2, 3): setk(k)
        pos = lambda: rnd.choice([-1, 0, r(big + 2), r(big + 2), max(0, len(texts[0]) - r(4)), len(texts[0]) + r(3)])
        for _ in range(r(10, 40)):
            o = rnd.choice(['set', 'find_s', 'find_s', 'find_p', 'find_c', 'rfind_s', 'rfind_s', 'rfind_p', 'rfind_c', 'of_s', 'of_p', 'of_c', 'deflt', 'cmp', 'cmp', 'cmp_z', 'cmp_ch', 'cmp_r', 'cmp_r', 'cmp_rz', 'hash'])
            k = 1 if rnd.random() < .8 else r(1, 4)
            j = r(1, 4)
            if o == 'set': setk(r(1, 4))
            elif o in ('find_s', 'rfind_s', 'of_s'): s.append(L(o, k, j, pos()))
            elif o in ('find_p', 'rfind_p', 'of_p'): s.append(L(o, k, j, pos(), r(big + 1)))
            elif o in ('find_c', 'rfind_c', 'of_c'): s.append(L(o, k, ch(), pos()))
            elif o == 'cmp_ch': s.append(L(o, k, ch()))
            elif o in ('cmp_r', 'cmp_rz'): s.append(L(o, k, j, pos(), rnd.choice([0, 1, 2, r(big + 1), -1]), pos(), r(big + 1)))
            else: s.append(L(o, k, j))
        return s

check = S02()
