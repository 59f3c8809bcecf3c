from vf import *

def limbs(v, n): return [(v >> (16 * i)) & 0xffff for i in range(n)]

class T01(Check):
    prop = 'T01'
    spec = 'Textout'
    trace_consts = 'CONSTANTS NS = 2 MaxLen = 0 Vals = {}\n'
    mcs = [('1 stream, at most 3 bytes of text', 'CONSTANTS NS = 1 MaxLen = 3 Vals = {1}\nINVARIANT Position ReadsBack\n', True)]
    mcs_thorough = [('1 stream, at most 4 bytes of text', 'CONSTANTS NS = 1 MaxLen = 4 Vals = {1}\nINVARIANT Position ReadsBack\n', True)]
    mc_rest = "/\\ \\A k \\in K : Len(st'[k].b) <= MaxLen"
    drivers = [dict(name='textout')]
    limit = 5000
    assumptions = ['floating point values are multiples of 1/256, whose digits are all exact; seeking is within the text written']

    def scripts(self, tier, rnd, drv):
        return [self.numbers(rnd) for _ in range(120 if tier == 'quick' else 1500)] + [self.one(rnd) for _ in range(800 if tier == 'quick' else 9000)]

    def settings(self, rnd, k):
        r = rnd.randrange
        o = rnd.choice(['manip'] * 4 + ['width', 'setw', 'iosw', 'fill', 'setfill', 'precision', 'setp', 'setiosflags', 'resetiosflags', 'flags', 'setf', 'unsetf', 'setfm', 'base'])
        bits = [2, 8, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384]
        if o == 'manip': return L(o, k, rnd.choice(bits))
        if o in ('width', 'setw', 'iosw'): return L(o, k, rnd.choice([0, 0, 1, 4, 7, 12, 30, r(80), 400 if rnd.random() < .1 else 9]))
        if o in ('fill', 'setfill'): return L(o, k, rnd.choice([48, 48, 32]))
        if o in ('precision', 'setp'): return L(o, k, rnd.choice([0, 1, 2, 3, 6, 8, 12, r(40)]))
        if o == 'base': return L(o, k, rnd.choice([8, 10, 16]))
        f = sum(rnd.choice([0, 0, 0, b]) for b in bits)
        if f & 256 and f & 512 and rnd.random() < .7: f -= 256
        if o == 'setfm': return L(o, k, rnd.choice([256, 512, 128, 4096, 8192, 2048]), rnd.choice([896, 3072, 28672]))
        return L(o, k, f)

    def number(self, rnd, k):
        r = rnd.randrange
        if rnd.random() < .3:
            f = r(3)
            m = rnd.choice([0, 1, 9, 99, 999, r(100), r(32768), 65535]) if f == 0 else rnd.choice([0, 0, 1, 9, 10, 99, 999999, r(100), r(10 ** 6), r(2 ** 31)])
            return L('float', k, f, r(2), m, rnd.choice([0, 0, 128, 1, 255, 64, 32, 96, 160, r(256)]) & (0xf0 if f == 0 and m > 4095 else 0xff))
        t = rnd.choice([1, 2, 2, 4, 5, 6])
        n = {1: 1, 2: 2, 4: 4, 5: 4, 6: 4}[t]
        b = 16 * n
        v = rnd.choice([0, 1, 7, 8, 9, 10, 255, 2 ** (b - 1) - 1, 2 ** (b - 1), 2 ** b - 1, 2 ** b - 8, r(2 ** b), r(2 ** b) >> r(b), -r(1000) % 2 ** b])
        return L('int', k, t, 0 if t == 6 else r(2), limbs(v, n))

    def txt(self, rnd, zero=True):
        r = rnd.randrange
        n = rnd.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, r(70)])
        if rnd.random() < .03: n = rnd.choice([500, 1024, 4095, 4097])
        return [r(0 if zero and rnd.random() < .1 else 1, 256) if rnd.random() < .3 else r(97, 123) for _ in range(n)]

    def cont(self, rnd, k):
        r = rnd.randrange
        c = r(1, 18)
        iv = lambda: rnd.choice([0, 1, -1, 7, 10, 255, -255, 32767, -2 ** 31, 2 ** 31 - 1, r(-1000, 1000)])
        n = rnd.choice([0, 1, 2, 3, r(12)])
        if c in (1, 12, 17): q = [iv() for _ in range(n)]
        elif c in (2, 14, 16): q = [rnd.choice([0, 31, 32, 39, 65, 126, 127, 128, 255]) for _ in range(n)]
        elif c == 3: q = [rnd.choice([-128, -1, 0, 31, 32, 65, 126, 127]) for _ in range(n)]
        elif c == 4: q = sum(([len(t)] + t for t in (self.txt(rnd)[:20] for _ in range(n))), [])
        elif c == 5: q = [iv(), iv()]
        elif c == 6: q = sum(([x, iv()] for x in sorted({iv() for _ in range(n)})), [])
        elif c == 7: q = sum(([len(t)] + t for t in ([iv() for _ in range(r(4))] for _ in range(n))), [])
        elif c in (8, 10): q = [iv() for _ in range(4)]
        elif c == 9: q = [iv() for _ in range(3)]
        elif c == 11: q = [r(2) for _ in range(40)]
        elif c == 13: q = [r(2) for _ in range(n)]
        else: t = self.txt(rnd)[:20]; q = [len(t)] + t + [iv() for _ in range(n)]
        if c == 12: q = sorted(set(q))
        return L('cont', k, c, q)

    def numbers(self, rnd):
        s = []
        for _ in range(14):
            if rnd.random() < .5: s.append(self.settings(rnd, 1))
            else: s += [self.number(rnd, 1), L('chr', 1, 4, 124)]
        return s

    def one(self, rnd):
        r = rnd.randrange
        s = []
        for _ in range(20):
            k = r(1, 3)
            x = rnd.random()
            if x < .08:
                o = rnd.choice(['new', 'fixed', 'fixed', 'link', 'setstr'])
                s.append(L(o, k, self.txt(rnd)) if o in ('new', 'setstr') else L(o, k, rnd.choice([0, 1, 2, 3, 4, 8, 16, r(64)])) if o == 'fixed' else L(o, k, rnd.choice([0, 1, 5, 8, 40]), r(2)))
            elif x < .2: s.append(self.settings(rnd, k))
            elif x < .4: s.append(self.number(rnd, k))
            elif x < .5: s.append(self.cont(rnd, k))
            elif x < .62: s.append(L('text', k, *(lambda v: [v, self.txt(rnd, v not in (0, 4, 5))])(r(7))))
            elif x < .7: s.append(L('chr', k, r(6), rnd.choice([0, 10, 65, 127, 128, 255])))
            elif x < .73: s.append(L('wchr', k, rnd.choice([0, 65, 127, 128, 2047, 2048, 65535, 65536, 0x10ffff, r(0x110000)]), r(2)))
            elif x < .75: s.append(L('bool', k, r(2), r(2)))
            elif x < .76: s.append(L('enum', k, rnd.choice([0, 1, 2, 2, 3, 4, 127, -1])))
            elif x < .81: s.append(L('format', k, r(5), rnd.choice([0, 1, 12345, -7]), self.txt(rnd, False)))
            elif x < .9: s.append(L(rnd.choice(['str', 'str', 'flush', 'mflush', 'endl']), k))
            elif x < .94: s.append(L('seek', k, r(rnd.choice([3, 20, 60]))) if r(2) else L('seekp', k, rnd.choice([-3, -1, 0, 1, 2]), rnd.choice([0, 1, 1])))
            elif x < .95: s.append(L('written', k, 3 - k))
            else: s.append(L(rnd.choice(['clear', 'clear', 'setstate', 'exceptions']), k, rnd.choice([0, 0, 2, 4, 7])))
        return s

check = T01()
